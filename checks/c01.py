from vz.core import Scenario
from vz import srvops

PROPERTY = "C01"
LEVEL = "exploration"
RULE = (
    "Random histories of paid, unpaid and malformed storage calls over a real storage backend; passes are valid, bound "
    "to another operation or storage index, signed by another key, bit-flipped, spliced or garbage, in any order and number "
    "around the price. A history is non-trivial when calls were granted or refused; distinct by the sequence of operations and outcomes."
)
ASSUMPTIONS = ["Ristretto primitives of the installed library are correct", "Tahoe-LAFS share containers are read correctly by Tahoe-LAFS"]


def history(rng, mon):
    srvops.run(rng, mon, "C01", 14)


SCENARIOS = [
    Scenario("history", history, quick=160, thorough=3000,
             needs=["granted-allocate_buckets", "refused-allocate_buckets", "granted-add_lease", "refused-add_lease",
                    "granted-slot_testv_and_readv_and_writev", "refused-slot_testv_and_readv_and_writev",
                    "truncation-refused", "malformed-refused", "presented-again"]),
]
