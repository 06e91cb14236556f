from vz.core import Scenario
from vz import srvops

PROPERTY = "C03"
LEVEL = "exploration"
RULE = (
    "Random histories of granted and refused storage calls by three lease owners under a virtual clock that stops at, before and after lease "
    "expiry; after each call every lease on every share is compared with the only change that call may make. Distinct by operations and outcomes."
)
ASSUMPTIONS = ["Tahoe-LAFS share containers are read correctly by Tahoe-LAFS"]


def history(rng, mon):
    srvops.run(rng, mon, "C03", 14)


SCENARIOS = [Scenario("history", history, quick=160, thorough=3000, needs=["leases-granted", "expired-renewed"])]
