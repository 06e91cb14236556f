import os

from prometheus_client.parser import text_string_to_metric_families

from _zkapauthorizer.storage_common import MorePassesRequired

from vz.core import Scenario
from vz import srvops
from vz.srv import World, ceil_passes, plugin_server

METRIC = "zkapauthorizer_server_spending_successes"

PROPERTY = "C04"
LEVEL = "exploration"
RULE = (
    "Random histories of granted and refused storage calls; the passes handed to the spend record and the movement of the "
    "published spending metric are compared with an independent price for each call. Distinct by operations and outcomes."
)
ASSUMPTIONS = []


def history(rng, mon):
    srvops.run(rng, mon, "C04", 14)


def export(rng, mon):
    """The metrics file of a server made by the plugin, at every export."""
    w = World(rng)
    path = os.path.join(w.dir, "metrics", "out.prom")
    interval = rng.choice([1, 5, 60])
    w.server = plugin_server(w, path, interval)
    w.seed_shares()
    costs = []
    for _ in range(8):
        si = rng.choice(w.sis)
        op = "allocate_buckets"
        nums = set(rng.sample(range(100), rng.randrange(1, 8)))
        shares = set(w.shares(si)) if w.kinds[si] == "immutable" else None
        if shares is None:
            continue
        size = w.size()
        passes = w.valid(ceil_passes(w.pass_value, [size] * len(nums)), op, si)
        short = rng.random() < 0.3 and passes
        try:
            w.server.doRemoteCall(op, (passes[1:] if short else passes, si, w.secrets[0], w.secrets[0], nums, size, w.canary), {})
        except MorePassesRequired:
            mon.check(short, "an allocation with enough passes was refused")
            mon.event("refused")
        else:
            mon.check(not short, "an allocation without enough passes was granted")
            costs.append(ceil_passes(w.pass_value, [size] * len(nums - shares)))
            w.canary.disconnect()
        w.clock.advance(interval)
        mon.check(os.path.exists(path), "no metrics file at an export interval")
        got = {}
        with open(path) as f:
            for family in text_string_to_metric_families(f.read()):
                for s in family.samples:
                    if s.name.startswith(METRIC):
                        got[s.name[len(METRIC):] + s.labels.get("le", "")] = s.value
        mon.equal((got.get("_count"), got.get("_sum")), (float(len(costs)), float(sum(costs))), "the metrics file does not hold the spending so far")
        edges = [k for k in got if k.startswith("_bucket")]
        mon.check(len(edges) >= 2, "the metrics file has no price buckets")
        for k in edges:
            mon.equal(got[k], float(sum(1 for c in costs if c <= float(k[7:]))), "a spending bucket is wrong in the metrics file")
        mon.event("exports")
    mon.sig(tuple(costs))


SCENARIOS = [
    Scenario("history", history, quick=160, thorough=3000, needs=["spends-nonzero"]),
    Scenario("export", export, quick=80, thorough=800, needs=["exports", "refused"]),
]
