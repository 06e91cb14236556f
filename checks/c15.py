"""Price calculation over HTTP matches what storage really costs."""

import json

from twisted.internet.task import Clock

from vz import cli, web
from vz.core import Scenario, scratch_dir

PROPERTY = "C15"
LEVEL = "exploration"
RULE = (
    "Random configurations (shares needed/total, pass value, minimum remaining lease time, or absent) and size lists, biased to every rounding "
    "boundary and to sizes beyond 2**53 and 2**64, asked over HTTP; the oracle is exact integer arithmetic written apart from the code. Malformed "
    "requests of every version, shape and value type must be answered 400. Distinct by configuration and size class."
)
ASSUMPTIONS = [
    "booleans in place of integers and 1.0 as the version are not judged",
    "the period is 31 days less the configured minimum remaining lease time",
]


def up(a, b):
    return (a + b - 1) // b


def node(rng):
    clock = Clock()
    client, plugin = {}, {}
    k, n, value, left = 3, 10, 1024 * 1024, 0
    if rng.random() < 0.8:
        k = rng.choice([1, 2, 3, 4, 7, 10, 50, 255])
        client["shares.needed"] = k
        n = k
    if rng.random() < 0.8 or k > 10:
        n = rng.choice([k, k + 1, 2 * k, max(k, 10), max(k, 255), max(k, 256)])
        client["shares.total"] = n
    else:
        n = 10
    if rng.random() < 0.85:
        value = rng.choice([1, 2, 3, 7, 512, 1000, 1024, 1024 * 1024, 10**6, 999983, 2**31 - 1, 2**40, rng.randrange(1, 2**22)])
        plugin["pass-value"] = value
    if rng.random() < 0.4:
        left = rng.choice([0, 1, 3600, 604800, 86400 * 30])
        plugin["lease.min-time-remaining"] = left
    w = web.ClientNode(scratch_dir(), web.NeverRedeemer(rng), clock, cli.when(clock), plugin, client)
    w.k, w.n, w.value, w.left = k, n, value, left
    return w


def price(w, sizes):
    return sum(up(up(s, w.k), w.value) * w.n for s in sizes)


def size(rng, w):
    how = rng.randrange(9)
    per = w.k * w.value
    if how == 0:
        return 0
    if how == 1:
        return rng.randrange(0, 20)
    if how == 2:
        return max(0, per * rng.randrange(1, 50) + rng.choice([-1, 0, 1]))
    if how == 3:
        return max(0, per * rng.randrange(1, 50) + rng.choice([-1, 0, 1]) * w.k)
    if how == 4:
        return rng.randrange(0, 2**34)
    if how == 5:
        return 2**53 + rng.randrange(-3, 2**20)
    if how == 6:
        return 2**64 + rng.randrange(-(2**20), 2**70)
    if how == 7:
        return max(0, per * 2**rng.randrange(45, 90) + rng.choice([-w.k, -1, 0, 1, w.k]))
    return rng.randrange(0, max(2, per * 3))


def exact(rng, mon):
    w = node(rng)
    before = w.db.dump()
    for _ in range(20):
        sizes = [size(rng, w) for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 8, 40]))]
        body = json.dumps({"version": 1, "sizes": sizes})
        if rng.random() < 0.3:
            body = json.dumps({"sizes": sizes, "version": 1}, indent=1)
        r = w.call(b"POST", b"/calculate-price", body.encode(), [(b"Content-Type", b"application/json")])
        mon.equal(r.code, 200, "a well-formed price request is refused")
        mon.equal(r.type, b"application/json", "a price has the wrong type")
        doc = r.json()
        mon.equal(set(doc), {"price", "period"}, "a price has the wrong shape")
        mon.check(type(doc["price"]) is int and type(doc["period"]) is int, "a price or period is not an integer", doc)
        mon.equal(doc["price"], price(w, sizes), "a wrong price for sizes %s with k=%d n=%d pass-value=%d" % (sizes[:5], w.k, w.n, w.value))
        mon.equal(doc["period"], 31 * 86400 - w.left, "a wrong period")
        mon.event("prices")
        if max(sizes, default=0) > 2**53:
            mon.event("large")
        mon.sig(w.k, w.n, w.value, len(sizes))
    mon.check(w.db.dump() == before, "asking for prices changes the database")
    mon.check(not w.calls, "asking for prices does something else", w.calls)


def malformed(rng, mon):
    w = node(rng)
    before = w.db.dump()
    ok = [1, 2]
    J = b"application/json"
    bad = [
        ("version", {"version": v, "sizes": ok}) for v in (0, 2, -1, "1", None, [1], {}, 1.5, 11, "", "one", 10**30)
    ] + [
        ("sizes", {"version": 1, "sizes": s})
        for s in (None, 1, "12", {}, {"0": 1}, [-1], [1, -1], [1.0], [1.5], ["1"], [None], [[1]], [{}], [1, 2, "3"], [3, None], "", [1e30], [-(10**30)], [0, 1, 2, -3])
    ] + [
        ("missing", x) for x in ({}, {"version": 1}, {"sizes": ok}, {"Version": 1, "sizes": ok}, {"version": 1, "size": ok})
    ] + [
        ("shape", x) for x in ([], [1, [1]], 1, "x", None, True, [["version", 1], ["sizes", ok]])
    ]
    raw = [("raw", json.dumps(x).encode(), J) for _, x in bad]
    good = json.dumps({"version": 1, "sizes": ok}).encode()
    raw += [("parse", x, J) for x in (b"", b"{", good[:-1], good + b"}", b"\xff\xfe", b"version=1", good.replace(b'"', b"'"), good[: rng.randrange(1, len(good))])]
    raw += [("content-type", good, t) for t in (b"text/plain", b"application/x-www-form-urlencoded", b"", b"text/json", b"application/octet-stream")]
    raw.append(("content-type", good, None))
    for kind, body, type_ in raw:
        r = w.call(b"POST", b"/calculate-price", body, [(b"Content-Type", type_)] if type_ is not None else [])
        mon.equal(r.code, 400, "a malformed price request (%s %r %r) is answered wrongly" % (kind, body, type_))
        mon.event("malformed")
    mon.sig(w.k, w.n, w.value)
    mon.check(w.db.dump() == before, "asking for prices changes the database")


SCENARIOS = [
    Scenario("exact", exact, quick=160, thorough=4000, needs=["prices", "large"]),
    Scenario("malformed", malformed, quick=16, thorough=60, needs=["malformed"]),
]
