"""Recovery restores exactly the replicated state."""

import json
import re

import cbor2

from vz import cli, node, realgrid, repl
from vz.core import Scenario

PROPERTY = "C09"
LEVEL = "exploration"
RULE = (
    "Random histories of a whole client with replication on a model grid: voucher, token and maintenance operations interleaved with snapshot and "
    "event-stream uploads and prunes that complete, fail, get their answers lost or hang, failing database statements and crashes between and inside "
    "transactions. From every state the replica directory passes through, a new client recovers over its websocket; the result must equal a committed "
    "state not older than the last replicated one, with exactly its spendable tokens available. Distinct by sequence of operations and outcomes."
)
ASSUMPTIONS = ["an operation on the grid either takes effect completely or not at all, and none of a dead process takes effect after it has been restarted"]

STORM = ("ok", "ok", "ok", "hold", "hold", "fail", "lost")


def quiet(rng, mon):
    """Replication without faults, judged whenever it has caught up."""
    life = repl.Life(rng, mon)
    for _ in range(rng.randrange(0, 10)):
        life.step()
    life.setup()
    life.caught_up()
    for _ in range(rng.randrange(4, 24)):
        if life.step() and rng.random() < 0.9:
            # It is uploaded at once, with everything before it.
            life.caught_up()
    life.judge_all(limit=8, chain=0.15)


def stormy(rng, mon):
    life = repl.Life(rng, mon, storm=STORM)
    for _ in range(rng.randrange(0, 8)):
        life.step()
    slow = rng.random() < 0.4
    life.setup(hold=slow)
    if slow:
        # There are changes while the very first snapshot is uploaded.
        for _ in range(rng.randrange(0, 5)):
            life.step()
        life.holding = False
        if rng.random() < 0.5:
            life.calm()
    else:
        life.caught_up()
    for _ in range(rng.randrange(1, 4)):
        life.storming = rng.random() < 0.85
        for _ in range(rng.randrange(3, 14)):
            if rng.random() < 0.15:
                life.restart()
            if rng.random() < 0.3:
                pending = life.node.pending
                if pending:
                    rng.choice(pending).finish(rng.choice(["ok", "ok", "fail", "lost"]))
                    life.sample()
            if rng.random() < 0.1:
                life.node.reactor.advance(rng.choice([61, 300, 7200]))
                life.sample()
            fault = crash = None
            if rng.random() < 0.15:
                fault = rng.randrange(0, 6)
            elif rng.random() < 0.15:
                crash = rng.randrange(0, 12)
            life.step(fault=fault, crash=crash)
        if rng.random() < 0.7:
            life.calm()
            life.step("add")
            life.node.settle()
            life.caught_up()
    life.judge_all(limit=10, chain=0.1)


def wire(rng, mon):
    """The same with the client's own requests to its Tahoe-LAFS node."""
    life = repl.Life(rng, mon, storm=STORM, wire=True)
    for _ in range(rng.randrange(0, 8)):
        life.step()
    life.setup()
    life.caught_up()
    for _ in range(rng.randrange(1, 4)):
        life.storming = rng.random() < 0.8
        for _ in range(rng.randrange(2, 9)):
            if rng.random() < 0.1:
                life.restart()
            pending = life.node.pending
            if pending and rng.random() < 0.4:
                rng.choice(pending).finish(rng.choice(["ok", "ok", "fail", "lost"]))
                life.sample()
            if rng.random() < 0.1:
                life.node.reactor.advance(rng.choice([61, 300, 7200]))
                life.sample()
            life.step()
        if rng.random() < 0.8:
            life.calm()
            life.step("add")
            life.node.settle()
            life.caught_up()
    mon.event("requests", life.node.tahoe.requests)
    life.judge_all(limit=8, chain=0.1)


def growing(rng, mon):
    """Long enough for further snapshots, which prune event streams."""
    options = {"pass-value": str(rng.choice([1000, 5000, 1 << 20, 1 << 20]))}
    life = repl.Life(rng, mon, options, storm=("ok",) * 8 + ("hold", "fail", "lost"))
    life.setup()
    life.caught_up()
    for n in range(rng.randrange(14, 45)):
        life.storming = rng.random() < 0.3
        if rng.random() < 0.04:
            life.restart()
        if rng.random() < 0.05:
            life.step(crash=rng.randrange(8))
        else:
            life.step(rng.choice(["add", "add", "add", "redeem", "take", "give", "tokens"]))
        if rng.random() < 0.1:
            life.calm(1)
    life.calm()
    life.step("add")
    life.caught_up()
    life.judge_all(limit=12, chain=0.05)


def replica(c, mon, cap):
    """The names of what the replica holds, and the sequence number it goes up to; None if there is no snapshot yet."""
    kind, value = json.loads(c.must(mon, "GET", "/uri/%s?t=json" % (cap,), None, "a listing")[0])
    names = set(value["children"])
    if "snapshot" not in names:
        return names, None
    snapshot = cbor2.loads(c.must(mon, "GET", "/uri/%s/snapshot" % (cap,), None, "a download")[0])
    numbers = [re.search(r"sqlite_sequence.*'event-stream', *([0-9]+)", s) for s in snapshot["statements"]]
    return names, max([int(n[len("event-stream-") :]) for n in names if n.startswith("event-stream-")] + [int(n.group(1)) for n in numbers if n] + [0])


def grid(rng, mon):
    """Clients which are real processes, and so is the grid."""
    pv = rng.choice([8192, 1 << 20])
    with realgrid.session(rng, mon, rng.choice([1, 2]), pv, 16 * 40) as g:
        c = realgrid.Client(g).start()
        files = []
        cap = None
        vouchers = []

        known = [None]

        def caught_up():
            """The replica has every important change."""
            g.touch()
            known[0] = set(node.logical(c.db)["tokens"])
            rows = c.db.rows("SELECT max([sequence-number]) FROM [event-stream] WHERE [important]")
            names, highest = replica(c, mon, cap)
            return highest is not None and (rows[0][0] or 0) <= highest

        for n in range(rng.randrange(4, 9)):
            op = rng.choice(["buy", "put", "put", "replicate", "restart"]) if n else "buy"
            if op == "put" or op == "replicate" and cap is None:
                if c.report()[0] < 100:
                    op = "buy"
            g.touch()
            mon.note(op)
            if op == "buy":
                vouchers.append(cli.voucher_number(rng).decode())
                mon.equal(c.buy(vouchers[-1]), 200, "a voucher is not accepted")
            elif op == "put":
                data = bytes(rng.randrange(256) for _ in range(rng.choice([60, 700, 5000])))
                got, _ = c.must(mon, "PUT", "/uri", data, "an upload")
                files.append((got.decode(), data))
            elif op == "replicate" and cap is None:
                code, body = c.plugin("POST", "/replicate")
                if code != 201:
                    raise realgrid.Unavailable("replication answered %d" % (code,))
                cap = json.loads(body)["recovery-capability"]
                if rng.random() < 0.8:
                    realgrid.wait_for("replication", lambda: (g.touch(), "snapshot" in replica(c, mon, cap)[0])[1])
            elif op == "restart":
                if cap is not None and "snapshot" not in replica(c, mon, cap)[0]:
                    continue
                rng.choice([c.kill, c.stop])()
                c.start()
        if cap is None:
            code, body = c.plugin("POST", "/replicate")
            if code != 201:
                raise realgrid.Unavailable("replication answered %d" % (code,))
            cap = json.loads(body)["recovery-capability"]
        if rng.random() < 0.6:
            # It dies while redeeming.
            g.issuer.slow = rng.choice([0, 0.5, 2])
            vouchers.append(cli.voucher_number(rng).decode())
            code, body = c.plugin("PUT", "/voucher", {"voucher": vouchers[-1]})
            mon.equal(code, 200, "a voucher is not accepted")
            mon.note("order")
        realgrid.wait_for("replication", caught_up)
        mon.note("replica", sorted(replica(c, mon, cap)[0]))
        streams = len(replica(c, mon, cap)[0]) - 1
        rng.choice([c.kill, c.stop])()
        a = node.logical(c.db)
        g.issuer.slow = 0
        b = realgrid.Client(g).start()
        stages, code = b.recover(cap)
        if stages and stages[-1]["stage"] == "download_failed":
            raise realgrid.Unavailable("download failed: %r" % (stages[-1],))
        mon.check(stages and stages[-1]["stage"] == "succeeded", "what a client replicated cannot be recovered", stages, code)
        got = node.logical(b.db)
        mon.equal(got["version"], a["version"], "recovery gives another version")
        counters = dict(b.db.rows("SELECT [number], [counter] FROM [vouchers]"))
        due = {t for t in known[0] if t[2] >= counters[t[1]]}
        mon.check(due <= set(got["tokens"]), "tokens to be redeemed are not recovered", len(due - set(got["tokens"])), counters)
        # Those for parts asked for since need not have been replicated.
        late = {v for v, n in g.issuer.asked if n >= counters[v] and not any(t[1:] == (v, n) for t in got["tokens"])}
        mon.event("grid-parts-asked-for-later", len(late))
        mon.equal([v[0] for v in got["vouchers"]], [v[0] for v in a["vouchers"]], "recovery gives other vouchers")
        mon.equal(b.report()[0], len(got["unblinded-tokens"]), "recovered tokens are not spendable")
        behind = sum(1 for v in got["vouchers"] if "redeemed" not in v)
        mon.event("grid-redemptions-resumed", behind)
        # It resumes what was not replicated in time, and is given the same tokens.
        rng.choice([b.kill, b.stop])()
        b.start()
        for v in vouchers:
            realgrid.wait_for("redemption", lambda: b.state(v) in ("redeemed", "double-spend"))
        again = node.logical(b.db)
        for x, y in zip(again["vouchers"], a["vouchers"]):
            if x[0] in late:
                continue
            if "redeemed" in y:
                # All but when it was redeemed.
                mon.equal((x[:3], x[4:]), (y[:3], y[4:]), "after recovery and a restart there are other vouchers")
            else:
                mon.equal((x[0], x[1], x[2]), (y[0], y[1], "redeemed"), "after recovery and a restart a voucher is not redeemed")
        lost = {t for t in set(a["unblinded-tokens"]) - set(again["unblinded-tokens"]) if t[1] not in late}
        mon.check(not lost, "unspent tokens are lost in recovery", len(lost))
        mon.equal(set(got["unblinded-tokens"]) - set(again["unblinded-tokens"]), set(), "recovered tokens are lost in a restart")
        mon.check(len(again["unblinded-tokens"]) <= g.tokens * len(vouchers), "there are more tokens after recovery than were ever bought")
        code, body = b.plugin("GET", "/voucher")
        mon.equal(sorted((v["number"], v["state"]["name"]) for v in json.loads(body)["vouchers"] if v["number"] not in late), sorted((v, "redeemed") for v in vouchers if v not in late), "a recovered client lists other vouchers")
        g.touch()
        for path, data in files:
            got, _ = b.must(mon, "GET", "/uri/" + path, None, "a download")
            mon.check(got == data, "what is read is not what was stored", len(got), len(data))
        total = b.report()[0]
        if total > 100:
            b.must(mon, "PUT", "/uri", bytes(rng.randrange(256) for _ in range(3000)), "an upload with recovered tokens")
            mon.check(b.report()[0] < total, "an upload after recovery spends nothing")
        mon.sig(len(vouchers), len(files), streams)
        mon.event("grid-recoveries")
        mon.event("grid-event-streams", streams)


SCENARIOS = [
    Scenario("growing", growing, quick=30, thorough=800, needs=["caught-up", "recoveries", "snapshots", "recoveries-after-an-attempt"]),
    Scenario("quiet", quiet, quick=40, thorough=1500, needs=["caught-up", "recoveries", "chained-recoveries", "recoveries-from-several-streams"]),
    Scenario("wire", wire, quick=30, thorough=1000, needs=["caught-up", "recoveries", "requests", "restarts"]),
    Scenario("stormy", stormy, quick=60, thorough=2500, needs=["caught-up", "recoveries", "restarts", "crashes-in-transaction", "database-failures"]),
    Scenario("grid", grid, 2, 60, timeout=400),
]
