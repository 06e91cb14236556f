"""Recovery never touches existing state and reports its outcome faithfully."""

import io
import json
import sqlite3

import cbor2

from vz import cli, repl
from vz.core import Scenario
from vz.node import FINAL, Grid, Node, Websocket, differences, logical

PROPERTY = "C12"
LEVEL = "exploration"
RULE = (
    "Whole clients recover over their websocket from replicas written by another client: with observers which come and go at every point, ask for another "
    "replica or send anything else, and grid operations that wait, fail or die; from replicas which are missing, truncated, damaged or malformed; and with "
    "failing database statements and crashes inside the import. The stages every observer sees, its close code, the operations on the grid and the complete "
    "database before and after are judged against the outcome reported. Distinct by what was done and reported."
)
ASSUMPTIONS = ["damage which leaves a well-formed replica with other content cannot be told from that content"]

ORDER = ("started", "inspect_replica", "downloading", "importing")


def dump(node):
    conn = sqlite3.connect("file:%s?mode=ro" % (node.path,), uri=True)
    try:
        return list(conn.iterdump())
    finally:
        conn.close()


def replica(rng, mon, streams=True):
    """A replica and the state it holds."""
    life = repl.Life(rng, mon)
    for _ in range(rng.randrange(0, 6)):
        life.step()
    life.setup()
    if streams:
        for _ in range(rng.randrange(2, 9)):
            life.step()
        life.step("add")
    elif not life.history[-1]["vouchers"]:
        pass
    state = logical(life.node.db)
    if not streams:
        # What the snapshot holds.
        life.sample()
    entries = life.grid.entries(life.replica)
    life.node.crash()
    return life, state, entries


class Client:
    """The client which recovers."""

    def __init__(self, life, mon, rng):
        self.mon, self.rng, self.life = mon, rng, life
        self.grid = Grid()
        self.grid.n = 10 ** 6
        self.grid.files = dict(life.grid.files)
        self.grid.ro = dict(life.grid.ro)
        self.grid.dirs = {k: dict(v) for k, v in life.grid.dirs.items()}
        self.cap = life.replica
        self.entries = self.grid.entries(self.cap)
        self.node = Node(self.grid, wire=rng if rng.random() < 0.2 else None)
        if self.node.wire is not None:
            mon.event("on-the-wire")
        self.new_process()

    def new_process(self):
        self.observers = []
        self.gone = []
        self.before = dump(self.node)
        self.listed = 0
        self.node.on_started = self.started

    def started(self, op):
        if op.name == "list":
            self.listed += 1
        self.mon.check(op.name in ("list", "download"), "recovery changes something on the grid", op.name, op.args)

    def observe(self):
        ws = Websocket(self.node).recover(self.cap)
        self.observers.append(ws)
        return ws

    def vouchers(self):
        return self.node.db.rows("SELECT count(*) FROM [vouchers]")[0][0]

    def finish(self):
        """Let it run to its end and judge what everyone was told."""
        self.node.settle()
        mon = self.mon
        told = None
        for ws in self.observers:
            stages = ws.stages
            mon.check(stages and stages[-1] in FINAL, "an observer is not told the outcome of the recovery", stages)
            mon.equal([s for s in stages if s in FINAL], stages[-1:], "an observer is told more than one final stage")
            known = stages[:-1]
            mon.check(all(s in ORDER for s in known) and sorted(set(known), key=ORDER.index) == known, "an observer is told stages out of order", stages)
            for m in ws.messages:
                mon.equal(sorted(m), ["failure-reason", "stage"], "a status update has other fields")
                failed = m["stage"] in FINAL[1:]
                mon.check((m["failure-reason"] is not None) == failed and (not failed or isinstance(m["failure-reason"], str)), "the failure reason does not go with the stage", m)
            if told is not None:
                mon.equal(ws.messages, told, "two observers of one recovery are told different things")
            told = ws.messages
            mon.check(ws.closed is not None and ws.closed[0] in (None, 1000), "the websocket of an observer is not closed normally at the end", ws.closed)
            mon.event("observers")
        for ws, seen in self.gone:
            mon.equal([m["stage"] for m in seen], [m["stage"] for m in (told or seen)[: len(seen)]], "an observer that left early was told something else")
        return told[-1]["stage"] if told else None

    def unchanged(self, before=None):
        self.mon.equal([l for l in dump(self.node)], before or self.before, "a recovery that was refused or failed changed the database")
        self.mon.event("unchanged")

    def usable(self):
        number = cli.voucher_number(self.rng)
        r = self.node.call(b"PUT", b"/voucher", b'{"voucher": "%s"}' % (number,), [(b"Content-Type", b"application/json")])
        self.mon.equal(r.code, 200, "after recovery a voucher is not accepted")
        self.mon.check((number.decode(),) in self.node.db.rows("SELECT [number] FROM [vouchers]"), "after recovery an accepted voucher is not stored")


MALFORMED = [
    b"", b"{", b"null", b"[]", b"3", b'"x"', b"{}", b'{"recovery-capability": null}', b'{"recovery-capability": 3}', b'{"recovery-capability": []}',
    b'{"recovery-capability": ""}', b'{"recovery-capability": "URI:CHK:aaaa"}', b'{"recovery-capability": "URI:DIR2-RO:x:y"}',
]


def malformed(rng, client):
    grid = client.grid
    more = [
        json.dumps({"recovery-capability": client.cap, "x": 1}).encode(),
        json.dumps({"Recovery-Capability": client.cap}).encode(),
        json.dumps([client.cap]).encode(),
        json.dumps(client.cap).encode(),
        json.dumps({"recovery-capability": client.cap[:-3]}).encode(),
        json.dumps({"recovery-capability": grid.put_file(b"x")}).encode(),
    ]
    return rng.choice(MALFORMED + more)


def _other(grid):
    rw = grid.make_dir()
    return next(ro for ro, w in grid.ro.items() if w == rw)


def observers(rng, mon):
    """Observers come and go while the recovery proceeds, fails or is killed."""
    life, state, entries = replica(rng, mon)
    client = Client(life, mon, rng)
    existing = rng.random() < 0.2
    if existing:
        client.usable()
        client.before = dump(client.node)
        mon.event("refusals-wanted")
    client.node.hold = True
    started = added = failed = False
    lost_operation = False
    for _ in range(rng.randrange(4, 22)):
        do = rng.choice(["observe", "observe", "go", "go", "other", "malformed", "leave", "voucher", "kill", "fail"])
        if do == "observe":
            ws = client.observe()
            if started:
                mon.event("late-observers")
            started = True
        elif do == "go" and client.node.pending:
            client.node.pending[0].finish()
        elif do == "fail" and client.node.pending and rng.random() < 0.3:
            client.node.pending[0].finish(rng.choice(["fail", "lost"]))
            failed = True
            mon.event("failed-operations")
        elif do == "other" and started:
            known = [(len(w.messages), w.closed) for w in client.observers]
            ws = Websocket(client.node).recover(_other(client.grid))
            ws.read()
            mon.check(ws.closed is not None and ws.closed[0] == 4000, "an observer asking for another replica is not rejected", ws.closed)
            mon.equal(ws.messages, [], "an observer asking for another replica is told about this one")
            mon.equal([(len(w.messages), w.closed) for w in client.observers], known, "an observer asking for another replica disturbs the others")
            mon.event("rejected-others")
        elif do == "malformed":
            listed = client.listed
            ws = Websocket(client.node)
            what = malformed(rng, client)
            ws.send(what, binary=rng.random() < 0.3)
            ws.read()
            mon.check(ws.closed is not None and ws.closed[0] == 4000, "a malformed request is not rejected", what, ws.closed)
            mon.equal(ws.messages, [], "a malformed request is told about a recovery")
            mon.check(client.listed == listed, "a malformed request starts a recovery", what)
            mon.event("rejected-malformed")
        elif do == "leave" and client.observers:
            for _ in range(rng.choice([1, 1, len(client.observers)])):
                ws = client.observers.pop(rng.randrange(len(client.observers)))
                ws.read()
                client.gone.append((ws, list(ws.messages)))
                ws.disconnect()
            mon.event("left")
            if not client.observers:
                mon.event("all-left")
        elif do == "voucher" and started and rng.random() < 0.25:
            over = not client.node.pending
            client.usable()
            client.before = dump(client.node)
            if not over:
                added = True
                mon.event("vouchers-during-recovery")
        elif do == "kill" and rng.random() < 0.15:
            over = started and not client.node.pending
            client.node.crash()
            before = client.before
            client.node.boot()
            if not over:
                client.unchanged(before)
            if client.vouchers():
                existing = True
            client.new_process()
            started = added = failed = False
            mon.event("kills")
        else:
            continue
        mon.sig(do)
        if started and not existing and not added and not failed and not client.vouchers():
            # Nothing is changed before it is over.
            mon.check(dump(client.node) == client.before, "the database changes before the recovery is over")
    if not started:
        client.observe()
    refused = existing or added
    client.node.hold = False
    if not client.observers:
        # Who asks when it is over is told what has happened.
        client.node.settle()
        client.observe()
    for _ in range(rng.randrange(0, 3)):
        client.observe()
    stage = client.finish()
    mon.sig(stage, len(client.observers), refused, failed)
    if stage == "succeeded":
        mon.check(not refused, "a recovery into a client with vouchers is reported as a success")
        mon.check(not failed, "a recovery whose download failed is reported as a success")
        mon.event("successes")
        # Some vouchers may have been added since it was over.
        now = logical(client.node.db)
        for name in state:
            missing = set(state[name]) - set(now[name])
            if name in ("tokens", "vouchers"):
                missing = {r for r in missing if r[0] in {v[0] for v in state["vouchers"]}}
            mon.check(not missing, "a successful recovery lacks something of the replica in", name, sorted(missing, key=repr)[:3])
    else:
        mon.check(refused or failed, "recovery from a sound replica into an empty client fails", client.observers[0].messages if client.observers else None)
        mon.event("refusals" if refused else "failures")
        client.unchanged()
    # Once per process: another request is told the same and nothing is done.
    listed, ops = client.listed, len(client.grid.log)
    client.observe()
    client.finish()
    mon.check(client.listed == listed and len(client.grid.log) == ops, "a second recovery is carried out by one process")
    mon.event("repeated-requests")
    client.usable()


# -- damage --


def sequences(grid, entries):
    """The sequence numbers in the event streams of a replica."""
    found = []
    for name, cap in sorted(entries.items()):
        if name.startswith("event-stream-"):
            try:
                found.append([e[0] for e in cbor2.load(io.BytesIO(grid.files[cap]))["events"]])
            except Exception:
                found.append(None)
    return repr(found)


def reference(client, path):
    """What the files of the replica say, or an error."""
    conn = sqlite3.connect(path)
    try:
        entries = client.entries
        files = client.grid.files
        conn.executescript("CREATE TABLE [t] ([x] INTEGER PRIMARY KEY AUTOINCREMENT); DROP TABLE [t]")
        snapshot = cbor2.load(io.BytesIO(files[entries["snapshot"]]))
        conn.executescript("\n".join(snapshot["statements"]) + """
            CREATE TEMPORARY TABLE [to-discard] ([unblinded-token] text);
            CREATE TEMPORARY TABLE [to-reset] ([unblinded-token] text);
        """)
        row = conn.execute("SELECT seq FROM sqlite_sequence WHERE name = 'event-stream'").fetchone()
        last = row[0] if row else 0
        events = {}
        for name, cap in entries.items():
            if name.startswith("event-stream-"):
                for seq, sql, arguments, important in ((e[0], e[1], e[2], e[3]) for e in cbor2.load(io.BytesIO(files[cap]))["events"]):
                    events[seq] = (sql, arguments)
        for seq in sorted(events):
            if seq > last:
                sql, arguments = events[seq]
                if isinstance(arguments, bytes):
                    arguments = cbor2.loads(arguments)
                conn.execute(sql, tuple(arguments))
        conn.commit()
        return last
    finally:
        conn.close()


def mangle(rng, kind, data, is_snapshot, high):
    """Damage that must not be taken for a sound file."""
    if kind == "truncate":
        return data[: rng.choice([0, 1, rng.randrange(len(data)), len(data) - 1])]
    if kind == "garbage":
        return rng.choice([bytes(rng.randrange(256) for _ in range(rng.randrange(1, 200))), b"\0", b"\xf6", b"\x80", b"\xa0", b"hello", cbor2.dumps([1, 2]), cbor2.dumps({"version": 1}), cbor2.dumps("x")])
    value = cbor2.loads(data)
    if kind == "version":
        v = rng.choice([0, 2, None, "1", -1, [1]])
        value["version"] = v
        if rng.random() < 0.3:
            del value["version"]
    elif kind == "types":
        key = "statements" if is_snapshot else "events"
        what = rng.choice(["drop", "scalar", "element"])
        if what == "drop":
            del value[key]
        elif what == "scalar":
            value[key] = rng.choice([None, 3, {"a": 1}, "CREATE"])
        else:
            items = list(value[key])
            items.insert(rng.randrange(len(items) + 1), rng.choice([None, 7, {"a": 1}, ["SELECT 1"], [["x"]]]))
            value[key] = items
    elif kind == "sql":
        bad = rng.choice(["INSERT INTO [nonsense] VALUES (1)", "this is not SQL", "INSERT INTO [vouchers] ([number]) VALUES (1, 2, 3)", "CREATE TABLE [vouchers] (x)", "INSERT INTO [vouchers]"])
        if is_snapshot:
            items = list(value["statements"])
            items.insert(rng.randrange(2, len(items)) if bad != "CREATE TABLE [vouchers] (x)" else len(items) - 1, bad + ";")
            value["statements"] = items
        else:
            items = list(value["events"])
            shape = list(items[-1])
            shape[0], shape[1] = high + 1 + rng.randrange(5), bad
            shape[2] = cbor2.dumps([]) if isinstance(shape[2], bytes) else []
            items.append(shape)
            value["events"] = items
    elif kind == "arguments":
        items = list(value["events"])
        shape = list(items[-1])
        shape[0] = high + 1
        shape[2] = rng.choice([[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], "x", 5])
        items.append(shape)
        value["events"] = items
    return cbor2.dumps(value)


def damaged(rng, mon):
    """The replica is missing, unreadable, truncated or malformed."""
    life, state, entries = replica(rng, mon)
    client = Client(life, mon, rng)
    files, entries = client.grid.files, client.entries
    streams = sorted(n for n in entries if n.startswith("event-stream-"))
    high = max(int(n.split("-")[-1]) for n in streams)
    target = rng.choice(["snapshot"] + streams)
    kinds = ["truncate"] * 4 + ["garbage"] * 2 + ["version", "types", "types", "sql", "sql", "no-snapshot", "no-directory", "no-file", "a-directory", "grid"]
    if target != "snapshot":
        kinds += ["arguments"] * 2
    kind = rng.choice(kinds)
    good = dict(files), dict(entries)
    if kind == "no-snapshot":
        del entries["snapshot"]
    elif kind == "no-directory":
        del client.grid.dirs[client.grid.ro[client.cap]]
    elif kind == "no-file":
        del files[entries[target]]
        entries[target] = entries[target]
        # The directory still lists it, with what it knows about it.
        client.node.policy = lambda op: "fail" if op.name == "download" and op.args[0] == entries[target] else "ok"
        files[entries[target]] = b"?"
    elif kind == "a-directory":
        target = "snapshot"
        entries[target] = _other(client.grid)
    elif kind == "grid":
        n = [rng.randrange(0, 2 + len(streams))]

        def policy(op):
            n[0] -= 1
            return "fail" if n[0] == -1 else "ok"

        client.node.policy = policy
    else:
        files[entries[target]] = mangle(rng, kind, files[entries[target]], target == "snapshot", high)
    mon.sig(kind, target == "snapshot", len(streams))
    mon.note("damage", kind, target)
    for _ in range(rng.randrange(1, 3)):
        client.observe()
    stage = client.finish()
    mon.check(stage != "succeeded", "recovery from a damaged replica is reported as a success", kind, target)
    client.unchanged()
    mon.event("damage-" + kind)
    # Everything works again once the replica does, in another process.
    if rng.random() < 0.6:
        if rng.random() < 0.5:
            client.usable()
        else:
            if kind == "no-directory":
                client.grid.dirs[client.grid.ro[client.cap]] = {}
                client.entries = client.grid.entries(client.cap)
            files.clear(), files.update(good[0])
            client.entries.clear(), client.entries.update(good[1])
            client.node.policy = lambda op: "ok"
            client.node.restart()
            client.new_process()
            client.observe()
            mon.equal(client.finish(), "succeeded", "after a failed recovery a sound replica cannot be recovered")
            mon.equal(differences(state, logical(client.node.db)), [], "recovery after a failed one gives another state")
            mon.event("recovered-afterwards")


def flipped(rng, mon):
    """Single bytes differ: the outcome must agree with what was applied."""
    life, state, entries = replica(rng, mon)
    client = Client(life, mon, rng)
    sound = reference(client, client.node.path + ".reference")
    for _ in range(4):
        client = Client(life, mon, rng)
        target = rng.choice(sorted(client.entries))
        data = bytearray(client.grid.files[client.entries[target]])
        for _ in range(rng.choice([1, 1, 2])):
            data[rng.randrange(len(data))] ^= rng.choice([1, 2, 4, 16, 32, 128, 255])
        client.grid.files[client.entries[target]] = bytes(data)
        client.observe()
        stage = client.finish()
        mon.sig("flip", stage, target == "snapshot")
        if stage != "succeeded":
            client.unchanged()
            mon.event("flips-refused")
            client.node.crash()
            continue
        mon.event("flips-applied")
        path = client.node.path + ".reference"
        error = None
        last = None
        try:
            last = reference(client, path)
        except Exception as e:
            error = e
        if sequences(client.grid, client.entries) != sequences(life.grid, client.entries) or (error is None and last != sound):
            # The order and extent of what is to be applied is not clear.
            mon.event("flips-not-judged")
            continue
        if error is not None and "no such table: " in str(error) and "to-" in str(error):
            # A change which was made using some temporary table.
            mon.event("flips-not-judged")
            continue
        mon.check(error is None, "success is reported though not everything in the replica can be applied", target, error)

        class Db:
            pass

        db = Db()
        db.path = path
        try:
            expected = logical(db)
        except sqlite3.Error:
            mon.event("flips-in-the-schema")
        else:
            mon.equal(differences(expected, logical(client.node.db)), [], "success is reported though something else was applied")
        client.node.crash()


def interrupted(rng, mon):
    """Statements of the import fail, or the process dies in it."""
    life, state, entries = replica(rng, mon)
    client = Client(life, mon, rng)
    node = client.node
    # Count what the import executes.
    probe = Client(life, mon, rng)
    count = [0]

    def counting(sql):
        count[0] += 1

    probe.node.raw.vz_on_statement = counting
    probe.observe()
    mon.equal(probe.finish(), "succeeded", "recovery from a sound replica fails")
    mon.equal(differences(state, logical(probe.node.db)), [], "recovery gives another state")
    probe.node.crash()
    n = count[0]
    for _ in range(rng.randrange(1, 4)):
        at = rng.choice([rng.randrange(n), rng.randrange(n), n - 1, n - 2, 0])
        if rng.random() < 0.5:
            node.raw.vz_plan = at
            hits = node.raw.vz_hits
            client.observe()
            stage = client.finish()
            node.raw.vz_plan = None
            if node.raw.vz_hits == hits:
                mon.event("faults-not-reached")
                mon.equal(stage, "succeeded", "recovery from a sound replica fails")
                mon.equal(differences(state, logical(node.db)), [], "recovery gives another state")
                return
            mon.check(stage != "succeeded", "success is reported although the database failed", at, "of", n)
            client.unchanged()
            mon.event("database-failures")
            mon.sig("fault", at * 10 // n)
            node.restart()
        else:
            left = [at]
            node.hold = True

            def dying(sql):
                left[0] -= 1
                if left[0] < 0:
                    node.tahoe.live = False
                    raise repl.Crash()

            try:
                client.observe()
                node.raw.vz_on_statement = dying
                node.hold = False
                node.settle()
            except repl.Crash:
                pass
            if left[0] >= 0:
                mon.event("crashes-not-reached")
                mon.equal(differences(state, logical(node.db)), [], "recovery gives another state")
                return
            node.crash()
            client.mon.equal(dump(node), client.before, "a recovery which the process did not survive changed the database")
            mon.event("crashes-in-import")
            mon.sig("crash", at * 10 // n)
            node.boot()
        client.new_process()
    client.observe()
    mon.equal(client.finish(), "succeeded", "after an interrupted recovery a sound replica cannot be recovered")
    mon.equal(differences(state, logical(node.db)), [], "recovery after an interrupted one gives another state")
    mon.event("recovered-afterwards")
    client.usable()


SCENARIOS = [
    Scenario("observers", observers, quick=90, thorough=4000, needs=["observers", "late-observers", "rejected-others", "rejected-malformed", "left", "all-left", "vouchers-during-recovery", "kills", "successes", "refusals", "failures", "repeated-requests"]),
    Scenario("damaged", damaged, quick=90, thorough=4000, needs=["unchanged", "damage-truncate", "damage-garbage", "damage-types", "damage-sql", "recovered-afterwards"]),
    Scenario("flipped", flipped, quick=20, thorough=1000, needs=["flips-refused", "flips-applied"]),
    Scenario("interrupted", interrupted, quick=40, thorough=1500, needs=["database-failures", "crashes-in-import", "recovered-afterwards"]),
]
