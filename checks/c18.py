"""Upgrading a database of any earlier version keeps its data and leaves it usable."""

import json
import os
import shutil
import sqlite3
from base64 import b64encode
from datetime import datetime, timedelta, timezone

import cbor2

from _zkapauthorizer.model import DoubleSpend, NotEnoughTokens, Pending, Redeemed, VoucherStore
from _zkapauthorizer.replicate import with_replication
from vz import cli, node, redeem
from vz.core import Scenario, scratch_dir, set_zone

PROPERTY = "C18"
LEVEL = "fault_enumeration"
RULE = (
    "Databases of every earlier schema version with random contents - vouchers in every state of their redemption, groups, random, unblinded, "
    "sequestered and invalid tokens, finished and unfinished maintenance runs, recorded changes - written in random time zones are opened by the real "
    "code. What the store, another program reading the file and a whole client then show is compared with the contents as generated, the schema with "
    "that of a new database, and operations on both. In the second scenario every statement of the upgrade fails in turn, and the database files as "
    "they are before every statement are what a crash leaves; both have to be the old contents or the new. Distinct by version, contents and fault."
)
ASSUMPTIONS = [
    "times before version 8 have no time zone and are local times of the machine; they are converted to whole seconds, as documented in the schema",
    "ambiguous and skipped local times and times before 1995 or after 2037 are not generated",
]

# The schema of each version, by what was added to the one before.
ADDED = {
    1: [
        "CREATE TABLE [version] AS SELECT 0 AS [version]",
        "CREATE TABLE [vouchers] ([number] text, [created] text, [state] text DEFAULT \"pending\", [finished] text DEFAULT NULL, [token-count] num DEFAULT NULL, PRIMARY KEY([number]))",
        "CREATE TABLE [tokens] ([text] text, [voucher] text, PRIMARY KEY([text]) FOREIGN KEY([voucher]) REFERENCES [vouchers]([number]))",
        "CREATE TABLE [unblinded-tokens] ([token] text, PRIMARY KEY([token]))",
        "CREATE TABLE [lease-maintenance-spending] ([id] integer, [started] text, [finished] text, [count] integer, PRIMARY KEY([id]))",
    ],
    2: ["ALTER TABLE [vouchers] ADD COLUMN [public-key] text"],
    3: ["ALTER TABLE [vouchers] ADD COLUMN [counter] integer DEFAULT 0"],
    4: [
        "ALTER TABLE [tokens] ADD COLUMN [counter] integer NOT NULL DEFAULT 0",
        "ALTER TABLE [vouchers] ADD COLUMN [expected-tokens] integer NOT NULL DEFAULT 32768",
    ],
    5: ["CREATE TABLE [invalid-unblinded-tokens] ([token] text, [reason] text, PRIMARY KEY([token]))"],
    6: [
        "CREATE TABLE [redemption-groups] ([rowid] INTEGER PRIMARY KEY, [voucher] text, [spendable] integer, [public-key] text)",
        "ALTER TABLE [vouchers] ADD COLUMN [sequestered-count] integer NOT NULL DEFAULT 0",
        "ALTER TABLE [unblinded-tokens] ADD COLUMN [redemption-group] integer DEFAULT 1",
    ],
    7: ["CREATE TABLE [event-stream] ([sequence-number] INTEGER PRIMARY KEY AUTOINCREMENT, [statement] TEXT, [important] BOOL)"],
    8: [],
    9: ["ALTER TABLE [event-stream] ADD COLUMN [serialized_arguments] TEXT DEFAULT X'80'"],
}

ZONES = ["UTC", "America/New_York", "Asia/Kolkata", "Australia/Lord_Howe", "Europe/Berlin", "Pacific/Kiritimati", "America/St_Johns"]


class Old:
    """A database of an earlier version and what is in it."""

    def __init__(self, rng, version, path):
        self.rng, self.version, self.path = rng, version, path
        self.vouchers = {}
        self.random = {}  # (voucher, counter) -> set of texts
        self.spendable, self.sequestered, self.invalid = set(), set(), {}
        self.groups = []
        self.runs = []
        self.events = []
        self.keys = {}
        conn = sqlite3.connect(path)
        for v in range(1, version + 1):
            for sql in ADDED[v]:
                conn.execute(sql)
        if version >= 1:
            conn.execute("UPDATE [version] SET [version] = ?", (version,))
            self.fill(conn)
        elif rng.random() < 0.5:
            conn.execute("CREATE TABLE [version] AS SELECT 0 AS [version]")
        conn.commit()
        conn.close()

    def instant(self, aware=None):
        """(what is stored, what it means)"""
        rng = self.rng
        if aware is None:
            aware = self.version >= 8
        while True:
            t = datetime(1995, 1, 2) + timedelta(seconds=rng.randrange(42 * 365 * 86400))
            if rng.random() < 0.7:
                t = t.replace(microsecond=rng.randrange(999000))
            if aware:
                t = t.replace(tzinfo=timezone.utc)
                return t.isoformat(" "), t
            if t.astimezone(timezone.utc) == t.replace(fold=1).astimezone(timezone.utc):
                return t.isoformat(" "), t.replace(microsecond=0).astimezone(timezone.utc)

    def text(self, n):
        return b64encode(bytes(self.rng.randrange(256) for _ in range(n))).decode()

    def insert(self, conn, table, **columns):
        names = list(columns)
        conn.execute("INSERT INTO [%s] (%s) VALUES (%s)" % (table, ", ".join("[%s]" % n.replace("_", "-") for n in names), ", ".join("?" * len(names))), [columns[n] for n in names])

    def fill(self, conn):
        rng, v = self.rng, self.version
        for _ in range(rng.choice([0, 1, 1, 2, 4, 8])):
            number = cli.voucher_number(rng).decode()
            created, created_means = self.instant()
            state = rng.choice(["pending", "redeemed", "double-spend"])
            counter = 0
            if v >= 3:
                counter = {"redeemed": rng.randrange(1, 17), "pending": rng.choice([0, 0, rng.randrange(16)]), "double-spend": rng.choice([0, 0, rng.randrange(16)])}[state]
            expected = rng.choice([16, 100, 32768, 50000]) if v >= 4 else 32768
            finished = finished_means = None
            if state != "pending" or counter > 0:
                # Version 8 did not convert these.
                finished, finished_means = self.instant(aware=v >= 8 and rng.random() < 0.5)
            held = [self.text(96) for _ in range(rng.choice([1, 3, 20]))] if state == "redeemed" or counter > 0 else []
            spendable = [True] * len(held)
            groups = 1
            if v >= 6:
                groups = max(1, counter) if held else 0
                per_group = [rng.random() < 0.7 for _ in range(groups)]
                member = sorted(rng.randrange(groups) for _ in held)
                spendable = [per_group[g] for g in member]
            count = sum(spendable)
            key = self.text(32)
            row = dict(number=number, created=created, state=state, finished=finished, token_count=count if held else None)
            if v >= 2:
                row["public_key"] = key if held and v < 6 else None
            if v >= 3:
                row["counter"] = counter
            if v >= 4:
                row["expected_tokens"] = expected
            if v >= 6:
                row["sequestered_count"] = len(held) - count
            self.insert(conn, "vouchers", **row)
            means = {"pending": Pending(counter=counter)}.get(state)
            if state == "redeemed":
                means = Redeemed(finished_means, count)
            elif state == "double-spend":
                means = DoubleSpend(finished_means)
            self.vouchers[number] = (created_means, expected, means, len(held) - count if v >= 6 else 0)
            # Some have been spent or found to be invalid since then.
            ids = []
            if v >= 6:
                for g in range(groups):
                    cur = conn.execute("INSERT INTO [redemption-groups] ([voucher], [spendable], [public-key]) VALUES (?, ?, ?)", (number, per_group[g], key))
                    ids.append(cur.lastrowid)
                    self.groups.append((number, key, int(per_group[g])))
            elif held:
                self.keys[number] = key if v >= 2 else None
            for i, token in enumerate(held):
                p = rng.random()
                if p < 0.15:
                    continue
                if p < 0.25 and v >= 5:
                    self.invalid[token] = rng.choice(["why", "", "ünicode ☃", "it's"])
                    continue
                if v >= 6:
                    self.insert(conn, "unblinded-tokens", token=token, redemption_group=ids[member[i]])
                else:
                    self.insert(conn, "unblinded-tokens", token=token)
                (self.spendable if spendable[i] else self.sequestered).add(token)
            if state == "pending":
                for c in {counter} | ({rng.randrange(counter, 17)} if v >= 4 else set()):
                    if rng.random() < 0.7:
                        texts = {self.text(96) for _ in range(rng.choice([1, 5]))}
                        self.random[number, c if v >= 4 else 0] = texts
                        for t in texts:
                            row = dict(text=t, voucher=number)
                            if v >= 4:
                                row["counter"] = c
                            self.insert(conn, "tokens", **row)
        for token, reason in self.invalid.items():
            self.insert(conn, "invalid-unblinded-tokens", token=token, reason=reason)
        for _ in range(rng.choice([0, 1, 3])):
            started, s = self.instant()
            finished, f = self.instant() if rng.random() < 0.6 else (None, None)
            count = rng.choice([0, 1, 10 ** 6, 2 ** 40])
            self.insert(conn, "lease-maintenance-spending", started=started, finished=finished, count=count)
            self.runs.append((s, count, f))
        if v >= 7:
            for _ in range(rng.choice([0, 0, 2, 5])):
                sql = "INSERT INTO [vouchers] ([number]) VALUES ('%s')" % self.text(6)
                important = rng.random() < 0.5
                conn.execute("INSERT INTO [event-stream] ([statement], [important]) VALUES (?, ?)", (sql, important))
                self.events.append((sql, int(important)))
            if rng.random() < 0.4:
                # Old changes have been pruned.
                n = rng.randrange(len(self.events) + 1)
                conn.execute("DELETE FROM [event-stream] WHERE [sequence-number] <= ?", (n,))
                self.events = self.events[n:]


class Opened:
    def __init__(self, path, replicating=False, plan=None, on_statement=None):
        self.raw = sqlite3.connect(path, isolation_level="IMMEDIATE", factory=redeem.FaultyConnection)
        self.raw.vz_plan, self.raw.vz_on_statement = plan, on_statement
        self.now = datetime(2040, 1, 1, tzinfo=timezone.utc)
        try:
            self.store = VoucherStore.from_connection(10, self.when, with_replication(self.raw, replicating))
        finally:
            self.raw.vz_plan = self.raw.vz_on_statement = None

    def when(self):
        self.now += timedelta(seconds=1)
        return self.now

    def close(self):
        self.raw.close()


def schema(path):
    conn = sqlite3.connect("file:%s?mode=ro" % (path,), uri=True)
    try:
        tables = sorted(n for (n,) in conn.execute("SELECT name FROM sqlite_master WHERE type = 'table'"))
        out = {"the version": conn.execute("SELECT [version] FROM [version]").fetchall(), "tables": tables}
        for t in tables:
            out[t] = [
                sorted((r[1], r[2], r[3], r[4], r[5]) for r in conn.execute("PRAGMA table_info([%s])" % t)),
                sorted(r[2:] for r in conn.execute("PRAGMA foreign_key_list([%s])" % t)),
                sorted((r[2], r[3]) for r in conn.execute("PRAGMA index_list([%s])" % t)),
            ]
        return out
    finally:
        conn.close()


def judge_contents(mon, old, path, o):
    store = o.store
    db = cli.Reader(path)
    listed = {v.number.decode(): v for v in store.list()}
    mon.equal(set(listed), set(old.vouchers), "other vouchers after the upgrade")
    sequestered = dict(db.rows("SELECT [number], [sequestered-count] FROM [vouchers]"))
    for number, (created, expected, state, seq) in old.vouchers.items():
        for v in (listed[number], store.get(number.encode())):
            mon.equal((v.created, v.expected_tokens, v.state), (created, expected, state), "a voucher is another after the upgrade (times, counts, state)")
        mon.equal(sequestered[number], seq, "another number of sequestered tokens after the upgrade")
        mon.event("voucher-" + type(state).__name__)
    texts = {}
    for t, number, c in db.rows("SELECT [text], [voucher], [counter] FROM [tokens]"):
        texts.setdefault((number, c), set()).add(t)
    mon.equal(texts, old.random, "other random tokens after the upgrade")
    mon.equal(db.unspent(), old.spendable | old.sequestered, "other unblinded tokens after the upgrade")
    mon.equal(db.spendable(), old.spendable, "other tokens are spendable after the upgrade")
    mon.equal(store.count_unblinded_tokens(), len(old.spendable), "another number of tokens is spendable after the upgrade")
    got = store.get_unblinded_tokens(len(old.spendable))
    mon.equal({t.unblinded_token.decode() for t in got}, old.spendable, "other tokens can be taken after the upgrade")
    store.reset_unblinded_tokens(got)
    mon.equal(dict(db.rows("SELECT [token], [reason] FROM [invalid-unblinded-tokens]")), old.invalid, "other invalid tokens after the upgrade")
    groups = db.rows("SELECT [voucher], [public-key], [spendable] FROM [redemption-groups]")
    if old.version >= 6:
        mon.equal(sorted(groups), sorted(old.groups), "other redemption groups after the upgrade")
    elif old.version >= 2:
        # The only key which was known for all of the tokens.
        mon.equal({n: k for n, k, s in groups}, old.keys, "the public keys of the tokens are others after the upgrade")
    runs = db.rows("SELECT [count], [finished] IS NULL FROM [lease-maintenance-spending]")
    mon.equal(sorted(runs), sorted((c, int(f is None)) for _, c, f in old.runs), "other maintenance records after the upgrade")
    latest = store.get_latest_lease_maintenance_activity()
    done = [r for r in old.runs if r[2] is not None]
    if done:
        top = max(r[2] for r in done)
        mon.check(latest is not None and (latest.started, latest.passes_required, latest.finished) in [r for r in done if r[2] == top], "another maintenance run is the latest one after the upgrade", latest, done)
        mon.event("maintenance-judged")
    else:
        mon.equal(latest, None, "a maintenance run appears from nowhere")
    events = db.rows("SELECT [statement], [important], [serialized_arguments] FROM [event-stream] ORDER BY [sequence-number]")
    mon.equal([e[:2] for e in events[: len(old.events)]], old.events, "recorded changes are lost or changed by the upgrade")
    if old.events:
        mon.event("events-judged")


def work(rng, mon, old, path, o):
    """Operations on the upgraded database have the effects they have on a new one."""
    store, db = o.store, cli.Reader(path)
    pending = {n: s.counter for n, (_, _, s, _) in old.vouchers.items() if isinstance(s, Pending)}
    spendable = set(old.spendable)
    for _ in range(rng.choice([2, 6])):
        op = rng.choice(["new", "tokens", "redeem", "redeem", "double", "spend", "invalid", "maintain"])
        if op == "new":
            number = cli.voucher_number(rng).decode()
            tokens = [cli.fake_random_token(rng) for _ in range(3)]
            got = store.add(number.encode(), 48, 0, lambda: tokens)
            mon.equal(got, tokens, "adding a voucher after the upgrade gives other tokens")
            mon.equal((store.get(number.encode()).state, store.get(number.encode()).expected_tokens), (Pending(counter=0), 48), "a voucher added after the upgrade is wrong")
            pending[number] = 0
        elif op == "tokens" and old.random:
            # An interrupted redemption goes on with the tokens it began with.
            (number, c), texts = rng.choice(sorted(old.random.items()))
            if number in pending and pending[number] <= c:
                got = store.add(number.encode(), 1, c, lambda: mon.violate("new random tokens are made although there are some"))
                mon.equal({t.token_value.decode() for t in got}, texts, "an interrupted redemption goes on with other random tokens")
                mon.event("redemptions-resumed")
        elif op in ("redeem", "double") and pending:
            number = rng.choice(sorted(pending))
            if op == "double":
                del pending[number]
                store.mark_voucher_double_spent(number.encode())
                mon.equal(store.get(number.encode()).state, DoubleSpend(o.now), "marking a voucher after the upgrade")
                continue
            tokens = [cli.fake_unblinded_token(rng) for _ in range(3)]
            ok, completed = rng.random() < 0.6, rng.random() < 0.5
            store.insert_unblinded_tokens_for_voucher(number.encode(), "key", tokens, completed, ok)
            if ok:
                spendable |= {t.unblinded_token.decode() for t in tokens}
            pending[number] += 1
            if completed:
                del pending[number]
                mon.check(isinstance(store.get(number.encode()).state, Redeemed), "redeeming a voucher after the upgrade")
            else:
                mon.equal(store.get(number.encode()).state, Pending(counter=pending[number]), "redeeming a part of a voucher after the upgrade")
            mon.event("redeemed-after-upgrade")
        elif op in ("spend", "invalid") and spendable:
            tokens = store.get_unblinded_tokens(rng.randrange(len(spendable)) + 1)
            if op == "spend":
                store.discard_unblinded_tokens(tokens)
            else:
                store.invalidate_unblinded_tokens("since then", tokens)
            spendable -= {t.unblinded_token.decode() for t in tokens}
        elif op == "maintain":
            run = store.start_lease_maintenance()
            run.observe([1, 11])
            run.finish()
            a = store.get_latest_lease_maintenance_activity()
            mon.equal((a.passes_required, a.finished), (3, o.now), "the latest maintenance run after the upgrade is not the last one")
        mon.equal(db.spendable(), spendable, "after operations on an upgraded database other tokens are spendable")
        mon.equal(store.count_unblinded_tokens(), len(spendable), "after operations on an upgraded database another number of tokens is spendable")
    try:
        store.get_unblinded_tokens(len(spendable) + 1)
    except NotEnoughTokens:
        pass
    else:
        mon.violate("more tokens can be taken than there are")
    mon.event("worked")


def begin(rng, mon):
    set_zone(rng.choice(ZONES))
    version = rng.randrange(10)
    d = scratch_dir()
    path = d + "/db.sqlite3"
    old = Old(rng, version, path)
    mon.event("version-%d" % version)
    mon.sig(version, os.environ["TZ"], len(old.vouchers), len(old.spendable), len(old.sequestered), len(old.runs), len(old.events))
    mon.note("version", version, "zone", os.environ["TZ"], "vouchers", [(n[:6], v[2]) for n, v in old.vouchers.items()], "spendable", len(old.spendable), "sequestered", len(old.sequestered), "runs", len(old.runs))
    return d, path, old


def upgrade(rng, mon):
    d, path, old = begin(rng, mon)
    fresh = d + "/new.sqlite3"
    Opened(fresh).close()
    replicating = rng.random() < 0.3
    o = Opened(path, replicating)
    mon.equal(schema(path), schema(fresh), "the schema after the upgrade is not that of a new database")
    judge_contents(mon, old, path, o)
    o.close()
    # Opening it again changes nothing.
    before = cli.Reader(path).dump()
    o = Opened(path, replicating)
    mon.equal(cli.Reader(path).dump(), before, "opening an up-to-date database changes it")
    judge_contents(mon, old, path, o)
    mon.event("reopened")
    if rng.random() < 0.6:
        work(rng, mon, old, path, o)
        o.close()
    else:
        o.close()
        client(rng, mon, old, path)


def client(rng, mon, old, path):
    """A client node with that database."""
    n = node.Node(node.Grid(), boot=False)
    shutil.copy(path, n.path)
    n.boot()
    r = n.call(b"GET", b"/voucher")
    mon.equal(r.code, 200, "a client with an upgraded database does not list its vouchers")
    shown = {v["number"]: v for v in json.loads(r.body)["vouchers"]}
    mon.equal(set(shown), set(old.vouchers), "a client with an upgraded database lists other vouchers")
    for number, (created, expected, state, _) in old.vouchers.items():
        v = shown[number]
        mon.equal((datetime.fromisoformat(v["created"]), v["expected-tokens"]), (created, expected), "a client with an upgraded database shows another voucher")
        if isinstance(state, Redeemed):
            mon.equal((v["state"]["name"], datetime.fromisoformat(v["state"]["finished"]), v["state"]["token-count"]), ("redeemed", state.finished, state.token_count), "a client with an upgraded database shows another redeemed voucher")
        elif isinstance(state, DoubleSpend):
            mon.equal((v["state"]["name"], datetime.fromisoformat(v["state"]["finished"])), ("double-spend", state.finished), "a client with an upgraded database shows another double-spent voucher")
        else:
            mon.check(v["state"]["name"] in ("pending", "redeeming", "error", "unpaid"), "a client with an upgraded database shows another pending voucher", v)
            mon.equal({t for (t,) in cli.Reader(n.path).rows("SELECT [text] FROM [tokens] WHERE [voucher] = ? AND [counter] = ?", (number, state.counter))} >= old.random.get((number, state.counter), set()), True, "random tokens are lost")
    mon.event("clients")
    n.crash()


def replica(rng, mon):
    """A new client recovers what a client of an earlier version replicated."""
    d, path, old = begin(rng, mon)
    if not old.version:
        return
    conn = sqlite3.connect(path)
    data = cbor2.dumps({"version": 1, "statements": list(conn.iterdump())})
    conn.close()
    grid = node.Grid()
    cap = grid.make_dir()
    grid.dirs[cap]["snapshot"] = grid.put_file(data)
    n = node.Node(grid)
    ws = node.Websocket(n).recover(next(ro for ro, rw in grid.ro.items() if rw == cap))
    mon.check(ws.stages[-1] == "succeeded", "what a client of version %d replicated cannot be recovered" % (old.version,), ws.messages[-1])
    fresh = d + "/new.sqlite3"
    Opened(fresh).close()
    mon.equal(schema(n.path), schema(fresh), "the schema after recovery from an earlier version is not that of a new database")
    if rng.random() < 0.5:
        # What was recovered is still there after a restart.
        n.crash()
        o = Opened(n.path)
        judge_contents(mon, old, n.path, o)
        work(rng, mon, old, n.path, o)
        o.close()
    else:
        judge_contents(mon, old, n.path, n)
        n.crash()
    mon.event("replicas-of-earlier-versions")


def copy_files(path, to):
    os.mkdir(to)
    for suffix in ("", "-journal", "-wal", "-shm"):
        if os.path.exists(path + suffix):
            shutil.copy(path + suffix, to + "/db.sqlite3" + suffix)
    return to + "/db.sqlite3"


def dump(path):
    """Contents of a database, after whatever recovery sqlite does."""
    conn = sqlite3.connect(path)
    try:
        return [l for l in conn.iterdump() if not l.startswith('CREATE TABLE IF NOT EXISTS "version"')]
    finally:
        conn.close()


def interrupted(rng, mon):
    d, path, old = begin(rng, mon)
    replicating = rng.random() < 0.3
    os.mkdir(d + "/whole")
    whole = d + "/whole/db.sqlite3"
    shutil.copy(path, whole)
    os.mkdir(d + "/original")
    original = copy_files(path, d + "/original/files")
    count = [0]
    crashes = []
    at = set()

    def look(sql):
        count[0] += 1
        if count[0] in at:
            crashes.append((sql.split("\n")[0][:60], copy_files(path, d + "/crash%d" % count[0])))

    o = Opened(whole, replicating, on_statement=look)
    o.close()
    total = count[0]
    after = dump(whole)
    before = dump(path)
    # Every statement fails in turn.
    fails = [k for k in range(total + 1)]
    if len(fails) > 12 and os.environ.get("VERIF_TIER") != "thorough":
        fails = rng.sample(fails, 12)
    for k in fails:
        try:
            Opened(path, replicating, plan=k).close()
        except sqlite3.OperationalError as e:
            mon.check("disk is full" in str(e), "another failure than the injected one", e)
            got = dump(path)
            mon.check(got in (before, after) or old.version == 0 and strip(got) == strip(before), "a failed upgrade leaves the database between two versions", "statement", k, diff(before, got))
            mon.event("failed-upgrades")
            mon.sig("failed", old.version, k)
        except Exception as e:
            mon.violate("a failing statement of the upgrade raises something else", repr(e))
        if dump(path) == after:
            os.remove(path)
            shutil.copy(original, path)
    # After all of these it can be upgraded.
    count[0] = 0
    at |= set(range(1, total + 1)) if total <= 14 or os.environ.get("VERIF_TIER") == "thorough" else set(rng.sample(range(1, total + 1), 14))
    o = Opened(path, replicating, on_statement=look)
    mon.equal(dump(path), after, "an upgrade after failed ones leaves something else")
    judge_contents(mon, old, path, o)
    o.close()
    mon.event("upgrades-after-failures")
    for sql, p in crashes:
        got = dump(p)
        mon.check(got in (before, after) or old.version == 0 and strip(got) == strip(before), "a crash in the upgrade leaves the database between two versions", "before", sql, diff(before, got))
        mon.event("crashes")
        o = Opened(p, replicating)
        mon.equal(dump(p), after, "the upgrade after a crash in the upgrade leaves something else")
        judge_contents(mon, old, p, o)
        o.close()
        mon.sig("crash", old.version, sql)


def strip(d):
    """Version 0 may be written down or not."""
    return [l for l in d if "version" not in l]


def diff(a, b):
    return "only before: %r only after: %r" % ([l[:150] for l in a if l not in b][:3], [l[:150] for l in b if l not in a][:3])


SCENARIOS = [
    Scenario("upgrade", upgrade, quick=200, thorough=8000, needs=["version-%d" % v for v in range(10)] + ["voucher-Pending", "voucher-Redeemed", "voucher-DoubleSpend", "maintenance-judged", "events-judged", "reopened", "redemptions-resumed", "redeemed-after-upgrade", "worked", "clients"]),
    Scenario("replica", replica, quick=60, thorough=1500, needs=["replicas-of-earlier-versions", "voucher-Pending", "voucher-Redeemed"]),
    Scenario("interrupted", interrupted, quick=80, thorough=1500, needs=["failed-upgrades", "upgrades-after-failures", "crashes"]),
]
