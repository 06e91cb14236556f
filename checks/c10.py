"""The event stream holds exactly the committed changes, in order."""

import math
import os
import re
import sqlite3
from datetime import datetime, timedelta, timezone

import cbor2
from twisted.internet.defer import Deferred

from _zkapauthorizer.replicate import EventStream, Replica, get_events, replication_service

from vz import cli, redeem, repl
from vz.core import Scenario, Violated, scratch_dir
from vz.node import TABLES, differences, logical

PROPERTY = "C10"
LEVEL = "exploration"
RULE = (
    "Every event recorded for replication is decoded independently and applied to a shadow database, which must equal the real one after every "
    "operation; the events of a transaction are compared one by one with the statements seen by the SQLite connection in committed transactions. "
    "Workloads: random client operations with failing statements, crashes and restarts, and random SQL of many shapes with hostile values in "
    "transactions that commit, fail, fail inside and go on, or are bulk statements. Distinct by sequence of operations."
)
ASSUMPTIONS = ["after a bulk statement has failed half-way the transaction is abandoned, as everywhere in the client"]

EVENTS = "SELECT [sequence-number], [statement], [serialized_arguments] FROM [event-stream] ORDER BY [sequence-number]"
SILENT = re.compile(r"\s*((--[^\n]*\n|/\*.*?\*/)\s*)*(SELECT|BEGIN|PRAGMA|COMMIT|ROLLBACK|END|SAVEPOINT|RELEASE)\b", re.I)
# Statements of the machinery itself, and those on temporary tables, which
# exist again (empty) wherever the events are replayed.
OWN = re.compile(r"\[(event-stream|sqlite_sequence)\]|sqlite_sequence")
TEMPORARY = re.compile(r"TEMP|CREATE TABLE IF NOT EXISTS \[version\]|\[(in-use|to-discard|to-reset)\]", re.I)


def plain(args):
    return tuple(a.astimezone(timezone.utc) if isinstance(a, datetime) else a for a in args)


def same(a, b):
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    return a == b and (type(a) is type(b) or isinstance(a, (bool, int)) and isinstance(b, (bool, int)))


class Shadow:
    """Applies recorded events to a copy of the database."""

    def __init__(self, mon, source, traced):
        self.mon, self.source = mon, source
        self.path = os.path.join(scratch_dir(), "shadow.sqlite3")
        src = sqlite3.connect(source)
        dst = sqlite3.connect(self.path)
        src.backup(dst)
        src.close()
        dst.close()
        self.raw, self.rep, self.store = cli.open_client_store(self.path, lambda: cli.EPOCH)
        self.last = self.highest()
        self.known = []  # events not uploaded yet
        self.committed = []  # statements the real connection committed
        self.open = []
        self.watch(traced)

    def watch(self, raw):
        def trace(sql, rows):
            if rows is None:
                if sql == "COMMIT":
                    self.committed.extend(self.open)
                self.open = []
            elif not SILENT.match(sql) and not OWN.search(sql):
                self.open.extend((sql, row) for row in rows)

        self.open = []
        raw.vz_trace = trace

    def rows(self):
        conn = sqlite3.connect("file:%s?mode=ro" % (self.source,), uri=True)
        try:
            return conn.execute(EVENTS).fetchall()
        finally:
            conn.close()

    def highest(self):
        conn = sqlite3.connect("file:%s?mode=ro" % (self.source,), uri=True)
        try:
            return (conn.execute("SELECT seq FROM sqlite_sequence WHERE name = 'event-stream'").fetchone() or (0,))[0]
        finally:
            conn.close()

    def new_events(self):
        rows = self.rows()
        decoded = [(seq, sql, plain(cbor2.loads(args))) for (seq, sql, args) in rows]
        old = [e for e in decoded if e[0] <= self.last]
        self.mon.equal(old, self.known, "changes recorded earlier are altered or removed although nothing was uploaded")
        new = [e for e in decoded if e[0] > self.last]
        return new

    def step(self, what):
        """Everything committed since the last step was recorded."""
        mon = self.mon
        new = self.new_events()
        raw = {seq: tuple(cbor2.loads(args)) for (seq, sql, args) in self.rows()}
        committed, self.committed = self.committed, []
        for seq, sql, args in new:
            mon.check(seq > self.last, "sequence numbers do not increase", seq)
            self.last = seq
            self.known.append((seq, sql, args))
        self.compare(what, new, committed)
        self.raw.execute("PRAGMA foreign_keys = ON")
        for seq, sql, args in new:
            try:
                self.raw.execute(sql, raw[seq])
            except sqlite3.Error as e:
                mon.violate("a recorded change cannot be applied to the state it was made in", sql, args, repr(e))
        self.raw.commit()
        mon.event("events", len(new))
        return new

    def compare(self, what, new, committed):
        expected = [(sql, plain(row)) for (sql, row) in committed if not TEMPORARY.search(sql)]
        got = [(sql, args) for (seq, sql, args) in new if not TEMPORARY.search(sql)]
        for i in range(max(len(expected), len(got))):
            if i >= len(got):
                self.mon.violate("a committed change is not recorded", what, expected[i])
            if i >= len(expected):
                self.mon.violate("something is recorded which was not committed", what, got[i])
            self.mon.check(
                got[i][0] == expected[i][0] and len(got[i][1]) == len(expected[i][1]) and all(map(same, got[i][1], expected[i][1])),
                "what is recorded is not what was executed", what, "recorded", got[i], "executed", expected[i],
            )
        self.mon.event("statements-compared", len(expected))


def operations(rng, mon):
    """The client's own operations."""
    life = repl.Life(rng, mon)
    for _ in range(rng.randrange(0, 8)):
        life.step()
    life.setup(hold=False)
    life.holding = True
    life.node.settle()
    life.held = []
    life.restart()
    shadow = Shadow(mon, life.node.path, life.node.raw)
    # What the restart itself has recorded is part of the copy.
    shadow.known = [(s, q, plain(cbor2.loads(a))) for (s, q, a) in shadow.rows()]
    for n in range(rng.randrange(5, 25)):
        fault = crash = None
        if rng.random() < 0.2:
            fault = rng.randrange(0, 8)
        elif rng.random() < 0.12:
            crash = rng.randrange(0, 14)
        boots = life.node.boots
        if rng.random() < 0.08:
            real, life.boot = life.boot, lambda: booted(life, shadow, real)
            try:
                life.restart()
            finally:
                life.boot = real
        elif rng.random() < 0.15:
            read(rng, life)
            mon.equal([e for e in shadow.new_events()], [], "reading is recorded as a change")
            mon.event("reads")
        else:
            if crash is not None:
                real, life.boot = life.boot, lambda: booted(life, shadow, real)
            try:
                life.step(fault=fault, crash=crash)
            finally:
                if crash is not None:
                    life.boot = real
        shadow.step("operation %d" % n)
        a, b = logical(life.node.db), logical(cli.Reader(shadow.path))
        mon.equal(differences(a, b), [], "the recorded changes do not reproduce the database")
        if rng.random() < 0.2:
            spendable = {t for (t, v, k, s) in b["unblinded-tokens"] if s}
            mon.equal(cli.available(shadow.store), spendable, "which tokens the process has in use was recorded for replication")
            mon.event("availability-compared")
        # The encoding made for upload says the same.
        with get_events(life.node.raw).to_bytes() as f:
            data = f.read()
        events = cbor2.loads(data)["events"]
        mon.equal([(e[0], e[1], plain(e[2])) for e in events], shadow.known, "the encoded event stream is not what was recorded")
    life.node.crash()


def booted(life, shadow, real):
    """Watch the new process from its very first statement."""
    connect = life.node.connect

    def watched(path, *a, **kw):
        raw = connect(path, *a, **kw)
        shadow.watch(raw)
        return raw

    life.node.connect = watched
    try:
        real()
    finally:
        life.node.connect = connect
    life.mon.event("watched-boots")


def read(rng, life):
    store = life.node.store
    store.list()
    store.count_unblinded_tokens()
    store.count_random_tokens()
    store.get_latest_lease_maintenance_activity()
    life.node.call(b"GET", b"/voucher")
    life.node.call(b"GET", b"/lease-maintenance")
    life.node.call(b"GET", b"/unblinded-token")
    v = life.node.db.rows("SELECT [number] FROM [vouchers]")
    if v:
        number = rng.choice(v)[0].encode()
        store.get(number)
        life.node.call(b"GET", b"/voucher/" + number)
    n = store.count_unblinded_tokens()
    if n and rng.random() < 0.5:
        # Only this process is concerned with which tokens it is using.
        store.reset_unblinded_tokens(store.get_unblinded_tokens(rng.randrange(1, n + 1)))


VALUES = [
    None, 0, 1, -1, 2 ** 63 - 1, -(2 ** 63), 0.0, -0.5, 1e300, 5e-324, float("inf"), "", "x", "it's", 'dou"ble', "?", "?1", ":name", "a;b--c", "/* */",
    "Grün ☃ \U0001f600", "line\nbreak", "\\", "%s %d {0}", "NULL", "x" * 3000, b"", b"\x00\xff'", b"x" * 2000, True, False,
    datetime(2021, 3, 4, 5, 6, 7, 890123, tzinfo=timezone.utc), datetime(2021, 3, 4, 5, 6, 7, tzinfo=timezone(timedelta(hours=-7))),
]


class Abandon(Exception):
    pass


class SQL:
    """A generator of statements over a few tables."""

    def __init__(self, rng):
        self.rng = rng
        self.tables = {}
        self.n = 0

    def value(self):
        return self.rng.choice(VALUES)

    def dress(self, sql):
        r = self.rng
        pre = r.choice(["", "", "\n        ", "-- a comment; with 'quotes'\n", "/* note */ ", "\t-- one\n  -- two\n"])
        if r.random() < 0.2:
            word, _, rest = sql.partition(" ")
            sql = word.lower() + " " + rest
        return pre + sql + r.choice(["", "", "\n", "  ", " -- end"])

    def statement(self):
        """(kind, sql, args or rows)"""
        r = self.rng
        if not self.tables or r.random() < 0.06:
            self.n += 1
            name = r.choice(["t%d", "odd [name] %d", "with-dash-%d", "select%d", "Tab\"q%d"]) % self.n
            quoted = '"%s"' % name.replace('"', '""')
            self.tables[quoted] = 2
            return "execute", "CREATE TABLE %s (k INTEGER PRIMARY KEY AUTOINCREMENT, a, b UNIQUE)" % (quoted,), ()
        t = r.choice(list(self.tables))
        kind = r.choice(["insert"] * 4 + ["many"] * 2 + ["update"] * 2 + ["delete", "select", "upsert", "ignore", "copy", "with", "alter", "values", "drop", "fail", "manyup"])
        if kind == "insert":
            return "execute", "INSERT INTO %s (a, b) VALUES (?, ?)" % t, (self.value(), self.unique())
        if kind == "many":
            return "executemany", "INSERT INTO %s (a, b) VALUES (?, ?)" % t, [(self.value(), self.unique()) for _ in range(r.randrange(0, 5))]
        if kind == "manyup":
            return "executemany", "UPDATE %s SET a = ? WHERE k = ?" % t, [(self.value(), r.randrange(8)) for _ in range(r.randrange(1, 4))]
        if kind == "update":
            return "execute", "UPDATE %s SET a = ? WHERE k %% ? = 0" % t, (self.value(), r.randrange(1, 4))
        if kind == "delete":
            return "execute", "DELETE FROM %s WHERE k = ?" % t, (r.randrange(12),)
        if kind == "select":
            return "execute", r.choice(["SELECT * FROM %s WHERE a = ?", "SELECT 'INSERT INTO x', count(*) FROM %s WHERE b IS ?"]) % t, (self.value(),)
        if kind == "upsert":
            return "execute", "REPLACE INTO %s (k, a, b) VALUES (?, ?, ?)" % t, (r.randrange(1, 9), self.value(), self.unique())
        if kind == "ignore":
            return "execute", "INSERT OR IGNORE INTO %s (k, a, b) VALUES (?, ?, ?)" % t, (r.randrange(1, 9), self.value(), self.unique())
        if kind == "copy":
            return "execute", "INSERT INTO %s (a) SELECT a FROM %s WHERE k < ? ORDER BY k" % (t, r.choice(list(self.tables))), (r.randrange(5),)
        if kind == "with":
            return "execute", "WITH x(v) AS (SELECT ?) INSERT INTO %s (a) SELECT v FROM x" % t, (self.value(),)
        if kind == "values":
            return "execute", "INSERT INTO %s (a) VALUES (?), (?)" % t, (self.value(), self.value())
        if kind == "alter":
            self.n += 1
            return "execute", "ALTER TABLE %s ADD COLUMN c%d DEFAULT 'd;e'" % (t, self.n), ()
        if kind == "drop":
            if len(self.tables) > 1 and r.random() < 0.3:
                del self.tables[t]
                return "execute", "DROP TABLE %s" % t, ()
            return "execute", "CREATE INDEX IF NOT EXISTS [idx%d] ON %s (a)" % (r.randrange(3), t), ()
        return "fail", "INSERT INTO %s (k, a) VALUES (?, ?)" % t, ("not an integer", 1)

    def unique(self):
        self.n += 1
        return self.rng.choice([self.n, "u%d" % self.n, b"b%d" % self.n, None])


def generated(rng, mon):
    """SQL of many shapes through the recording connection."""
    path = os.path.join(scratch_dir(), "db.sqlite3")
    raw = redeem.faulty_connect(path)
    from _zkapauthorizer.model import VoucherStore
    from _zkapauthorizer.replicate import with_replication

    serviced = rng.random() < 0.6
    rep = with_replication(raw, not serviced)
    VoucherStore.from_connection(1, lambda: cli.EPOCH, rep)
    calls = []
    if serviced:
        async def upload(name, get_data):
            calls.append(name)
            await Deferred()

        async def prune(predicate):
            calls.append("prune")
            await Deferred()

        async def lister():
            calls.append("list")
            return await Deferred()

        service = replication_service(rep, Replica(upload, prune, lister), None)
        service.startService()
        mon.event("serviced")
    shadow = Shadow(mon, path, raw)
    shadow.known = [(s, q, plain(cbor2.loads(a))) for (s, q, a) in shadow.rows()]
    gen = SQL(rng)
    for n in range(rng.randrange(4, 18)):
        tables = dict(gen.tables)
        how = rng.choice(["commit"] * 5 + ["abandon", "fault", "reading"])
        if how == "fault":
            raw.vz_plan = rng.randrange(0, 5)
        held = []
        try:
            with rep:
                cursor = rep.cursor()
                cursor.execute("BEGIN IMMEDIATE TRANSACTION", ())
                for _ in range(rng.randrange(1, 6)):
                    kind, sql, args = gen.statement()
                    if how == "reading":
                        sql, kind, args = "SELECT 1 -- DELETE", "execute", ()
                        gen.tables = dict(tables)
                    sql = gen.dress(sql)
                    important = rng.random() < 0.3
                    if important:
                        with cursor.important():
                            run(rng, cursor, kind, sql, args, mon)
                    else:
                        run(rng, cursor, kind, sql, args, mon)
                    if sql.lstrip().upper().startswith("SELECT"):
                        rng.choice([cursor.fetchall, cursor.fetchone, lambda: cursor.fetchmany(1)])()
                    held.append(sql)
                    mon.note(how, kind, sql)
                if how == "abandon":
                    raise Abandon()
                cursor.close()
        except (Abandon, sqlite3.Error) as e:
            mon.event("abandoned")
            gen.tables = tables
            mon.note("abandoned", how, repr(e))
        raw.vz_plan = None
        if raw.in_transaction:
            raise Violated("a transaction is left open")
        mon.sig(how, len(held))
        mon.event("transactions")
        shadow.step("transaction %d (%s)" % (n, how))
        a, b = content(path), content(shadow.path)
        mon.equal(a[0], b[0], "the recorded changes do not reproduce the schema")
        for t in a[1]:
            mon.equal(a[1][t], b[1][t], "the recorded changes do not reproduce the table %r" % (t,))
        with get_events(raw).to_bytes() as f:
            data = f.read()
        import io

        decoded = EventStream.from_bytes(io.BytesIO(data))
        mon.equal([(c.sequence, c.statement) for c in decoded.changes], [(s, q) for (s, q, a) in shadow.known], "the decoded event stream is not what was recorded")
        for c, (s, q, a) in zip(decoded.changes, shadow.known):
            mon.check(len(c.arguments) == len(a) and all(map(same, plain(c.arguments), a)), "the decoded arguments are not what was recorded", c.arguments, a)
    if serviced:
        mon.check("prune" not in calls, "event streams are removed although nothing was uploaded")


def run(rng, cursor, kind, sql, args, mon):
    if kind == "fail":
        try:
            cursor.execute(sql, args)
        except sqlite3.IntegrityError:
            mon.event("failed-statements")
            return
        raise Violated("harness: this statement must fail: %r" % (sql,))
    if kind == "executemany":
        mon.event("bulk-statements")
        if rng.random() < 0.3:
            args = iter(args)
        cursor.executemany(sql, args)
    else:
        cursor.execute(sql, args)


def content(path):
    """Everything in a database but the event stream."""
    conn = sqlite3.connect("file:%s?mode=ro" % (path,), uri=True)
    try:
        schema = sorted(conn.execute("SELECT type, name, tbl_name, sql FROM sqlite_master WHERE name NOT LIKE 'sqlite_%' AND name <> 'event-stream'").fetchall())
        out = {}
        for type_, name, _, _ in schema:
            if type_ == "table":
                out[name] = sorted(conn.execute('SELECT rowid, * FROM "%s"' % (name.replace('"', '""'),)).fetchall(), key=repr)
        return schema, out
    finally:
        conn.close()


SCENARIOS = [
    Scenario("operations", operations, quick=60, thorough=2000, needs=["events", "reads", "database-failures", "crashes-in-transaction", "watched-boots", "availability-compared"]),
    Scenario("generated", generated, quick=200, thorough=6000, needs=["events", "serviced", "failed-statements", "bulk-statements", "abandoned"]),
]
