"""What is serialised reads back as the same value."""

import json
import os
import sqlite3
from base64 import b64encode
from datetime import datetime, timedelta, timezone
from io import BytesIO

import cbor2

from _zkapauthorizer import model
from _zkapauthorizer.model import DoubleSpend, Error, Pass, Pending, Redeemed, Redeeming, Unpaid, Voucher
from _zkapauthorizer.recover import RecoveryStages, StatefulRecoverer, make_canned_downloader, statements_from_snapshot
from _zkapauthorizer.replicate import Change, EventStream, get_events, snapshot, statements_to_snapshot, with_replication
from vz import cli
from vz.core import Scenario, scratch_dir

PROPERTY = "C20"
LEVEL = "exploration"
RULE = (
    "Values of every serialised kind are generated from the extremes of their types (years 1 to 9999, microseconds, offsets, 64-bit integers, subnormal "
    "floats, text with quotes, line breaks and any other character, empty and binary values), written and read back, and compared in value and type. "
    "Encodings are cut at every byte, given other versions and ill-typed parts, and have to be refused. Statements carrying generated values are run "
    "on a replicating connection, the snapshot and the event stream are recovered into another database, and the two are compared. Distinct by kind, "
    "shape and outcome."
)
ASSUMPTIONS = [
    "sqlite's own text form of a value is only exact for what the client stores (no infinities, no NUL inside text), so only such values are put into snapshots"
]

UTC = timezone.utc
STATES = ["pending", "redeeming", "redeemed", "double-spend", "unpaid", "error"]


def a_time(rng, tzs=True):
    tz = UTC
    if tzs and rng.random() < 0.3:
        tz = timezone(timedelta(minutes=rng.choice([-719, -60, -1, 1, 330, 345, 840])))
    year = rng.choice([1, 2, 999, 1000, 1900, 1969, 1970, 2000, 2024, 2038, 2100, 9998])
    micro = rng.choice([0, 0, 1, 10, 120000, 500000, 999999, rng.randrange(10**6)])
    return datetime(year, rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), rng.choice([0, 59, rng.randrange(60)]), micro, tz)


def an_int(rng):
    return rng.choice([0, 1, -1, 2, 9, 255, 256, 2**31 - 1, 2**31, 2**32, -(2**31) - 1, 2**53, 2**53 + 1, 2**63 - 1, -(2**63), rng.randrange(-(2**63), 2**63)])


HOSTILE = ["", "'", '"', "''", "--", ";", "a'b", "?", ":x", "%s", "\n", "\r\n", "\t", "NULL", "1", "1.0", "é", "日本", "\U0001f600", "\u2028", "\x7f", "x'41'", "{}", "\\", "BEGIN TRANSACTION;", "COMMIT;", " ", "a" * 300]


def a_text(rng):
    return "".join(rng.choice(HOSTILE) for _ in range(rng.randrange(1, 4)))


def a_blob(rng):
    return bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 23, 24, 255, 256])))


def a_float(rng):
    return rng.choice([0.0, -0.0, 0.1, 1 / 3, 1e308, -1e308, 5e-324, 1.0, 2.0**53, 123456789.123456789, rng.random(), float("inf"), float("-inf")])


def a_value(rng):
    return rng.choice([an_int, an_int, a_float, a_text, a_text, a_blob, a_time, lambda r: None, lambda r: r.random() < 0.5])(rng)


def typed(x):
    """A value together with its type; floats by their representation."""
    if isinstance(x, (list, tuple)):
        return [typed(y) for y in x]
    if isinstance(x, datetime):
        return ("time", x.astimezone(UTC).isoformat() if x.year > 1 else repr(x), x.utcoffset())
    return (type(x).__name__, repr(x))


# Vouchers


def a_state(rng, name):
    return {
        "pending": lambda: Pending(counter=rng.choice([0, 1, 15, 2**31])),
        "redeeming": lambda: Redeeming(started=a_time(rng), counter=rng.choice([0, 1, 15, 2**31])),
        "redeemed": lambda: Redeemed(finished=a_time(rng), token_count=rng.choice([0, 1, 32768, 2**40])),
        "double-spend": lambda: DoubleSpend(finished=a_time(rng)),
        "unpaid": lambda: Unpaid(finished=a_time(rng)),
        "error": lambda: Error(finished=a_time(rng), details=rng.choice([a_text(rng), "\0", "\udc80", "x" * 5000])),
    }[name]()


def a_voucher(rng, name):
    return Voucher(
        number=cli.voucher_number(rng),
        expected_tokens=rng.choice([1, 16, 50000, 2**40]),
        created=None if rng.random() < 0.2 else a_time(rng),
        state=a_state(rng, name),
    )


KEYS = {
    "pending": ["counter"],
    "redeeming": ["started", "counter"],
    "redeemed": ["finished", "token-count"],
    "double-spend": ["finished"],
    "unpaid": ["finished"],
    "error": ["finished", "details"],
}


def instant(x):
    if not isinstance(x, str):
        return x
    try:
        return datetime.fromisoformat(x)
    except ValueError:
        return x


def said(value, state):
    """What a JSON form says about a voucher: with times as instants."""
    s = value.get("state")
    s = s if isinstance(s, dict) else {"not": s}
    out = {"number": value.get("number"), "expected-tokens": value.get("expected-tokens"), "created": instant(value.get("created")), "name": s.get("name")}
    for k in KEYS.get(s.get("name"), []):
        x = s.get(k, "absent")
        out["state-" + k] = instant(x) if k in ("started", "finished") else x
    return out


def expected_said(v, name):
    out = {"number": v.number.decode("ascii"), "expected-tokens": v.expected_tokens, "created": v.created, "name": name}
    for k in KEYS[name]:
        out["state-" + k] = getattr(v.state, k.replace("-", "_"))
    return out


def same_said(a, b):
    return a == b and all(type(a[k]) is type(b[k]) for k in a)


def vouchers(rng, mon):
    name = rng.choice(STATES)
    v = a_voucher(rng, name)
    data = v.to_json()
    mon.note("voucher", v)
    mon.check(isinstance(data, bytes), "the JSON form of a voucher is not bytes", type(data))
    doc = json.loads(data.decode("utf-8"))
    mon.equal(doc.get("version"), 1, "the version of the JSON form of a voucher")
    mon.check(same_said(said(doc, name), expected_said(v, name)), "the JSON form of a voucher does not say what the voucher is", doc, v)
    w = Voucher.from_json(data)
    mon.equal(w, v, "a voucher read back from its JSON form")
    mon.check(type(w.state) is type(v.state) and w.created == v.created and (w.created is None) == (v.created is None), "a voucher read back is in another state", w)
    mon.event("voucher-" + name)

    # What is not such a form: it is refused, or says what is then read.
    for _ in range(6):
        bad = json.loads(data.decode("utf-8"))
        must_fail = True
        how = rng.choice(["version", "version", "drop", "drop-state", "name", "number", "time", "naive", "expected", "text", "not-dict", "swap"])
        if how == "version":
            bad["version"] = rng.choice([0, 2, 10, None, "x", -1])
        elif how == "drop":
            del bad[rng.choice(["number", "state", "version", "expected-tokens"])]
        elif how == "drop-state":
            del bad["state"][rng.choice(["name"] + KEYS[name])]
        elif how == "name":
            bad["state"]["name"] = rng.choice(["", "Pending", "spent", None, 3])
        elif how == "number":
            bad["number"] = rng.choice(["", bad["number"][:-1], bad["number"] + "A", "*" * 44, None, 7, [bad["number"]]])
        elif how in ("time", "naive"):
            k = [k for k in KEYS[name] if k in ("started", "finished")]
            where = bad["state"] if k and rng.random() < 0.5 else bad
            key = k[0] if where is not bad else "created"
            if how == "time":
                where[key] = rng.choice(["", "yesterday", "2024-13-01T00:00:00+00:00", "2024-01-01T25:00:00+00:00", 17])
            else:
                where[key] = "2024-01-01T00:00:00"
        elif how == "expected":
            bad["expected-tokens"] = rng.choice([0, -1, "5", None, [3]])
        elif how == "text":
            pass
        elif how == "not-dict":
            bad = rng.choice([[], None, 3, "x", [bad]])
        elif how == "swap":
            # A well-formed form of something else.
            other = rng.choice(STATES)
            u = a_voucher(rng, other)
            bad = json.loads(u.to_json().decode("utf-8"))
            must_fail = False
        text = json.dumps(bad).encode("utf-8")
        if how == "text":
            text = rng.choice([text[: rng.randrange(len(text))], text + b"}", b"", b"\xff" + text])
        try:
            got = Voucher.from_json(text)
        except (Exception, RecursionError) as e:
            mon.check(must_fail, "a well-formed voucher is refused", how, text, e)
            mon.event("voucher-refused")
        else:
            mon.check(not must_fail, "something which is not the JSON form of a voucher is read as one", how, text, got)
        mon.sig(name, how)


def stored(rng, mon):
    """Vouchers and maintenance read back from the database."""
    d = scratch_dir()
    if d:
        moment = [EPOCH_NOW(rng)]
        now = lambda: moment[0]
        path = os.path.join(d, "db")
        raw, rep, store = cli.open_client_store(path, now, pass_value=rng.choice([1, 3]))
        try:
            expected = {}
            for i in range(rng.randrange(1, 5)):
                kind = rng.choice(["pending", "partial", "redeemed", "double-spend", "twice"])
                number = cli.voucher_number(rng)
                count = rng.randrange(1, 5)
                want = rng.choice([count, 16, 2**31])
                created = moment[0] = EPOCH_NOW(rng)
                store.add(number, want, 0, lambda: [cli.fake_random_token(rng) for _ in range(count)])
                moment[0] = EPOCH_NOW(rng)
                state = Pending(counter=0)
                usable = rng.random() < 0.6
                if kind in ("partial", "redeemed", "twice"):
                    store.insert_unblinded_tokens_for_voucher(number, "a" * 44, [cli.fake_unblinded_token(rng) for _ in range(count)], completed=kind == "redeemed", spendable=usable)
                    state = Redeemed(moment[0], count if usable else 0) if kind == "redeemed" else Pending(counter=1)
                if kind == "twice":
                    # Adding again, later, leaves it what it was.
                    moment[0] = EPOCH_NOW(rng)
                    store.add(number, want + 1, 1, lambda: [cli.fake_random_token(rng) for _ in range(count)])
                if kind == "double-spend":
                    store.mark_voucher_double_spent(number)
                    state = DoubleSpend(moment[0])
                expected[number] = Voucher(number=number, expected_tokens=want, created=created, state=state)
                mon.sig("stored", kind)
                mon.event("stored-" + kind)
            for again in (False, True):
                if again:
                    raw.close()
                    raw, rep, store = cli.open_client_store(path, now)
                for number, v in expected.items():
                    mon.equal(store.get(number), v, "a voucher read back from the database")
                mon.equal({v.number: v for v in store.list()}, expected, "the vouchers listed from the database")
            started = moment[0] = EPOCH_NOW(rng)
            run = store.start_lease_maintenance()
            sizes = [rng.choice([0, 1, 2**20, 2**40]) for _ in range(rng.randrange(3))]
            run.observe(sizes)
            finished = moment[0] = EPOCH_NOW(rng)
            run.finish()
            got = store.get_latest_lease_maintenance_activity()
            mon.equal((got.started, got.finished), (started, finished), "the times of a lease maintenance run")
        finally:
            raw.close()


def EPOCH_NOW(rng):
    return a_time(rng, tzs=False)


# Event streams and snapshots


def a_change(rng, seq):
    return Change(seq, rng.choice(["SELECT 1", a_text(rng), "INSERT INTO [t] VALUES (?)"]), tuple(a_value(rng) for _ in range(rng.choice([0, 1, 2, 3, 24]))), rng.random() < 0.5)


def seen(changes):
    return [(typed(c.sequence), typed(c.statement), typed(list(c.arguments)), bool(c.important)) for c in changes]


def streams(rng, mon):
    n = rng.choice([0, 1, 2, 5, 24, 30])
    seq = rng.choice([1, 1, 23, 2**31, 2**62])
    changes = []
    for _ in range(n):
        changes.append(a_change(rng, seq))
        seq += rng.choice([1, 1, 3])
    stream = EventStream(changes=changes)
    with stream.to_bytes() as f:
        data = f.read()
    mon.check(isinstance(data, bytes), "an encoded event stream is not bytes", type(data))
    back = EventStream.from_bytes(BytesIO(data))
    mon.equal(seen(back.changes), seen(changes), "the changes of an event stream read back")
    mon.equal(back.highest_sequence(), max([c.sequence for c in changes], default=None), "the highest sequence number of an event stream read back")
    mon.event("stream")
    mon.sig("stream", n, sorted({type(a).__name__ for c in changes for a in c.arguments}))

    cuts = range(len(data)) if len(data) < 60 else sorted({0, 1, len(data) - 1} | {rng.randrange(len(data)) for _ in range(30)})
    for cut in cuts:
        refused(mon, "an event stream cut short", lambda: EventStream.from_bytes(BytesIO(data[:cut])), cut, len(data))
    doc = cbor2.loads(data)
    for version in rng.sample([0, 2, None, "1", -1], 2):
        refused(mon, "an event stream of another version", lambda: EventStream.from_bytes(BytesIO(cbor2.dumps(dict(doc, version=version)))), version)
    for part in ("version", "events"):
        less = {k: v for k, v in doc.items() if k != part}
        refused(mon, "an event stream without its " + part, lambda: EventStream.from_bytes(BytesIO(cbor2.dumps(less))))
    for event in rng.sample([[1, "x", []], [1, "x", [], True, 3], 7, None], 2):
        refused(mon, "an event stream with an event of the wrong shape", lambda: EventStream.from_bytes(BytesIO(cbor2.dumps(dict(doc, events=list(doc["events"]) + [event])))), event)
    for value in rng.sample([[1], {"a": 1}, [None]], 2):
        refused(mon, "an event stream with an argument which is not an SQL value", lambda: EventStream.from_bytes(BytesIO(cbor2.dumps(dict(doc, events=list(doc["events"]) + [[1, "x", [value], True]])))), value)
    for value in (object(), [1], {}, (1,)):
        refused(mon, "a change with an argument which is not an SQL value", lambda: Change(1, "x", (value,), True))
    for blob in (b"", b"\xff", b"\x80", b"nonsense", cbor2.dumps([1, 2]), cbor2.dumps("x")):
        refused(mon, "nonsense as an event stream", lambda: EventStream.from_bytes(BytesIO(blob)), blob)


def refused(mon, what, f, *detail):
    try:
        got = f()
    except Exception:
        mon.event("refused")
    else:
        mon.violate(what + " is read", got, *detail)
    mon.events["oracle-evaluations"] += 1


def snapshots(rng, mon):
    statements = [a_text(rng) for _ in range(rng.choice([0, 1, 2, 23, 24, 60]))]
    data = statements_to_snapshot(iter(statements))
    read = lambda blob: list(statements_from_snapshot(lambda: BytesIO(blob)))
    mon.equal(read(data), statements, "the statements of a snapshot read back")
    mon.event("snapshot")
    mon.sig("snapshot", len(statements))
    cuts = range(len(data)) if len(data) < 60 else sorted({0, 1, len(data) - 1} | {rng.randrange(len(data)) for _ in range(30)})
    for cut in cuts:
        refused(mon, "a snapshot cut short", lambda: read(data[:cut]), cut, len(data))
    doc = cbor2.loads(data)
    for version in rng.sample([0, 2, None, "1", -1], 2):
        refused(mon, "a snapshot of another version", lambda: read(cbor2.dumps(dict(doc, version=version))), version)
    for part in ("version", "statements"):
        less = {k: v for k, v in doc.items() if k != part}
        refused(mon, "a snapshot without its " + part, lambda: read(cbor2.dumps(less)))
    for statement in (7, None, b"SELECT 1", ["SELECT 1"]):
        refused(mon, "a snapshot with a statement which is not text", lambda: read(cbor2.dumps(dict(doc, statements=statements + [statement]))), statement)
    for what in ("SELECT 1", {"a": 1}, None, 3):
        refused(mon, "a snapshot whose statements are not a list", lambda: read(cbor2.dumps(dict(doc, statements=what))), what)
    for blob in (b"", b"\xff", b"\x80", b"nonsense", cbor2.dumps([1, 2]), cbor2.dumps("x")):
        refused(mon, "nonsense as a snapshot", lambda: read(blob), blob)


# The effect of recorded statements

TABLES = {
    "free": "CREATE TABLE [free] ([id] INTEGER PRIMARY KEY, [a], [b])",
    "odd name-1": "CREATE TABLE [odd name-1] ([key] TEXT, [num-ber] INTEGER, [blob] BLOB, [real] REAL, [time] TIMESTAMP)",
}


def plain(v):
    """May this value be part of a snapshot?"""
    if isinstance(v, float):
        return False
    return not (isinstance(v, str) and "\0" in v)


def everything(conn):
    out = {}
    for (name,) in conn.execute("SELECT [name] FROM [sqlite_master] WHERE [type] = 'table' AND [name] NOT LIKE 'sqlite_%' AND [name] <> 'event-stream'").fetchall():
        cols = [c[1] for c in conn.execute("PRAGMA table_info([%s])" % (name,)).fetchall()]
        what = ", ".join("quote([%s]), typeof([%s]), hex([%s])" % (c, c, c) for c in cols)
        out[name] = sorted(conn.execute("SELECT %s FROM [%s]" % (what, name)).fetchall(), key=repr)
    return out


def effect(rng, mon):
    d = scratch_dir()
    if d:
        raw = cli.connect(os.path.join(d, "one"))
        rep = with_replication(raw, True)
        model.VoucherStore.from_connection(1, lambda: cli.EPOCH, rep)
        for ddl in TABLES.values():
            raw.execute(ddl)
        raw.commit()

        def statement(cursor, filt):
            def value():
                while True:
                    v = a_value(rng)
                    if filt(v):
                        return v

            k = rng.random()
            if k < 0.45:
                cursor.execute("INSERT INTO [free] ([a], [b]) VALUES (?, ?)", (value(), value()))
            elif k < 0.6:
                rows = [(value(), value()) for _ in range(rng.randrange(4))]
                cursor.executemany("INSERT INTO [free] ([a], [b]) VALUES (?, ?)", rows if rng.random() < 0.5 else (r for r in rows))
            elif k < 0.75:
                cursor.execute(
                    "INSERT INTO [odd name-1] ([key], [num-ber], [blob], [real], [time]) VALUES (?, ?, ?, ?, ?)",
                    (a_text(rng), an_int(rng), a_blob(rng), value(), a_time(rng)),
                )
            elif k < 0.85:
                cursor.execute("UPDATE [free] SET [a] = ?, [b] = 'it''s ?' WHERE [id] % 2 = ?", (value(), rng.randrange(2)))
            elif k < 0.9:
                cursor.execute("UPDATE [odd name-1] SET [blob] = ? WHERE [num-ber] > ?", (a_blob(rng), an_int(rng)))
            elif k < 0.95:
                cursor.execute("DELETE FROM [free] WHERE [id] = ?", (rng.randrange(8),))
            else:
                cursor.execute("INSERT INTO [free] ([a]) VALUES (?)", (value(),))
            mon.event("statement")

        def transaction(filt):
            with rep:
                cursor = rep.cursor()
                try:
                    for _ in range(rng.randrange(1, 5)):
                        if rng.random() < 0.5:
                            with cursor.important():
                                statement(cursor, filt)
                        else:
                            statement(cursor, filt)
                finally:
                    cursor.close()

        try:
            for _ in range(rng.randrange(3)):
                transaction(plain)
            # No floats in snapshots, also not as what a REAL column makes of an integer.
            raw.execute("UPDATE [odd name-1] SET [real] = NULL WHERE typeof([real]) = 'real'")
            raw.execute("UPDATE [free] SET [a] = 0 WHERE typeof([a]) = 'real'")
            raw.commit()
            image = snapshot(rep)
            mark = max([c.sequence for c in get_events(rep).changes], default=0)
            for _ in range(rng.randrange(1, 5)):
                transaction(lambda v: True)
            events = list(get_events(rep).changes)
            mon.equal(sorted(c.sequence for c in events), [c.sequence for c in events], "the sequence of the recorded changes")
            # Cut into streams, possibly covering what the snapshot has.
            events = [c for c in events if c.sequence > (mark if rng.random() < 0.5 else 0)]
            cuts = sorted(rng.randrange(len(events) + 1) for _ in range(rng.randrange(3)))
            parts = [events[a:b] for a, b in zip([0] + cuts, cuts + [len(events)])]
            encoded = [EventStream(changes=p).to_bytes().read() for p in parts]
            rng.shuffle(encoded)
            other = cli.connect(os.path.join(d, "two"))
            try:
                recoverer = StatefulRecoverer()
                cursor = other.cursor()
                cursor.execute("BEGIN IMMEDIATE")
                cli.run_async(recoverer.recover(make_canned_downloader(image, encoded), cursor), "recovery")
                mon.equal((recoverer.state().stage, recoverer.state().failure_reason), (RecoveryStages.succeeded, None), "the outcome of recovering what was recorded")
                other.commit()
                got, want = everything(other), everything(raw)
                for name in want:
                    mon.equal(got.get(name), want[name], "the table %s after replaying what was recorded" % (name,))
                mon.event("replayed")
                mon.sig("effect", len(parts), len(events), sorted({type(a).__name__ for c in events for a in c.arguments}))
            finally:
                other.close()
        finally:
            raw.close()


# Passes and tokens


def passes(rng, mon):
    def b64(n):
        return b64encode(bytes(rng.randrange(256) for _ in range(n)))

    p = Pass(b64(64), b64(64))
    text = p.pass_bytes
    mon.equal(text, p.preimage + b" " + p.signature, "the text of a pass")
    back = Pass.from_bytes(text)
    mon.equal((back, back.preimage, back.signature), (p, p.preimage, p.signature), "a pass read back from its text")
    mon.event("pass")
    s = text.decode("ascii")
    bads = [
        s[: rng.randrange(len(s))],
        s + "A",
        s + " " + s[:88],
        s.replace(" ", ""),
        s.replace(" ", "  "),
        s.replace(" ", "\n"),
        "*" + s[1:],
        s[:89] + "\u00e9".encode("utf-8").decode("latin-1") + s[91:],
        "",
        " ",
    ]
    for bad in bads:
        refused(mon, "something which is not a pass", lambda: Pass.from_bytes(bad.encode("latin-1")), bad)
    for cls, field, n in ((model.RandomToken, "token_value", 96), (model.UnblindedToken, "unblinded_token", 96)):
        good = b64(n)
        mon.equal(getattr(cls(good), field), good, "the text of a token")
        for bad in (good[:-4], good + b"AAAA", b"*" + good[1:], b"", good.decode("ascii")):
            refused(mon, "something which is not a token", lambda: cls(bad), bad)
    mon.sig("pass")


SCENARIOS = [
    Scenario("vouchers", vouchers, quick=400, thorough=8000, needs=["voucher-" + s for s in STATES] + ["voucher-refused"]),
    Scenario("stored", stored, quick=80, thorough=1500, needs=["stored-pending", "stored-partial", "stored-redeemed", "stored-double-spend", "stored-twice"]),
    Scenario("streams", streams, quick=120, thorough=2500, needs=["stream", "refused"]),
    Scenario("snapshots", snapshots, quick=80, thorough=1500, needs=["snapshot", "refused"]),
    Scenario("effect", effect, quick=120, thorough=2500, needs=["statement", "replayed"]),
    Scenario("passes", passes, quick=60, thorough=1000, needs=["pass", "refused"]),
]
