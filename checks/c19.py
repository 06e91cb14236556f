"""Every client database operation takes effect completely or not at all."""

import os
import pickle
import shutil
import signal
import sqlite3
import struct
import time
from datetime import timedelta

from twisted.internet.defer import Deferred

from _zkapauthorizer.model import DoubleSpend, NotEmpty, NotEnoughTokens, Pending, Redeemed, VoucherStore
from _zkapauthorizer.replicate import with_replication
from vz import cli, node
from vz.core import Scenario, scratch_dir

PROPERTY = "C19"
LEVEL = "fault_enumeration"
RULE = (
    "Histories of operations on the real store, compared after each with a reference model. In the first scenario every statement of every operation "
    "fails in turn - before it, half-way through it, after it - as do the beginning and the commit, injected or because another program holds a lock on "
    "the file; after each failure the state read by another program and the tokens the process may take have to be what they were. Before every "
    "statement and the commit of the final, successful try and after it the files are copied as a crash would leave them and the copies opened. In the "
    "second scenario a process as the plugin sets it up is killed at a random moment and the file compared with its log. Distinct by operation, "
    "its outcome and the fault."
)
ASSUMPTIONS = ["the machine's disk keeps what was synchronised; a kill of the process loses nothing the operating system has been given"]


class Cursor(sqlite3.Cursor):
    def execute(self, sql, *a):
        self.connection.vz_before(sql)
        r = super().execute(sql, *a)
        self.connection.vz_after(sql)
        return r

    def executemany(self, sql, rows):
        rows = list(rows)
        self.connection.vz_before(sql)
        if self.connection.vz_half and len(rows) > 1:
            super().executemany(sql, rows[: len(rows) // 2])
            self.connection.vz_fail("half-way through")
        r = super().executemany(sql, rows)
        self.connection.vz_after(sql)
        return r


class Connection(sqlite3.Connection):
    vz_plan = None  # (number of the statement, where)
    vz_n = 0
    vz_half = False
    vz_hits = 0
    vz_look = None
    vz_statements = ()

    def vz_fail(self, what):
        self.vz_plan, self.vz_half = None, False
        self.vz_hits += 1
        raise sqlite3.OperationalError("injected: disk I/O error " + what)

    def vz_before(self, sql):
        if self.vz_look is not None:
            self.vz_look(sql)
        self.vz_half = False
        if self.vz_plan is not None and self.vz_n == self.vz_plan[0]:
            if self.vz_plan[1] == "before":
                self.vz_fail("before")
            if self.vz_plan[1] == "half":
                self.vz_half = True

    def vz_after(self, sql):
        self.vz_n += 1
        self.vz_half = False
        if self.vz_plan is not None and self.vz_n - 1 == self.vz_plan[0] and self.vz_plan[1] == "after":
            self.vz_fail("after")

    def cursor(self, factory=Cursor):
        return super().cursor(factory)

    def commit(self):
        if self.in_transaction:
            self.vz_before("COMMIT")
        super().commit()


class Model:
    """What the store holds."""

    def __init__(self):
        self.vouchers = {}  # number -> [created, expected, state, counter, finished, count, sequestered]
        self.random = {}  # (number, counter) -> set of texts
        self.tokens = {}  # token -> (number, public key, spendable)
        self.groups = []
        self.invalid = {}
        self.in_use = set()
        self.runs = []  # [started, count, finished]

    def copy(self):
        return pickle.loads(pickle.dumps(self))

    def takeable(self):
        return {t for t, (_, _, ok) in self.tokens.items() if ok} - self.in_use

    def rows(self):
        return {
            "vouchers": sorted((n, c, e, s, k, f, t, q) for n, (c, e, s, k, f, t, q) in self.vouchers.items()),
            "tokens": sorted((n, c, t) for (n, c), ts in self.random.items() for t in ts),
            "unblinded-tokens": sorted((t, n, p, int(s)) for t, (n, p, s) in self.tokens.items()),
            "groups": sorted((n, p, int(s)) for n, p, s in self.groups),
            "invalid": sorted(self.invalid.items()),
            "runs": sorted(map(tuple, self.runs), key=repr),
        }


def read(path, recover=False):
    """What another program reads from the file."""
    conn = sqlite3.connect(path) if recover else sqlite3.connect("file:%s?mode=ro" % (path,), uri=True)
    try:
        conn.execute("BEGIN")
        q = lambda sql: conn.execute(sql).fetchall()
        return {
            "vouchers": sorted(q("SELECT [number], [created], [expected-tokens], [state], [counter], [finished], [token-count], [sequestered-count] FROM [vouchers]")),
            "tokens": sorted(q("SELECT [voucher], [counter], [text] FROM [tokens]")),
            "unblinded-tokens": sorted(q("SELECT T.[token], G.[voucher], G.[public-key], G.[spendable] FROM [unblinded-tokens] AS T LEFT JOIN [redemption-groups] AS G ON T.[redemption-group] = G.[rowid]")),
            "groups": sorted(q("SELECT [voucher], [public-key], [spendable] FROM [redemption-groups]")),
            "invalid": sorted(q("SELECT [token], [reason] FROM [invalid-unblinded-tokens]")),
            "runs": sorted(q("SELECT [started], [count], [finished] FROM [lease-maintenance-spending]"), key=repr),
        }
    finally:
        conn.close()


def delta(a, b):
    return {k: ([x for x in a[k] if x not in b[k]][:2], [x for x in b[k] if x not in a[k]][:2]) for k in a if a[k] != b[k]}


class Session:
    def __init__(self, rng, mon, path, store=None, raw=None):
        self.rng, self.mon, self.path = rng, mon, path
        self.t = cli.EPOCH
        self.model = Model()
        self.run = None
        self.taken = []
        if store is None:
            self.raw = sqlite3.connect(path, isolation_level="IMMEDIATE", factory=Connection, timeout=0)
            self.raw.execute("PRAGMA synchronous = OFF")
            self.replicating = rng.random() < 0.3
            self.rep = with_replication(self.raw, self.replicating)
            store = VoucherStore.from_connection(10, lambda: self.t, self.rep)
        else:
            self.raw = raw
        self.store = store

    def stamp(self):
        return self.t.isoformat(" ")

    # Each operation: (name, call, apply(model), expected exception or None)

    def choose(self):
        rng, m, s = self.rng, self.model, self.store
        kind = rng.choice(["add", "add", "add", "again", "grant", "grant", "grant", "refuse", "take", "take", "back", "spend", "spend", "bad", "bad", "maintain", "observe", "finish", "wrong", "if-empty"])
        now = self.stamp()
        if kind == "add" or not m.vouchers:
            if m.vouchers and rng.random() < 0.4:
                number = rng.choice(sorted(m.vouchers))
            else:
                number = cli.voucher_number(rng).decode()
            counter = rng.choice([0, 0, 1, 15]) if number not in m.vouchers else rng.randrange(17)
            expected = rng.choice([1, 16, 100])
            tokens = [cli.fake_random_token(rng) for _ in range(rng.choice([1, 4, 30]))]
            if m.random.get((number, counter)):
                def call():
                    got = s.add(number.encode(), expected, counter, lambda: tokens)
                    self.mon.equal({t.token_value.decode() for t in got}, m.random[number, counter], "adding what is there gives other tokens")

                return "add-existing", call, lambda m: None, None
            if rng.random() < 0.1:
                def cannot():
                    raise ZeroDivisionError("no tokens")

                return "add-without-tokens", lambda: s.add(number.encode(), expected, counter, cannot), lambda m: None, ZeroDivisionError

            def apply(m):
                if number not in m.vouchers:
                    m.vouchers[number] = [now, expected, "pending", 0, None, None, 0]
                m.random[number, counter] = {t.token_value.decode() for t in tokens}

            return "add", lambda: s.add(number.encode(), expected, counter, lambda: tokens), apply, None
        if kind == "again" and m.random:
            # Tokens which some other voucher has: a conflict half-way.
            taken = sorted(sorted(m.random.values(), key=sorted)[0])[0]
            number = cli.voucher_number(rng).decode()
            tokens = [cli.fake_random_token(rng) for _ in range(3)]
            from _zkapauthorizer.model import RandomToken

            tokens.insert(rng.randrange(4), RandomToken(taken.encode()))
            return "add-conflict", lambda: s.add(number.encode(), 1, 0, lambda: tokens), lambda m: None, sqlite3.IntegrityError
        pending = [n for n, v in sorted(m.vouchers.items()) if v[2] == "pending"]
        if kind == "grant" and pending:
            number = rng.choice(pending)
            tokens = [cli.fake_unblinded_token(rng) for _ in range(rng.choice([0, 1, 5, 40]))]
            ok, completed, key = rng.random() < 0.75, rng.random() < 0.15, "key%d" % rng.randrange(3)
            texts = [t.unblinded_token.decode() for t in tokens]
            if rng.random() < 0.1 and m.tokens and tokens:
                from _zkapauthorizer.model import UnblindedToken

                tokens.insert(rng.randrange(len(tokens) + 1), UnblindedToken(rng.choice(sorted(m.tokens)).encode()))
                return "grant-conflict", lambda: s.insert_unblinded_tokens_for_voucher(number.encode(), key, tokens, completed, ok), lambda m: None, sqlite3.IntegrityError

            def apply(m):
                v = m.vouchers[number]
                m.random.pop((number, v[3]), None)
                v[2] = "redeemed" if completed else "pending"
                v[3] += 1
                v[4] = now
                v[5] = (v[5] or 0) + (len(texts) if ok else 0)
                v[6] += 0 if ok else len(texts)
                m.groups.append((number, key, ok))
                for t in texts:
                    m.tokens[t] = (number, key, ok)

            return "grant", lambda: s.insert_unblinded_tokens_for_voucher(number.encode(), key, tokens, completed, ok), apply, None
        if kind == "refuse":
            number = rng.choice(sorted(m.vouchers)) if rng.random() < 0.8 else cli.voucher_number(rng).decode()

            def apply(m):
                m.vouchers[number][2] = "double-spend"
                m.vouchers[number][4] = now

            if number in pending:
                return "refuse", lambda: s.mark_voucher_double_spent(number.encode()), apply, None
            return "refuse-" + ("unknown" if number not in m.vouchers else m.vouchers[number][2]), lambda: s.mark_voucher_double_spent(number.encode()), lambda m: None, ValueError
        if kind == "take":
            n = len(m.takeable())
            count = rng.choice([0, 1, n, n // 2, n // 2, n // 3, n // 4]) if rng.random() < 0.75 else rng.choice([n + 1, n + 1, 2 ** 31, 2 ** 63 - 1, 2 ** 63, 2 ** 70])
            if count > n:
                return "take-too-many", lambda: s.get_unblinded_tokens(count), lambda m: None, NotEnoughTokens

            def call():
                got = s.get_unblinded_tokens(count)
                texts = {t.unblinded_token.decode() for t in got}
                self.mon.check(len(got) == count and len(texts) == count and texts <= m.takeable(), "other tokens are taken than those available")
                self.last = got
                return got

            def apply(m):
                if count:
                    m.in_use |= {t.unblinded_token.decode() for t in self.last}
                    self.taken.append(self.last)

            return "take", call, apply, None
        if kind in ("back", "spend", "bad") and self.taken:
            i = rng.randrange(len(self.taken))
            tokens = list(self.taken[i])
            rng.shuffle(tokens)
            part = tokens[: rng.randrange(len(tokens)) + 1] if rng.random() < 0.4 else tokens
            texts = {t.unblinded_token.decode() for t in part}

            def used():
                rest = [t for t in tokens if t not in part]
                self.taken[i : i + 1] = [rest] if rest else []

            if kind == "back":
                def apply(m):
                    used()
                    m.in_use -= texts

                return "return", lambda: s.reset_unblinded_tokens(part), apply, None
            if kind == "spend":
                def apply(m):
                    used()
                    m.in_use -= texts
                    for t in texts:
                        del m.tokens[t]

                return "spend", lambda: s.discard_unblinded_tokens(part), apply, None
            reason = rng.choice(["", "bad", "it's ☃"])
            if m.invalid and rng.random() < 0.4:
                from _zkapauthorizer.model import UnblindedToken

                twice = part + [UnblindedToken(rng.choice(sorted(m.invalid)).encode())]
                return "invalidate-twice", lambda: s.invalidate_unblinded_tokens(reason, twice), lambda m: None, sqlite3.IntegrityError

            def apply(m):
                used()
                m.in_use -= texts
                for t in texts:
                    del m.tokens[t]
                    m.invalid[t] = reason

            return "invalidate", lambda: s.invalidate_unblinded_tokens(reason, part), apply, None
        if kind == "maintain":
            def call():
                self.new_run = s.start_lease_maintenance()

            def apply(m):
                self.run = self.new_run
                m.runs.append([now, 0, None])
                self.run_index = len(m.runs) - 1

            return "maintenance-start", call, apply, None
        if kind == "observe" and self.run:
            sizes = [rng.choice([0, 1, 10, 11, 10 ** 6]) for _ in range(rng.randrange(4))]

            def apply(m):
                m.runs[self.run_index][1] += sum(-(-x // 10) for x in sizes)

            return "maintenance-observe", lambda: self.run.observe(sizes), apply, None
        if kind == "finish" and self.run:
            def apply(m):
                m.runs[self.run_index][2] = now
                self.run = None

            return "maintenance-finish", lambda: self.run.finish(), apply, None
        if kind == "wrong":
            number = cli.voucher_number(rng)
            which = rng.choice(["get", "grant"])
            if which == "get":
                return "get-unknown", lambda: s.get(number), lambda m: None, KeyError
            return "grant-unknown", lambda: s.insert_unblinded_tokens_for_voucher(number, "key", [cli.fake_unblinded_token(rng)], True, True), lambda m: None, ValueError
        if kind == "if-empty":
            async def f(cursor):
                cursor.execute("DELETE FROM [vouchers]", ())

            def call():
                cli.now_result(Deferred.fromCoroutine(s.call_if_empty(f)))

            return "if-empty", call, lambda m: None, NotEmpty
        return None

    def judge(self, what, expected, model=None):
        got = read(self.path)
        if got != expected:
            self.mon.violate(what, delta(got, expected))
        m = model or self.model
        self.mon.equal(self.raw.in_transaction, False, what + " - and a transaction stays open")
        self.mon.equal(cli.available(self.store), m.takeable(), what + " - other tokens can be taken")
        self.mon.event("states-compared")

    def views(self):
        """The store's own answers."""
        m = self.model
        listed = self.store.list()
        self.mon.equal({v.number.decode() for v in listed}, set(m.vouchers), "other vouchers are listed")
        for v in listed:
            c, e, state, k, f, t, q = m.vouchers[v.number.decode()]
            expected = {"pending": lambda: Pending(counter=k), "redeemed": lambda: Redeemed(_when(f), t), "double-spend": lambda: DoubleSpend(_when(f))}[state]()
            self.mon.equal((v.created, v.expected_tokens, v.state), (_when(c), e, expected), "a voucher reads otherwise")
        done = [r for r in m.runs if r[2] is not None]
        a = self.store.get_latest_lease_maintenance_activity()
        if done:
            top = max(r[2] for r in done)
            self.mon.check((a.started, a.passes_required, a.finished) in [(_when(r[0]), r[1], _when(r[2])) for r in done if r[2] == top], "the latest maintenance run is another")
        else:
            self.mon.equal(a, None, "there is a latest maintenance run")


def _when(text):
    from datetime import datetime

    return datetime.fromisoformat(text)


def copy_files(path, to):
    os.mkdir(to)
    for suffix in ("", "-journal", "-wal"):
        if os.path.exists(path + suffix):
            shutil.copy(path + suffix, to + "/db" + suffix)
    return to + "/db"


def faults(rng, mon):
    d = scratch_dir()
    s = Session(rng, mon, d + "/db.sqlite3")
    deep = os.environ.get("VERIF_TIER") == "thorough"
    copies = 0
    for _ in range(rng.choice([0, 30, 80, 150])):
        op = s.choose()
        s.t += timedelta(seconds=1)
        if op is not None and op[3] is None:
            s.t -= timedelta(seconds=1)
            op[1]()
            op[2](s.model)
            s.t += timedelta(seconds=1)
    s.judge("operations have another effect", s.model.rows())
    for step in range(rng.choice([6, 12, 40])):
        s.t += timedelta(seconds=rng.choice([0.5, 1, 60]))
        op = s.choose()
        if op is None:
            continue
        name, call, apply, error = op
        before = s.model.rows()
        # How many statements are there?
        faulty = rng.random() < (0.5 if deep else 0.35)
        if faulty:
            k = 0
            while True:
                done = False
                for where in ("before", "half", "after"):
                    s.raw.vz_n, s.raw.vz_hits = 0, 0
                    s.raw.vz_plan = (k, where)
                    try:
                        call()
                    except sqlite3.OperationalError as e:
                        mon.check("injected" in str(e), "a failing statement raises another error", name, e)
                    except Exception as e:
                        mon.check(error is not None and isinstance(e, error) and not s.raw.vz_hits, "a failing statement raises another error", name, k, where, repr(e))
                        done = True
                    else:
                        mon.check(not s.raw.vz_hits, "an operation one of whose statements fails reports success", name, k, where)
                        done = True
                    finally:
                        s.raw.vz_plan = None
                    if not s.raw.vz_hits:
                        done = where != "half"
                        if error is None and not s.raw.vz_hits:
                            # It has taken effect.
                            break
                        continue
                    mon.event("statement-faults-" + where)
                    mon.sig(name, k, where)
                    s.judge("an operation which failed has had an effect (%s, statement %d, %s)" % (name, k, where), before)
                if not s.raw.vz_hits and error is None:
                    break
                if done:
                    break
                k += 1
            if error is None:
                apply(s.model)
                s.judge("an operation which succeeded has another effect (%s)" % name, s.model.rows())
                mon.event("op-" + name)
                mon.event("after-faults")
                continue
        if rng.random() < 0.3:
            # Another program holds a lock.
            how = rng.choice(["reads", "writes"])
            other = sqlite3.connect(s.path, isolation_level=None, timeout=0)
            try:
                if how == "reads":
                    other.execute("BEGIN")
                    other.execute("SELECT COUNT(*) FROM [vouchers]").fetchall()
                else:
                    other.execute("BEGIN IMMEDIATE")
                changes = error is None
                try:
                    call()
                except sqlite3.OperationalError as e:
                    mon.check("locked" in str(e), "a locked database raises another error", name, e)
                    other.rollback()
                    mon.event("locked-by-a-" + {"reads": "reader", "writes": "writer"}[how])
                    s.judge("an operation which failed because of a lock has had an effect (%s)" % name, before)
                    if name in ("maintenance-finish",):
                        # Whether a run object can be used again is not promised.
                        s.run = None
                        continue
                except Exception as e:
                    mon.check(error is not None and isinstance(e, error), "a locked database raises another error", name, repr(e))
                else:
                    # Nothing was to be written, or only in this process.
                    other.rollback()
                    apply(s.model)
                    s.judge("an operation which succeeded beside another program has another effect (%s)" % name, s.model.rows())
                    mon.event("op-" + name)
                    continue
            finally:
                other.close()
        crashes = []

        def look(sql):
            nonlocal copies
            if copies < 60:
                copies += 1
                crashes.append((sql.strip().split("\n")[0][:50], copy_files(s.path, d + "/crash%d" % copies)))

        s.raw.vz_look = look
        try:
            call()
        except Exception as e:
            s.raw.vz_look = None
            mon.check(error is not None and isinstance(e, error), "another error than the documented one", name, repr(e), error)
            s.judge("an operation which cannot be done has had an effect (%s)" % name, before)
            mon.event("refused-" + name)
        else:
            s.raw.vz_look = None
            mon.check(error is None, "an operation which cannot be done is reported as done", name)
            apply(s.model)
            mon.event("op-" + name)
        after = s.model.rows()
        look_after = copy_files(s.path, d + "/after%d" % step)
        s.judge("an operation has another effect (%s)" % name, after)
        for sql, p in crashes:
            got = read(p, recover=True)
            mon.check(got == before, "a crash in an operation leaves a part of its effect", name, sql, delta(got, before))
            mon.event("crashes")
        got = read(look_after, recover=True)
        mon.check(got == after, "a crash after an operation loses its effect", name, delta(got, after))
        mon.sig(name, len(crashes))
        mon.note(name, error, {k: len(v) for k, v in after.items()})
        for p in {os.path.dirname(x) for _, x in crashes} | {os.path.dirname(look_after)}:
            shutil.rmtree(p)
        if rng.random() < 0.3:
            s.views()
    s.views()
    s.raw.close()


class Production(node.Node):
    """Connections are as the plugin makes them."""

    def connect(self, path, isolation_level=None):
        self.raw = sqlite3.connect(path, isolation_level=isolation_level, factory=Connection)
        return self.raw


def send(fd, what):
    data = pickle.dumps(what)
    os.write(fd, struct.pack(">I", len(data)) + data)


def receive(f):
    head = f.read(4)
    if len(head) < 4:
        return None
    (n,) = struct.unpack(">I", head)
    data = f.read(n)
    return pickle.loads(data) if len(data) == n else None


def killed(rng, mon):
    d = scratch_dir()
    basedir = d + "/node"
    r, w = os.pipe()
    n_ops = rng.randrange(1, 60)
    pause = rng.choice([0, 0, 0.0003, 0.001, 0.003]) * rng.random()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            n = Production(node.Grid(), {"pass-value": "10"}, basedir=basedir)
            pragmas = {p: n.raw.execute("PRAGMA " + p).fetchall()[0][0] for p in ("synchronous", "journal_mode", "foreign_keys")}
            send(w, pragmas)
            s = Session(rng, mon, n.path, n.store, n.raw)
            i = 0
            for _ in range(400):
                op = s.choose()
                if op is None:
                    continue
                name, call, apply, error = op
                # Times are the system's; they are not compared here.
                m = s.model.copy()
                if name not in ("take",):
                    apply_to(s, m, apply)
                send(w, ("begin", name, timeless(s.model.rows()), timeless(m.rows())))
                try:
                    call()
                    ok = error is None
                except Exception as e:
                    ok = error is not None and isinstance(e, error)
                if not ok:
                    send(w, ("wrong", name))
                    break
                if error is None:
                    apply(s.model)
                send(w, ("end", name, timeless(s.model.rows())))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        pragmas = receive(f)
        mon.check(pragmas is not None, "no database of a client is opened")
        last = None
        for _ in range(n_ops):
            m = receive(f)
            if m is None:
                break
            last = m
        if pause:
            time.sleep(pause)
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        while True:
            m = receive(f)
            if m is None:
                break
            last = m
    mon.check(pragmas["synchronous"] >= 2, "what was reported as done may be lost when the machine fails: the disk is not synchronised", pragmas)
    mon.check(pragmas["journal_mode"] in ("delete", "persist", "truncate", "wal"), "a crash may damage the database: there is no journal", pragmas)
    if last is None:
        return
    mon.check(last[0] != "wrong", "an operation fails", last)
    allowed = list(last[2:])
    got = timeless(read(basedir + "/private/privatestorageio-zkapauthz-v1.sqlite3", recover=True))
    mon.check(got in allowed, "a killed process leaves something else than the effect of whole operations", last[:2], [delta(got, a) for a in allowed])
    mon.event("killed-during-an-operation" if last[0] == "begin" else "killed-between-operations")
    mon.event("killed")
    mon.sig(last[:2], n_ops)


def apply_to(s, m, apply):
    """The effect of an operation on a copy of the model only."""
    taken, run, idx = list(s.taken), s.run, getattr(s, "run_index", None)
    apply_run = getattr(s, "new_run", None)
    s.new_run = None
    try:
        apply(m)
    finally:
        s.taken, s.run, s.run_index, s.new_run = taken, run, idx, apply_run


def timeless(rows):
    rows = dict(rows)
    rows["vouchers"] = [(n, e, st, k, f is None, t, q) for n, c, e, st, k, f, t, q in rows["vouchers"]]
    rows["runs"] = sorted((c, f is None) for s, c, f in rows["runs"])
    return rows


OPS = ["add", "add-existing", "grant", "refuse", "take", "return", "spend", "invalidate", "maintenance-start", "maintenance-observe", "maintenance-finish"]
REFUSED = ["add-conflict", "add-without-tokens", "grant-conflict", "refuse-unknown", "refuse-redeemed", "refuse-double-spend", "take-too-many", "get-unknown", "grant-unknown", "if-empty", "invalidate-twice"]

SCENARIOS = [
    Scenario("faults", faults, quick=150, thorough=5000, needs=["op-" + o for o in OPS] + ["refused-" + o for o in REFUSED] + ["statement-faults-before", "statement-faults-half", "statement-faults-after", "locked-by-a-reader", "locked-by-a-writer", "crashes", "after-faults"]),
    Scenario("killed", killed, quick=60, thorough=2500, needs=["killed", "killed-during-an-operation"]),
]
