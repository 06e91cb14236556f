"""
Redemption under observation: the real payment controller over a real store,
with a model issuer that can fail in every way and process restarts.
"""

import json
import os
import sqlite3
from base64 import b64decode, b64encode

import challenge_bypass_ristretto as cbr
from twisted.internet.defer import Deferred
from twisted.internet.task import Clock

from _zkapauthorizer.controller import AlreadySpent, PaymentController, RedemptionResult, Unpaid
from _zkapauthorizer.model import RandomToken, UnblindedToken, VoucherStore
from _zkapauthorizer.replicate import with_replication

from . import cli, issuer
from .core import scratch_dir

# A generous bound for "a bounded number of retry intervals": the interval is
# documented to be one second.
PATIENCE = 10


class FaultyCursor(sqlite3.Cursor):
    def execute(self, sql, *a):
        self.connection.vz_read(sql, a)
        self.connection.vz_statement(sql)
        r = super().execute(sql, *a)
        if self.connection.vz_trace is not None:
            self.connection.vz_trace(sql, [tuple(a[0]) if a else ()])
        return r

    def executemany(self, sql, rows):
        self.connection.vz_statement(sql)
        rows = list(rows)
        r = super().executemany(sql, rows)
        if self.connection.vz_trace is not None:
            self.connection.vz_trace(sql, [tuple(row) for row in rows])
        return r


class FaultyConnection(sqlite3.Connection):
    """A database connection whose disk can fill up."""

    vz_plan = None
    vz_hits = 0
    vz_on_statement = None
    vz_trace = None
    vz_bad_read = None
    vz_reads_failed = 0

    def vz_read(self, sql, a):
        if self.vz_bad_read is not None and sql.lstrip().upper().startswith("SELECT") and self.vz_bad_read(sql, a[0] if a else ()):
            self.vz_hits += 1
            self.vz_reads_failed += 1
            raise sqlite3.OperationalError("disk I/O error")

    def vz_statement(self, sql):
        if self.vz_on_statement is not None:
            self.vz_on_statement(sql)
        if self.vz_plan is not None and not sql.lstrip().upper().startswith(("SELECT", "PRAGMA", "BEGIN")):
            self.vz_plan -= 1
            if self.vz_plan < 0:
                self.vz_plan = None
                self.vz_hits += 1
                raise sqlite3.OperationalError("database or disk is full")

    def cursor(self, factory=FaultyCursor):
        return super().cursor(factory)

    def commit(self):
        if self.vz_on_statement is not None and self.in_transaction:
            self.vz_on_statement("COMMIT")
        r = super().commit()
        if self.vz_trace is not None:
            self.vz_trace("COMMIT", None)
        return r

    def rollback(self):
        r = super().rollback()
        if self.vz_trace is not None:
            self.vz_trace("ROLLBACK", None)
        return r


def faulty_connect(path):
    conn = sqlite3.connect(path, isolation_level="IMMEDIATE", factory=FaultyConnection)
    conn.execute("PRAGMA synchronous = OFF")
    return conn


def signed(token, voucher, counter):
    """The model issuer's answer for one random token (a text)."""
    raw = b64decode(token)
    return b64encode(bytes(b ^ 0x5A for b in raw)).decode("ascii")


def refusal(voucher, counter, reply):
    """What the redeemer for the real protocol makes of a reply that grants nothing."""
    out = cli.Outcome(Deferred.fromCoroutine(issuer.redeemer(issuer.Issuer(lambda asked: reply)).redeemWithCounter(voucher, counter, REAL[: 1 + counter % 3])))
    assert out.done and out.failure is not None, (out.done, out.result)
    return out.failure


REAL = [RandomToken(cbr.RandomToken.create().encode_base64()) for _ in range(3)]


def _reply(rng, how, details):
    """(reply, what its report must mention)"""
    code = rng.choice([200, 400])
    if how != "error":
        reply = {"success": False, "reason": {"spent": "double-spend", "unpaid": "unpaid"}[how]}
        if rng.random() < 0.3:
            reply["more"] = details
        return (code, json.dumps(reply).encode()), None
    return rng.choice(
        [
            ((500, details.encode()), details),
            ((200, b""), ""),
            ((code, json.dumps({"success": False, "reason": details}).encode()), details),
            ((code, json.dumps({"success": False, "details": details}).encode()), details),
            ((code, json.dumps({"success": False, "reason": rng.choice(["Unpaid", "double-spent", "unpaid ", "", None, 3, "DoubleSpend", ["unpaid"]])}).encode()), ""),
            ((200, json.dumps({"success": True}).encode()), ""),
            ((code, json.dumps(rng.choice([[], ["unpaid"], "unpaid", 1, None])).encode()), ""),
        ]
    )


class Attempt:
    def __init__(self, number, counter, tokens, started, voucher=None):
        self.number, self.counter, self.tokens, self.started, self.voucher = number, counter, tokens, started, voucher
        self.d = Deferred()
        self.over = False


class V:
    """The model of one voucher."""

    def __init__(self, number, expected, stolen):
        self.number, self.expected, self.stolen = number, expected, stolen
        self.created = None
        self.asked = {}  # counter -> tokens of the first request
        self.granted = {}  # counter -> tokens
        self.stored = 0  # parts the client holds
        self.attempt = None
        self.last = None  # ("unpaid", t) | ("error", t, details)
        self.refused = None  # time of an already-spent answer which the client took in
        self.finished = None
        self.idle = 0.0
        self.attempts = 0
        self.unsure = False


class Redeemer:
    """What one process's controller redeems with."""

    def __init__(self, world):
        self.world = world
        self.live = True

    def random_tokens_for_voucher(self, voucher, counter, count):
        return [cli.fake_random_token(self.world.rng) for _ in range(count)]

    async def redeemWithCounter(self, voucher, counter, random_tokens):
        return await self.world.request(self, voucher, counter, random_tokens)

    def tokens_to_passes(self, message, tokens):
        raise NotImplementedError()


class World:
    def __init__(self, rng, mon, groups=None, sync=None, faults=True):
        self.rng, self.mon = rng, mon
        self.groups = groups or rng.choice([1, 2, 3, 4, 16])
        self.sync = rng.random() < 0.2 if sync is None else sync
        self.path = os.path.join(scratch_dir(), "db.sqlite3")
        self.default = rng.choice([self.groups, self.groups + 1, self.groups * 3 - 1, 40])
        self.default = max(self.default, self.groups)
        self.over_http = rng.random() < 0.5
        self.vouchers = {}
        self.used = {}  # random token -> (voucher, part)
        self.t = 0.0
        self.kept = []  # keeps abandoned coroutines of dead processes alive
        self.raw = self.controller = self.redeemer = None
        self.db = cli.Reader(self.path)
        self.boot()

    def now(self):
        return cli.EPOCH + cli.timedelta(seconds=self.t + self.clock.seconds())

    # -- the process --

    def boot(self):
        mon = self.mon
        if self.raw is not None:
            self.kept.append((self.controller, self.redeemer))
            self.redeemer.live = False
            self.raw.vz_plan = None
            self.raw.close()
            self.t += self.clock.seconds()
            mon.event("restarts"); mon.note("restart")
            mon.sig("restart", sorted((v.stored, v.attempt is not None) for v in self.vouchers.values()))
        self.clock = Clock()
        for v in self.vouchers.values():
            v.attempt, v.last, v.idle = None, None, 0.0
        self.redeemer = Redeemer(self)
        self.start()
        self.sync_progress()

    def start(self):
        self.raw = faulty_connect(self.path)
        self.store = VoucherStore.from_connection(1, self.now, with_replication(self.raw, False))
        self.controller = PaymentController(
            self.clock, self.store, self.redeemer, self.default, {"allowed-key"}, num_redemption_groups=self.groups
        )

    def submit(self, v=None, count=None):
        rng = self.rng
        if v is None:
            n = cli.voucher_number(rng)
            v = V(n, count or self.default, rng.random() < 0.1)
            v.created = self.now()
            self.vouchers[n] = v
            self.mon.event("submitted"); self.mon.note("submit")
        else:
            self.mon.event("resubmitted")
        hits = self.raw.vz_hits
        out = cli.Outcome(Deferred.fromCoroutine(self.controller.redeem(v.number, count)))
        if not self.db_has(v.number):
            # Refused for a storage failure: not a stored voucher.
            self.mon.check(self.raw.vz_hits > hits, "a submitted voucher is not stored")
            self.mon.check(out.done and out.failure is not None, "storing a voucher failed silently")
            self.mon.event("submissions-failed")
            del self.vouchers[v.number]
        elif out.done and out.failure is not None and self.raw.vz_hits == hits:
            f = out.failure
            f.value._vz_failure = f
            f.raiseException()
        self.sync_progress()
        return v

    def db_has(self, number):
        return bool(self.db.rows("SELECT 1 FROM [vouchers] WHERE [number] = ?", (number.decode("ascii"),)))

    # -- the issuer --

    def request(self, redeemer, voucher, counter, random_tokens):
        mon, rng = self.mon, self.rng
        mon.check(redeemer.live, "a process that ended makes a request")
        v = self.vouchers[voucher.number]
        tokens = [t.token_value.decode("ascii") for t in random_tokens]
        mon.event("requests"); mon.note("request", voucher.number[:6], counter)
        v.attempts += 1
        v.idle = 0.0
        mon.check(v.attempt is None or v.attempt.over, "two attempts run for one voucher at once")
        mon.check(0 <= counter < self.groups, "a part that does not exist is requested", counter)
        mon.check(all(c in v.granted for c in range(counter)), "a part is requested before the parts ahead of it were granted", counter)
        mon.check(len(set(tokens)) == len(tokens), "one request repeats a blinded token")
        mon.check(len(tokens) > 0, "a part is requested without tokens")
        mon.check(
            all(self.used.setdefault(t, (v.number, counter)) == (v.number, counter) for t in tokens),
            "tokens are used for two different parts",
        )
        if counter in v.asked:
            mon.event("repeated-requests")
            mon.check(
                sorted(v.asked[counter]) == sorted(tokens),
                "a part is requested again with different blinded tokens",
                "part", counter, "stored", v.stored,
            )
        else:
            v.asked[counter] = tokens
            mon.equal(
                len(set().union(*[set(x) for x in v.asked.values()])) <= v.expected, True,
                "more tokens are requested than the voucher is worth",
            )
        a = v.attempt = Attempt(voucher.number, counter, tokens, self.now(), voucher)
        # Durable before it is sent?  Otherwise a crash now loses the value.
        saved = [t for (t,) in self.db.rows("SELECT [text] FROM [tokens] WHERE [voucher] = ? AND [counter] = ?", (voucher.number.decode("ascii"), counter))]
        mon.check(sorted(saved) == sorted(tokens), "blinded tokens are sent before they are stored", "part", counter)
        if self.sync:
            self.sync_answer(a)
        return a.d

    def sync_answer(self, a):
        raise NotImplementedError

    def decide(self, a, how):
        """Answer an attempt.  Returns the function that delivers the answer."""
        v = self.vouchers[a.number]
        mon = self.mon
        a.over = True
        v.idle = 0.0
        t = self.now()
        mon.event("answer-" + how)
        mon.note("answer", how, a.counter, a.number[:6])
        mon.sig(how, a.counter, v.attempts)
        if how == "grant" or how == "grant-lost":
            if v.stolen:
                how = "spent"
            else:
                v.granted.setdefault(a.counter, a.tokens)
        if how == "grant":
            toks = [UnblindedToken(signed(x, a.number, a.counter).encode("ascii")) for x in a.tokens]
            return lambda: a.d.callback(RedemptionResult(toks, "allowed-key"))
        if self.over_http:
            mon.event("refusals-over-http")
            details = "trouble-%d" % self.rng.randrange(10**9)
            how = how if how in ("spent", "unpaid") else "error"
            reply, details = _reply(self.rng, how, details)
            mon.note("reply", reply)
            if how == "spent":
                v.refused = t
            else:
                v.last = (how, t, details)
            return lambda: a.d.errback(refusal(a.voucher, a.counter, reply))
        if how == "spent":
            v.refused = t
            return lambda: a.d.errback(AlreadySpent(a.number))
        if how == "unpaid":
            v.last = ("unpaid", t)
            return lambda: a.d.errback(Unpaid(a.number))
        details = "trouble-%d" % self.rng.randrange(10**9)
        v.last = ("error", t, details)
        return lambda: a.d.errback(self.rng.choice([Exception, ValueError, KeyError, IOError])(details))

    def answer(self, a, how):
        v = self.vouchers[a.number]
        hits, refused = self.raw.vz_hits - self.raw.vz_reads_failed, v.refused
        self.decide(a, how)()
        if self.raw.vz_hits - self.raw.vz_reads_failed > hits:
            self.mon.event("storage-failures")
            v.last = ("error", self.now(), "database or disk is full")
            v.refused = refused
        self.sync_progress()

    def running(self):
        return [v.attempt for v in self.vouchers.values() if v.attempt is not None and not v.attempt.over]

    # -- time --

    def advance(self, seconds):
        self.mon.note("advance", seconds)
        while seconds > 0:
            dt = min(seconds, 0.5)
            seconds -= dt
            for v in self.vouchers.values():
                if v.attempt is None or v.attempt.over:
                    v.idle += dt
            self.clock.advance(dt)
            self.sync_progress(full=seconds <= 0)
            for v in self.vouchers.values():
                if self.open_work(v) and (v.attempt is None or v.attempt.over):
                    self.mon.check(
                        v.idle <= PATIENCE, "a voucher is not tried again although nothing is running for it",
                        "last outcome", v.last, "parts stored", v.stored, "attempts", v.attempts,
                    )

    def open_work(self, v):
        return v.refused is None and v.stored < self.groups

    # -- observation --

    def sync_progress(self, full=True):
        """Compare the database, read on its own, with the model."""
        mon = self.mon
        rows = dict(self.db.rows("SELECT [number], [counter] FROM [vouchers]"))
        mon.equal(
            set(rows) , {n.decode("ascii") for n in self.vouchers}, "the stored vouchers are not the submitted ones"
        )
        expected = []
        if not full and all(rows[v.number.decode("ascii")] == v.stored for v in self.vouchers.values()):
            return
        for v in self.vouchers.values():
            stored = rows[v.number.decode("ascii")]
            if stored != v.stored:
                mon.check(stored > v.stored, "progress on a voucher was lost")
                mon.event("parts-stored", stored - v.stored)
                v.stored = stored
                if stored == self.groups:
                    v.finished = self.now()
                    mon.event("completed")
            mon.check(stored <= self.groups, "more parts are stored than exist")
            for c in range(stored):
                mon.check(c in v.granted, "a part is stored which was never granted", c)
                expected.extend(signed(t, v.number, c) for t in v.granted[c])
            if stored == self.groups:
                mon.equal(
                    sum(len(v.granted[c]) for c in range(stored)), v.expected,
                    "a completed voucher did not yield the tokens requested for it",
                )
        got = sorted(t for (t,) in self.db.rows("SELECT [token] FROM [unblinded-tokens]"))
        mon.check(got == sorted(expected), "the tokens held are not exactly those granted", len(got), len(expected))
