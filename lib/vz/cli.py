"""
The client side under observation: a real voucher store on a real database
file with real tokens, and an independent reading of that file.
"""

import os
import sqlite3
from base64 import b64encode, urlsafe_b64encode
from datetime import datetime, timedelta, timezone

from hyperlink import URL
from twisted.internet.defer import Deferred
from twisted.python.failure import Failure

from _zkapauthorizer.controller import RistrettoRedeemer
from _zkapauthorizer.model import RandomToken, UnblindedToken, VoucherStore
from _zkapauthorizer.replicate import with_replication
from _zkapauthorizer.spending import SpendingController

from .core import Violated

EPOCH = datetime(2024, 1, 1, tzinfo=timezone.utc)


def when(clock):
    """A source of aware datetimes driven by a virtual clock."""
    return lambda: EPOCH + timedelta(seconds=clock.seconds())


def connect(path):
    conn = sqlite3.connect(path, isolation_level="IMMEDIATE")
    conn.execute("PRAGMA synchronous = OFF")
    return conn


def open_client_store(path, now, pass_value=1, replicating=False):
    """(raw connection, replicating connection, store) for a database file."""
    raw = connect(path)
    rep = with_replication(raw, replicating)
    return raw, rep, VoucherStore.from_connection(pass_value, now, rep)


def voucher_number(rng):
    return urlsafe_b64encode(bytes(rng.randrange(256) for _ in range(32)))


def fake_random_token(rng):
    return RandomToken(b64encode(bytes(rng.randrange(256) for _ in range(96))))


def fake_unblinded_token(rng):
    return UnblindedToken(b64encode(bytes(rng.randrange(256) for _ in range(96))))


def stock(store, rng, tokens, groups=1, public_key="a" * 44, spendable=True, voucher=None):
    """Put these unblinded tokens in the store as the redemption of a voucher."""
    voucher = voucher or voucher_number(rng)
    n = len(tokens)
    cuts = sorted(rng.randrange(n + 1) for _ in range(groups - 1)) if n else [0] * (groups - 1)
    bounds = [0] + cuts + [n]
    for g in range(groups):
        part = tokens[bounds[g] : bounds[g + 1]]
        store.add(voucher, max(n, 1), g, lambda: [fake_random_token(rng) for _ in part])
        store.insert_unblinded_tokens_for_voucher(voucher, public_key, part, completed=g + 1 == groups, spendable=spendable)
    return voucher


class Reader:
    """What a second program sees in the database file: committed state."""

    def __init__(self, path):
        self.path = path

    def rows(self, sql, args=()):
        conn = sqlite3.connect("file:%s?mode=ro" % (self.path,), uri=True)
        try:
            return conn.execute(sql, args).fetchall()
        finally:
            conn.close()

    def unspent(self):
        return {t for (t,) in self.rows("SELECT [token] FROM [unblinded-tokens]")}

    def spendable(self):
        return {
            t
            for (t,) in self.rows(
                "SELECT T.[token] FROM [unblinded-tokens] AS T JOIN [redemption-groups] AS G ON T.[redemption-group] = G.[rowid] WHERE G.[spendable] = 1"
            )
        }

    def invalid(self):
        return {t for (t,) in self.rows("SELECT [token] FROM [invalid-unblinded-tokens]")}

    def dump(self):
        conn = sqlite3.connect("file:%s?mode=ro" % (self.path,), uri=True)
        try:
            return list(conn.iterdump())
        finally:
            conn.close()


def redeemer():
    """The real redeemer, never asked to talk to an issuer."""
    return RistrettoRedeemer(None, URL.from_text("https://issuer.invalid/"))


def spending(store, tokens_to_passes=None):
    return SpendingController.for_store(
        tokens_to_passes=tokens_to_passes or redeemer().tokens_to_passes, store=store
    )


def available(store):
    """The exact set of tokens which the store would hand out now."""
    n = store.count_unblinded_tokens()
    got = store.get_unblinded_tokens(n) if n else []
    if got:
        store.reset_unblinded_tokens(got)
    return {t.unblinded_token.decode("ascii") for t in got}


class Outcome:
    """Holds the result of a Deferred, fired or not."""

    def __init__(self, d):
        self.done = False
        self.value = self.failure = None
        self.d = d
        d.addCallbacks(self._ok, self._bad)

    def _ok(self, v):
        self.done, self.value = True, v

    def _bad(self, f):
        self.done, self.failure = True, f

    @property
    def ok(self):
        return self.done and self.failure is None


def now_result(d, what="operation"):
    """The result of a Deferred which must have fired; re-raises failures."""
    o = Outcome(d)
    if not o.done:
        raise Violated("%s never completes" % (what,))
    if o.failure is not None:
        f = o.failure
        try:
            f.value._vz_failure = f
        except Exception:
            pass
        f.raiseException()
    return o.value


def run_async(coro, what="operation"):
    return now_result(Deferred.fromCoroutine(coro), what)
