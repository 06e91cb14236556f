"""Parts the demonstrations share: a scratch directory, a client store, a storage server, passes."""
import atexit, os, random, shutil, sqlite3, sys, tempfile
from base64 import b64encode, urlsafe_b64encode
from datetime import datetime, timedelta, timezone

import challenge_bypass_ristretto as cbr
from twisted.internet.defer import Deferred
from twisted.internet.task import Clock

from _zkapauthorizer.model import RandomToken, UnblindedToken, VoucherStore
from _zkapauthorizer.replicate import with_replication
from _zkapauthorizer.spending import SpendingController

SCRATCH = tempfile.mkdtemp()
atexit.register(shutil.rmtree, SCRATCH, True)
RAW = {}
KEEP = []
EPOCH = datetime(2024, 1, 1, tzinfo=timezone.utc)


def check(ok, message):
    if not ok:
        print("BROKEN:", message)
        sys.exit(1)


def store(name="db.sqlite", pass_value=100, replicating=False, now=lambda: EPOCH):
    conn = sqlite3.connect(os.path.join(SCRATCH, name), isolation_level="IMMEDIATE")
    rep = with_replication(conn, replicating)
    s = VoucherStore.from_connection(pass_value, now, rep)
    RAW[id(s)] = conn
    KEEP.append(s)
    return s


def voucher(n=0):
    return urlsafe_b64encode(bytes([n]) * 32)


def random_tokens(n):
    return [RandomToken(b64encode(os.urandom(96))) for _ in range(n)]


def unblinded_tokens(n):
    return [UnblindedToken(b64encode(os.urandom(96))) for _ in range(n)]


def stock(s, n, v=None, real=None, spendable=True):
    v = v or voucher(7)
    toks = real or unblinded_tokens(n)
    s.add(v, len(toks), 0, lambda: random_tokens(len(toks)))
    s.insert_unblinded_tokens_for_voucher(v, "k" * 44, toks, completed=True, spendable=spendable)
    return toks


def result(d):
    """The value of a coroutine or Deferred which must have fired."""
    if not isinstance(d, Deferred):
        d = Deferred.fromCoroutine(d)
    out = []
    d.addBoth(out.append)
    check(out, "it never finishes")
    return out[0]


def real_tokens(key, n):
    toks = [cbr.RandomToken.create() for _ in range(n)]
    blinded = [t.blind() for t in toks]
    signed = [key.sign(b) for b in blinded]
    proof = cbr.BatchDLEQProof.create(key, blinded, signed)
    return proof.invalid_or_unblind(toks, blinded, signed, cbr.PublicKey.from_signing_key(key))


def wire(token, message):
    sig = token.derive_verification_key_sha512().sign_sha512(message)
    return token.preimage().encode_base64() + b" " + sig.encode_base64()


class Server:
    def __init__(self, pass_value=100):
        from allmydata.storage.server import StorageServer
        from foolscap.referenceable import RemoteReference
        from prometheus_client import CollectorRegistry
        from zope.interface import implementer
        from _zkapauthorizer._storage_server import ZKAPAuthorizerStorageServer
        from _zkapauthorizer.server.spending import ISpender

        class Canary(RemoteReference):
            def __init__(self):
                pass
            def notifyOnDisconnect(self, f, *a, **kw):
                return 1
            def dontNotifyOnDisconnect(self, m):
                pass

        @implementer(ISpender)
        class Spender:
            def __init__(self):
                self.calls = []
            def mark_as_spent(self, key, passes):
                self.calls.append(list(passes))

        self.clock = Clock()
        self.clock.advance(10**6)
        self.key = cbr.random_signing_key()
        self.backend = StorageServer(tempfile.mkdtemp(dir=SCRATCH), b"n" * 20, clock=self.clock)
        self.spender = Spender()
        self.registry = CollectorRegistry()
        self.server = ZKAPAuthorizerStorageServer(
            self.backend, pass_value=pass_value, signing_key=self.key, spender=self.spender, registry=self.registry, clock=self.clock)
        self.canary = Canary()

    def passes(self, op, si, n):
        m = (op + " " + b64encode(si).decode()).encode()
        return [wire(t, m) for t in real_tokens(self.key, n)] if n else []

    def allocate(self, si, shnums, size, n, secrets=(b"r" * 32, b"c" * 32)):
        return self.server.remote_allocate_buckets(self.passes("allocate_buckets", si, n), si, secrets[0], secrets[1], set(shnums), size, self.canary)

    def immutable(self, si, shnums, size, n, **kw):
        _, writers = self.allocate(si, shnums, size, n, **kw)
        for w in writers.values():
            w.remote_write(0, b"x" * size)
            w.remote_close()

    def writev(self, si, vectors, n, secrets=(b"w" * 32, b"r" * 32, b"c" * 32)):
        return self.server.remote_slot_testv_and_readv_and_writev(
            self.passes("slot_testv_and_readv_and_writev", si, n), si, secrets, vectors, [])

    def renew(self, si, n, secrets=(b"r" * 32, b"c" * 32)):
        return self.server.remote_add_lease(self.passes("add_lease", si, n), si, *secrets)

    def stats(self, si):
        return self.server.remote_stat_shares([si])[0]
