"""
A storage server under observation: the real authorizing server over a real
Tahoe-LAFS storage backend in a scratch directory, driven by a virtual clock,
with an independent reading of what is on disk.
"""

import os
import random
from base64 import b64encode
from contextlib import contextmanager, nullcontext

import attr
from allmydata.storage import immutable_schema, mutable_schema
from allmydata.storage.common import storage_index_to_dir
from allmydata.storage.immutable import ShareFile
from allmydata.storage.mutable import MutableShareFile
from allmydata.storage.server import StorageServer
from foolscap.referenceable import RemoteReference
from prometheus_client import CollectorRegistry
from twisted.internet.defer import Deferred, fail, maybeDeferred, succeed
from twisted.internet.task import Clock
from zope.interface import implementer

from _zkapauthorizer._storage_server import NewLengthRejected, ZKAPAuthorizerStorageServer
from _zkapauthorizer.server.spending import ISpender
from _zkapauthorizer.storage_common import MorePassesRequired

from . import ppass
from .core import scratch_dir

MONTH = 31 * 24 * 60 * 60
LABELS = ("allocate_buckets", "add_lease", "slot_testv_and_readv_and_writev")


def message(op, si):
    """The documented request binding: operation name and storage index."""
    return (op + " " + b64encode(si).decode("ascii")).encode("ascii")


def ceil_passes(pass_value, sizes):
    """The price of these share sizes, in passes; integer arithmetic only."""
    return sum(-(-s // pass_value) for s in sizes)


@implementer(ISpender)
class LoggingSpender:
    def __init__(self):
        self.calls = []

    def mark_as_spent(self, public_key, passes):
        self.calls.append(list(passes))


class Canary(RemoteReference):
    def __init__(self):
        self.callbacks = {}
        self.n = 0

    def notifyOnDisconnect(self, f, *a, **kw):
        self.n += 1
        self.callbacks[self.n] = (f, a, kw)
        return self.n

    def dontNotifyOnDisconnect(self, marker):
        self.callbacks.pop(marker, None)

    def disconnect(self):
        cbs = sorted(self.callbacks.items())
        self.callbacks = {}
        for _, (f, a, kw) in cbs:
            f(*a, **kw)


class Share:
    def __init__(self, kind, size, data, leases):
        self.kind, self.size, self.data, self.leases = kind, size, data, leases

    def active(self, now):
        return any(l[1] > now for l in self.leases)

    def __repr__(self):
        return "<%s size=%d leases=%r>" % (
            self.kind,
            self.size,
            [(l[0][:2].hex(), l[1]) for l in self.leases],
        )


class NodeReactor(Clock):
    """A virtual reactor that can also host the plugin's services."""

    def __init__(self):
        Clock.__init__(self)
        self.at_shutdown = []

    def callWhenRunning(self, f, *a, **kw):
        f(*a, **kw)

    def addSystemEventTrigger(self, phase, event, f, *a, **kw):
        self.at_shutdown.append((f, a, kw))


def plugin_server(world, metrics_path, interval):
    """The server as the plugin makes it from a node's configuration."""
    from _zkapauthorizer._plugin import ZKAPAuthorizer

    key_path = os.path.join(world.dir, "signing.key")
    with open(key_path, "wb") as f:
        f.write(world.key.encode_base64() + b"\n")
    config = {
        "ristretto-issuer-root-url": "https://issuer.invalid/",
        "ristretto-signing-key-path": key_path,
        "pass-value": str(world.pass_value),
        "prometheus-metrics-path": metrics_path,
        "prometheus-metrics-interval": str(interval),
    }
    plugin = ZKAPAuthorizer("privatestorageio-zkapauthz-v2", world.clock, lambda *a: None)
    out = []
    plugin.get_storage_server(config, lambda: world.backend).addCallback(out.append)
    return out[0].storage_server


class World:
    def __init__(self, rng, pass_value=None, now=None, clock=None, key=None, litter=True):
        self.rng = rng
        self.dir = scratch_dir()
        if clock is None:
            clock = NodeReactor()
            clock.advance(1_600_000_000 + rng.randrange(10_000_000) if now is None else now)
        self.clock = clock
        self.key = key or ppass.signing_key()
        self.other_key = ppass.signing_key()
        self.pool = ppass.Pool(self.key, 128)
        self.other_pool = ppass.Pool(self.other_key, 4)
        self.pass_value = pass_value or rng.choice([1, 2, 7, 16, 100, 1000, 4096])
        self.backend = StorageServer(os.path.join(self.dir, "storage"), b"n" * 20, clock=self.clock)
        self.registry = CollectorRegistry()
        self.spender = LoggingSpender()
        self.server = ZKAPAuthorizerStorageServer(
            self.backend,
            pass_value=self.pass_value,
            signing_key=self.key,
            spender=self.spender,
            registry=self.registry,
            clock=self.clock,
        )
        self.sis = [bytes(rng.randrange(256) for _ in range(16)) for _ in range(rng.randrange(1, 4))]
        self.kinds = {si: rng.choice(["immutable", "mutable"]) for si in self.sis}
        self.secrets = [bytes([65 + i]) * 32 for i in range(3)]
        self.canary = Canary()
        self.open_writers = []
        if litter and rng.random() < 0.2:
            # Files which are not shares lie around where shares are kept.
            for si in self.sis:
                os.makedirs(self.share_dir(si))
                for name in rng.sample(["README", ".nfs0001", "0.tmp", "1~", "x2"], 2):
                    with open(os.path.join(self.share_dir(si), name), "wb") as f:
                        f.write(bytes(rng.randrange(256) for _ in range(rng.choice([0, 5, 200]))))

    # -- observation -------------------------------------------------------

    def now(self):
        return self.clock.seconds()

    def share_dir(self, si):
        return os.path.join(self.backend.sharedir, storage_index_to_dir(si))

    def shares(self, si):
        out = {}
        d = self.share_dir(si)
        if not os.path.isdir(d):
            return out
        for name in os.listdir(d):
            if not name.isdigit():
                continue
            path = os.path.join(d, name)
            with open(path, "rb") as f:
                head = f.read(32)
            if MutableShareFile.is_valid_header(head):
                sf = MutableShareFile(path)
                size = sf.get_length()
                data = sf.readv([(0, size)])[0]
                kind = "mutable"
            else:
                sf = ShareFile(path)
                nleases = len(list(sf.get_leases()))
                size = os.path.getsize(path) - 12 - 72 * nleases
                data = sf.read_share_data(0, size)
                kind = "immutable"
            leases = []
            for lease in sf.get_leases():
                owner = next((i for i, s in enumerate(self.secrets) if lease.is_renew_secret(s)), None)
                leases.append((b"%d" % owner if owner is not None else b"?", lease.get_expiration_time()))
            out[int(name)] = Share(kind, size, data, sorted(leases))
        return out

    def all_shares(self):
        return {si: self.shares(si) for si in self.sis}

    def disk(self):
        """Every byte under the share directory."""
        out = {}
        for root, dirs, files in os.walk(self.backend.sharedir):
            for name in files:
                p = os.path.join(root, name)
                with open(p, "rb") as f:
                    size = os.path.getsize(p)
                    if size > 2**26:
                        # A sparse file: the ends of it, and its length.
                        data = f.read(2**16)
                        f.seek(size - 2**16)
                        data = (size, data, f.read())
                    else:
                        data = f.read()
                    out[os.path.relpath(p, self.backend.sharedir)] = data
        return out

    def metric(self):
        v = self.registry.get_sample_value
        return (
            v("zkapauthorizer_server_spending_successes_count"),
            v("zkapauthorizer_server_spending_successes_sum"),
        )

    def metric_buckets(self):
        out = {}
        for m in self.registry.collect():
            for s in m.samples:
                if s.name.endswith("_bucket"):
                    out[s.labels["le"]] = s.value
        return out

    def still_open(self):
        """Uploads in progress; the backend drops idle ones by itself."""
        self.open_writers = [o for o in self.open_writers if not o[2]._bucket_writer.closed]
        return self.open_writers

    # -- passes ------------------------------------------------------------

    def valid(self, n, op, si):
        m = message(op, si)
        return [ppass.wire_pass(t, m) for t in self.pool.take(n)]

    def invalid(self, op, si):
        """One pass that looks right and is not valid for (op, si)."""
        rng = self.rng
        kind = rng.randrange(6)
        m = message(op, si)
        if kind == 0:
            wrong = rng.choice([l for l in LABELS if l != op])
            return ppass.wire_pass(self.pool.take(1)[0], message(wrong, si))
        if kind == 1:
            other = bytes(rng.randrange(256) for _ in range(16))
            if rng.random() < 0.5:
                # differs in one bit only
                b = bytearray(si)
                b[rng.randrange(16)] ^= 1 << rng.randrange(8)
                other = bytes(b)
            return ppass.wire_pass(self.pool.take(1)[0], message(op, other))
        if kind == 2:
            return ppass.wire_pass(self.other_pool.take(1)[0], m)
        if kind == 3:
            while True:
                w = ppass.corrupt(rng, ppass.wire_pass(self.pool.take(1)[0], m))
                if not ppass.is_valid(self.key, w, m):
                    return w
        if kind == 4:
            return ppass.garbage(rng)
        # the preimage of one token with the signature of another
        a, b = self.pool.take(2)
        return ppass.wire_pass(a, m).split(b" ")[0] + b" " + ppass.wire_pass(b, m).split(b" ")[1]

    # -- seeding -----------------------------------------------------------

    def seed_shares(self):
        """Shares that exist already, with leases of several ages and owners."""
        rng = self.rng
        for si in self.sis:
            if rng.random() < 0.25:
                continue
            nums = rng.sample(range(8), rng.randrange(1, 4))
            if rng.random() < 0.12:
                # One server may hold most of a file's shares.
                nums = rng.sample(range(256), rng.randrange(8, 28))
            # Some shares were stored by earlier releases of Tahoe-LAFS.
            old = random.Random(repr(si)).random() < 0.3
            for num in nums:
                size = self.size()
                data = bytes([rng.randrange(256)]) * size
                owner = rng.choice(self.secrets)
                with old_format() if old else nullcontext():
                    if self.kinds[si] == "immutable":
                        _, writers = self.backend.allocate_buckets(si, owner, owner, {num}, size, renew_leases=False)
                        for w in writers.values():
                            if data:
                                w.write(0, data)
                            w.close()
                    else:
                        self.backend.slot_testv_and_readv_and_writev(
                            si, (b"w" * 32, owner, owner), {num: ([], [(0, data)], None)}, [], renew_leases=True
                        )
            # Another owner's lease, added at another time.
            if rng.random() < 0.5:
                self.clock.advance(rng.randrange(0, MONTH))
                s = rng.choice(self.secrets)
                self.backend.add_lease(si, s, s)
        # Age: leases may be fresh, about to expire, at the exact boundary or expired.
        self.clock.advance(
            rng.choice([0, 1, rng.randrange(MONTH), MONTH - 1, MONTH, MONTH + 1, rng.randrange(MONTH, 3 * MONTH)])
        )

    def size(self):
        rng, pv = self.rng, self.pass_value
        k = rng.randrange(0, 5)
        return max(0, rng.choice([k * pv, k * pv + 1, k * pv - 1, k * pv + rng.randrange(pv), rng.randrange(0, 6 * pv + 2)]))


@contextmanager
def old_format():
    """Shares are stored in the earlier version of their format."""
    saved = [(c, c.__init__.__defaults__) for c in (ShareFile, MutableShareFile)]
    try:
        for c, module in ((ShareFile, immutable_schema), (MutableShareFile, mutable_schema)):
            [old] = [x for x in module.ALL_SCHEMAS if x.version == 1]
            c.__init__.__defaults__ = tuple(old if d is module.NEWEST_SCHEMA_VERSION else d for d in c.__init__.__defaults__)
        yield
    finally:
        for c, d in saved:
            c.__init__.__defaults__ = d


@attr.s
class Tracker:
    interfaceName = attr.ib(default="RIPrivacyPassAuthorizedStorageServer.tahoe.privatestorage.io")
    url = attr.ib(default="pb://" + "abcd" * 8 + "@127.0.0.1:1/x")

    def getURL(self):
        return self.url


class Wire(RemoteReference):
    """
    What the client holds: checks every call and result against the declared
    protocol schema, and lets the scenario intercept calls.
    """

    def __init__(self, target, before=None, tub="abcd" * 8):
        self.target = target
        self.tub = tub
        self.tracker = Tracker(url="pb://%s@127.0.0.1:1/x" % (tub,))
        self.before = before
        self.calls = []

    def getRemoteTubID(self):
        return self.tub

    def callRemote(self, name, *args, **kwargs):
        if self.before is not None:
            d = self.before(name, args, kwargs)
            if d is not None:
                return d
        return self.forward(name, args, kwargs)

    def forward(self, name, args, kwargs):
        try:
            schema = self.target.getInterface()[name]
            schema.checkAllArgs(args, kwargs, inbound=True)
            result = self.target.doRemoteCall(name, args, kwargs)
            schema.checkResults(result, inbound=False)
        except Exception:
            return fail()
        return succeed(result)
