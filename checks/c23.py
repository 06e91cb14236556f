"""The wire protocol admits exactly what client and server use."""

import os

from allmydata.interfaces import RIBucketReader, RIBucketWriter
from allmydata.storage.server import FoolscapBucketReader
from foolscap.ipb import DeadReferenceError
from foolscap.referenceable import Referenceable, RemoteReference
from foolscap.tokens import BananaError, RemoteException, Violation
from twisted.internet.defer import maybeDeferred, succeed
from twisted.python.reflect import qual

from _zkapauthorizer._storage_client import IncorrectStorageServerReference, ZKAPAuthorizerStorageClient
from _zkapauthorizer.foolscap import RIPrivacyPassAuthorizedStorageServer, ShareStat
from _zkapauthorizer.model import UnblindedToken
from vz import cli, foolnet, ppass, srv
from vz.core import Scenario, Violated
from vz.netcli import INTERFACE, NetWorld

PROPERTY = "C23"
LEVEL = "exploration"
RULE = (
    "Histories of every client operation run over real Foolscap connections and, as a reference, directly against an identical server: outcomes, everything "
    "on the disk and the passes recorded as spent have to agree, up to the declared limits (256 shares, hundreds of vectors, thousands of passes and storage "
    "indexes, shares of more than 4 GiB). Requests in which any one parameter is too long, too short, too many, of the wrong type, missing or surplus are put on "
    "the wire without regard to the schema and have to fail before they reach the server. Well-typed and ill-typed replies come from a peer which claims to be a "
    "storage server. Distinct by operation, what is wrong with it and outcome."
)
ASSUMPTIONS = ["TCP and TLS are replaced by a queue of bytes, split at random", "the fields inside the statistics of a share are not typed by the protocol and not judged",
    "negative numbers where sizes are expected are admitted by Foolscap's number type and not judged"]

SECRETS = (b"w" * 32, b"r" * 32, b"c" * 32)


class _Canary(Referenceable):
    pass


class Direct:
    """The reference: the same client and server with nothing in between."""

    def __init__(self, a):
        self.server = srv.World(a.rng, pass_value=a.pv, clock=a.server.clock, key=a.server.key, litter=False)
        self.server.pool = a.server.pool
        _, _, self.store = cli.open_client_store(os.path.join(self.server.dir, "client.sqlite3"), cli.when(a.server.clock), a.pv)
        self.rref = srv.Wire(self.server.server)
        self.client = ZKAPAuthorizerStorageClient(
            a.pv, get_rref=lambda: self.rref, get_passes=cli.spending(self.store).get, clock=a.server.clock
        )
        for w in (a.server, self.server):
            w.backend.get_available_space = lambda: 10**13
        self.db = cli.Reader(os.path.join(self.server.dir, "client.sqlite3"))

    def run(self, f, *a, **kw):
        return cli.Outcome(maybeDeferred(f, *a, **kw))

    def remote(self, ref, name, *a, **kw):
        return self.run(lambda: getattr(ref, "remote_" + name)(*a, **kw))


def name_of(f):
    """What went wrong, whether or not it crossed the network."""
    if f is None:
        return None
    e = f.value
    if isinstance(e, RemoteException):
        t = e.failure.type
        return (t if isinstance(t, str) else qual(t)).rsplit(".", 1)[-1]
    return type(e).__name__


def plain(v):
    """Remote objects of different kinds compare equal."""
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (tuple, list)):
        return type(v)(plain(x) for x in v)
    if isinstance(v, ShareStat):
        return ("stat", v.size, v.lease_expiration)
    if isinstance(v, (RemoteReference, Referenceable)):
        return "object"
    return v


def advisories(world):
    d = world.backend.corruption_advisory_dir
    if not os.path.isdir(d):
        return []
    out = []
    for n in sorted(os.listdir(d)):
        with open(os.path.join(d, n), "rb") as f:
            out.append((n.rsplit("--", 1)[-1], f.read().split(b"\n", 1)[-1]))
    return sorted(out)


class Twins:
    def __init__(self, rng, mon):
        self.rng, self.mon = rng, mon
        self.a = NetWorld(rng, pass_value=rng.choice([1, 7, 1000, 2**20, 2**30]))
        self.b = Direct(self.a)
        self.open = []  # (si, num, size, writer a, writer b)
        self.sis = {}

    def buy(self, n):
        for w in (self.a, self.b):
            tokens = [UnblindedToken(t.encode_base64()) for t in self.a.server.pool.take(n)]
            cli.stock(w.store, self.rng, tokens)

    def both(self, what, fa, fb):
        mon = self.mon
        a, b = fa(), fb()
        mon.check(a.done and b.done, "%s never ends" % what, a.done, b.done)
        mon.check(self.a.link.up, "the connection was lost by %s" % what)
        if b.failure is not None and b.failure.check(BananaError, Violation):
            mon.violate("%s, as this software asks for it, is not admitted by the wire schema" % what, b.failure.getErrorMessage()[:300])
        mon.equal(name_of(a.failure), name_of(b.failure), "%s fails otherwise over the network than directly" % what)
        mon.equal(plain(a.value), plain(b.value), "%s is answered otherwise over the network than directly" % what)
        mon.equal(self.a.server.disk(), self.b.server.disk(), "%s leaves something else on the disk over the network than directly" % what)
        mon.equal(advisories(self.a.server), advisories(self.b.server), "%s reports corruption otherwise over the network than directly" % what)
        for x, y in [(len(self.a.server.spender.calls), len(self.b.server.spender.calls)), (self.a.server.metric(), self.b.server.metric())]:
            mon.equal(x, y, "%s is accounted for otherwise over the network than directly" % what)
        mon.equal([len(c) for c in self.a.server.spender.calls[-1:]], [len(c) for c in self.b.server.spender.calls[-1:]], "%s spends a different number of passes over the network" % what)
        mon.equal(len(self.a.db.unspent()), len(self.b.db.unspent()), "%s costs a different number of tokens over the network" % what)
        mon.event("op-" + what)
        if b.failure is not None:
            mon.event("failed-alike")
        mon.sig(what, name_of(b.failure))
        return a, b

    def client(self, what, *args, **kw):
        return self.both(what, lambda: self.a.run(getattr(self.a.client, what), *args, **kw), lambda: self.b.run(getattr(self.b.client, what), *args, **kw))

    def si(self, kind):
        rng = self.rng
        mine = [s for s, k in self.sis.items() if k == kind]
        if mine and rng.random() < 0.8:
            return rng.choice(sorted(mine))
        si = bytes(rng.randrange(256) for _ in range(16))
        self.sis[si] = kind
        return si

    def any_si(self):
        rng = self.rng
        if self.sis and rng.random() < 0.8:
            return rng.choice(sorted(self.sis))
        return bytes(rng.randrange(256) for _ in range(16))

    def num(self):
        return self.rng.choice([0, 1, 2, 3, 255, self.rng.randrange(256)])

    def data(self):
        rng = self.rng
        return bytes([rng.randrange(256)]) * rng.choice([0, 1, 5, 100, 1000, rng.randrange(5000), 70000])

    def readv(self):
        rng = self.rng
        many = rng.choice([0, 1, 3, 60])
        return [(rng.randrange(200), rng.choice([0, 1, 1000, 2**31 - 1] if many < 10 else [0, 1, 10])) for _ in range(many)]

    def allocate(self):
        rng, pv = self.rng, self.a.pv
        nums = {self.num() for _ in range(rng.randrange(1, 5))}
        size = rng.choice([0, 1, 50, 1000, rng.randrange(5000)])
        if rng.random() < 0.1:
            nums, size = set(range(256)), rng.choice([0, 1, 50])
        if pv == 2**30 and rng.random() < 0.3:
            size = rng.choice([2**31 - 1, 2**31, 2**32 + 1])
            nums = {0}
        if -(-size // pv) * len(nums) > 1500:
            size = pv
        si = self.si("immutable")
        args = (si, SECRETS[1], SECRETS[2], nums, size)
        a, b = self.both(
            "allocate_buckets",
            lambda: self.a.run(self.a.client.allocate_buckets, *args, canary=_Canary()),
            lambda: self.b.run(self.b.client.allocate_buckets, *args, canary=self.b.server.canary),
        )
        if b.ok:
            if size > 2**31 - 2 and b.value[1]:
                self.mon.event("huge")
            for n in sorted(b.value[1]):
                self.open.append((si, n, size, a.value[1][n], b.value[1][n]))

    def upload(self):
        rng = self.rng
        if not self.open:
            return self.allocate()
        i = rng.randrange(len(self.open))
        si, n, size, wa, wb = self.open[i]
        what = rng.choice(["write", "write", "close", "abort"])
        args = ()
        if what == "write":
            off = rng.choice([0, size // 2, max(0, size - 1), size])
            args = (off, b"s" * rng.choice([1, 10, max(1, min(size - off, 80000))]))
        else:
            self.open.pop(i)
        self.both("bucket-" + what, lambda: self.a.remote(wa, what, *args), lambda: self.b.remote(wb, what, *args))

    def read(self):
        rng = self.rng
        a, b = self.client("get_buckets", self.si("immutable"))
        for n in sorted(b.value or ()):
            off, length = rng.choice([0, 1, 40, 2**31, 2**32]), rng.choice([0, 1, 1000, 2**31 - 1])
            if any(len(d) == 3 and d[0] > 2**26 for d in self.b.server.disk().values()):
                length = min(length, 1000)
            self.both("bucket-read", lambda: self.a.remote(a.value[n], "read", off, length), lambda: self.b.remote(b.value[n], "read", off, length))
            if rng.random() < 0.3:
                self.both(
                    "bucket-advise", lambda: self.a.remote(a.value[n], "advise_corrupt_share", b"bad"), lambda: self.b.remote(b.value[n], "advise_corrupt_share", b"bad")
                )

    def write(self):
        rng = self.rng
        tw = {}
        for _ in range(rng.choice([0, 1, 1, 2, 4])):
            testv = [(rng.randrange(100), rng.choice([0, 1, 5]), rng.choice([b"", b"x", b"xxxxx"])) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
            datav = [(rng.choice([0, 1, 10, 300, 70000]), self.data()) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
            tw[self.num()] = (testv, datav, rng.choice([None, None, None, 0, 1, 100, 10**6]))
        if rng.random() < 0.1:
            tw = {n: ([], [(k, b"x") for k in range(rng.randrange(40, 200))], None) for n in range(3)}
        if rng.random() < 0.05:
            tw = {n: ([], [(0, b"y")], None) for n in range(256)}
        readv = self.readv()
        price = sum(max([0] + [o + len(d) for o, d in v[1]]) for v in tw.values()) // self.a.pv
        if price > 1500:
            tw = {n: (v[0], [(o % 50, d[:50]) for o, d in v[1]], v[2]) for n, v in tw.items()}
        secrets = SECRETS if rng.random() < 0.9 else (b"v" * 32, SECRETS[1], SECRETS[2])
        self.client("slot_testv_and_readv_and_writev", self.si("mutable"), secrets, tw, readv)

    def step(self):
        rng = self.rng
        r = rng.random()
        if r < 0.15:
            self.allocate()
        elif r < 0.45:
            self.upload()
        elif r < 0.55:
            self.read()
        elif r < 0.70:
            self.write()
        elif r < 0.75:
            self.client("slot_readv", self.si("mutable"), rng.choice([[], [self.num()], [0, 1, 2, 3]]), self.readv())
        elif r < 0.80:
            self.client("add_lease", self.any_si(), rng.choice([b"r" * 32, b"s" * 32]), b"c" * 32)
        elif r < 0.86:
            sis = [self.any_si() for _ in range(rng.choice([0, 1, 1, 5]))]
            if rng.random() < 0.2:
                sis += [bytes(rng.randrange(256) for _ in range(16)) for _ in range(3000)]
            if len(sis) > 1000:
                self.mon.event("many-indexes")
            self.client("stat_shares", sis)
        elif r < 0.90:
            self.client("advise_corrupt_share", rng.choice([b"mutable", b"immutable"]), self.any_si(), self.num(), b"because " * rng.choice([1, 1000]))
        elif r < 0.93:
            self.client("get_version")
        elif r < 0.97:
            self.a.server.clock.advance(rng.choice([1, 600, 1700, srv.MONTH // 2, srv.MONTH]))
            self.a.link.settle()
            # The connection is lost, and with it what is not uploaded completely.
            self.open = []
            self.a.connect()
            self.b.server.canary.disconnect()
            self.mon.event("reconnected")
        else:
            self.buy(rng.choice([1, 50, 500]))


def agree(rng, mon):
    """Whatever client and server say to each other passes the schema unchanged."""
    t = Twins(rng, mon)
    try:
        t.buy(rng.choice([5, 200, 3000]))
        if t.a.pv < 10 and rng.random() < 0.3:
            t.buy(3000)
            t.client("slot_testv_and_readv_and_writev", t.si("mutable"), SECRETS, {0: ([], [(0, b"p" * (t.a.pv * rng.randrange(1001, 2500)))], None)}, [])
        for _ in range(rng.randrange(10, 30)):
            t.step()
        mon.equal(t.a.client.get_lease_seed(), t.b.client.get_lease_seed(), "the lease seed depends on the connection")
        most = max([len(s.args[0]) for s in t.a.seen if s.name in srv.LABELS] or [0])
        if most > 1000:
            mon.event("many-passes")
    finally:
        t.a.close()


# -- hostile requests --------------------------------------------------------


def wrong_passes(w, rng, p):
    bad = rng.choice([p[0][:-1], p[0] + b"=", b"", p[0] * 2, p[0].decode("ascii"), 177, None, [p[0]], (p[0],), 1.5])
    return rng.choice([list(p) + [bad], [bad] + list(p), [bad], p[0], None, tuple(p), {1: p[0]}, set(p), 7, b"", "x"])


def wrong_bytes(rng, n):
    return rng.choice([b"x" * (n + 1), b"x" * 1000, "x" * n, None, n, [b"x" * n], 0.5])


def wrong_hash(rng):
    return rng.choice([b"x" * 31, b"", wrong_bytes(rng, 32)])


def wrong_int(rng):
    return rng.choice([b"1", "1", None, [1], 1.0, (1,), {1: 1}])


def wrong_number(rng):
    return rng.choice([2**64, 2**80, wrong_int(rng)])


def wrong_nums(rng):
    return rng.choice([[0], (0,), None, 0, {0: 0}, {b"0"}, {0, "1"}, set(range(257)), {None}, b"0"])


def wrong_readv(rng):
    return rng.choice([None, 0, {}, [0], [(0,)], [(0, 1, 2)], [(b"0", 1)], [(0, "1")], [[0, 1]], ((0, 1),), [(0, 2**8192)], [(2**64, 1)], [None]])


def wrong_tw(rng):
    ok = ([], [(0, b"x")], None)
    return rng.choice([
        None, [], [(0, ok)], {b"0": ok}, {None: ok}, {0: None}, {0: ok[:2]}, {0: ok + (None,)}, {0: list(ok)}, {0: ([], [(0, "x")], None)}, {0: ([], [(0,)], None)},
        {0: ([], [(None, b"x")], None)}, {0: ([], {0: b"x"}, None)}, {0: ([(0, 1, b"x")], [(0, b"x")], None)}, {0: ([(0, 1, "eq", b"x")], [(0, b"x")], None)},
        {0: ([(0, 2**8192, b"eq", b"x")], [(0, b"x")], None)}, {0: ([], [(0, b"x")], b"1")}, {0: ([], [(0, b"x")], 2**64)}, {0: ([], [(2**64, b"x")], None)}, {0: (None, [(0, b"x")], None)},
    ])


def wrong_secrets(rng):
    a, b, c = SECRETS
    return rng.choice([(a, b), (a, b, c, c), [a, b, c], None, (a[:-1], b, c), (a, b + b"x", c), (a, b, None), ("w" * 32, b, c), a])


def wrong_list(rng, elem):
    return rng.choice([None, 3, (elem,), {1: elem}, b"x", "x", {elem}, [elem, None], [[elem]], [0.5], [elem, "x"]])


METHODS = {
    "get_version": [],
    "allocate_buckets": ["passes", "storage_index", "renew_secret", "cancel_secret", "sharenums", "allocated_size", "canary"],
    "add_lease": ["passes", "storage_index", "renew_secret", "cancel_secret"],
    "get_buckets": ["storage_index"],
    "share_sizes": ["storage_index_or_slot", "sharenums"],
    "stat_shares": ["storage_indexes_or_slots"],
    "slot_readv": ["storage_index", "shares", "readv"],
    "slot_testv_and_readv_and_writev": ["passes", "storage_index", "secrets", "tw_vectors", "r_vector"],
    "advise_corrupt_share": ["share_type", "storage_index", "shnum", "reason"],
}


def good_args(w, rng, name, si):
    passes = w.server.valid(3, name, si) if name in srv.LABELS else None
    return {
        "passes": passes, "storage_index": si, "storage_index_or_slot": si, "storage_indexes_or_slots": [si], "renew_secret": SECRETS[1], "cancel_secret": SECRETS[2],
        "sharenums": {5, 6} if name == "allocate_buckets" else None, "allocated_size": 10, "canary": _Canary(), "shares": [0], "readv": [(0, 10)], "r_vector": [(0, 10)],
        "secrets": SECRETS, "tw_vectors": {0: ([], [(0, b"new")], None)}, "share_type": b"immutable", "shnum": 0, "reason": b"why",
    }


def spoil(w, rng, name, arg, args):
    if arg == "passes":
        return wrong_passes(w, rng, args["passes"])
    if arg in ("storage_index", "storage_index_or_slot"):
        return wrong_bytes(rng, 16)
    if arg == "storage_indexes_or_slots":
        return rng.choice([wrong_list(rng, args["storage_index"]), [args["storage_index"], b"x" * 17]])
    if arg in ("renew_secret", "cancel_secret"):
        return wrong_hash(rng)
    if arg == "sharenums":
        return wrong_nums(rng)
    if arg == "allocated_size":
        return wrong_number(rng)
    if arg == "canary":
        return rng.choice([None, 1, b"canary", "canary", [], {}])
    if arg == "shares":
        return wrong_list(rng, 0)
    if arg in ("readv", "r_vector"):
        return wrong_readv(rng)
    if arg == "secrets":
        return wrong_secrets(rng)
    if arg == "tw_vectors":
        return wrong_tw(rng)
    if arg in ("share_type", "reason"):
        return rng.choice(["mutable", None, 1, [b"x"]])
    if arg == "shnum":
        return rng.choice([2**8192, wrong_int(rng)])
    raise KeyError(arg)


NAMES = ["mark_as_spent", "remote_add_lease", "cancel_lease", "renew_lease", "", "_clear_metrics", "doRemoteCall", "add_Lease", "slot_writev", "get_spender", "__init__"]


def hostile(rng, mon):
    """A request which the schema does not admit is refused before the server sees it."""
    w = NetWorld(rng, pass_value=1000)
    s = w.server
    try:
        mu, im = b"m" * 16, b"i" * 16
        w.buy(40)
        for f, a in [
            (w.client.slot_testv_and_readv_and_writev, (mu, SECRETS, {0: ([], [(0, b"old" * 10)], None)}, [])),
            (w.client.allocate_buckets, (im, SECRETS[1], SECRETS[2], {0}, 30, _Canary())),
        ]:
            o = w.run(f, *a)
            if not o.ok:
                raise Violated("an ordinary operation fails", repr(o.failure))
        wr = o.value[1][0]
        for f, a in [("write", (0, b"d" * 30)), ("close", ())]:
            if not w.remote(wr, f, *a).ok:
                raise Violated("an ordinary upload fails")
        for n in range(rng.randrange(6, 12)):
            name = rng.choice(sorted(METHODS))
            si = mu if name.startswith("slot") else im
            args = good_args(w, rng, name, si)
            names = list(METHODS[name])
            how = rng.choice(["spoilt", "spoilt", "spoilt", "spoilt", "missing", "surplus", "unknown"])
            spoilable = [a for a in names if (name, a) != ("share_sizes", "sharenums")]
            send, kw = [args[a] for a in names], {}
            call, which = name, ""
            if how == "spoilt" and spoilable:
                which = rng.choice(spoilable)
                if "passes" in names and rng.random() < 0.3:
                    which = "passes"
                args[which] = spoil(w, rng, name, which, args)
                send = [args[a] for a in names]
                which += repr(args[which])[:60]
            elif how == "missing" and names:
                which = names.pop(rng.randrange(len(names)))
                send, kw = [], {a: args[a] for a in names}
            elif how == "surplus" or not spoilable:
                how = "surplus"
                if rng.random() < 0.5:
                    send.append(rng.choice([None, 1, b"x"]))
                else:
                    kw = {"more": 1}
            else:
                how = "unknown"
                call = rng.choice(NAMES)
            if rng.random() < 0.3 and not kw and how == "spoilt":
                send, kw = [], dict(zip(names, send))
            before = (s.disk(), len(s.spender.calls), s.metric(), advisories(s))
            w.seen[:] = []
            o = w.run(w.rref.callRemote, call, *send, _useSchema=False, **kw)
            mon.note(how, call, which)
            mon.check(o.done, "a request which the protocol does not admit is never answered", how, call, which)
            mon.equal([x.name for x in w.seen], [], "a request which the protocol does not admit reached the server (%s %s %s)" % (how, call, which))
            mon.check(o.failure is not None, "a request which the protocol does not admit is answered as if it were one", how, call, which)
            mon.equal((s.disk(), len(s.spender.calls), s.metric(), advisories(s)), before, "a request which the protocol does not admit had an effect (%s %s %s)" % (how, call, which))
            mon.event("refused-" + how)
            mon.sig(how, call, which, o.failure.type.__name__)
            if not w.link.up:
                mon.event("hung-up")
                w.connect()
            # Those who behave are still served.
            o = w.run(w.client.slot_readv, mu, [], [(0, 100)])
            mon.equal(o.value, {0: [b"old" * 10]}, "after a request which the protocol does not admit others are not served")
    finally:
        w.close()


def limits(rng, mon):
    """The declared number of passes is the limit, exactly; so is their length."""
    name = rng.choice(["allocate_buckets", "add_lease", "slot_testv_and_readv_and_writev"])
    w = NetWorld(rng, pass_value=1000)
    try:
        schema = RIPrivacyPassAuthorizedStorageServer[name]
        args = good_args(w, rng, name, b"s" * 16)
        args["canary"] = srv.Canary()
        rest = [args[a] for a in METHODS[name][1:]]
        p = args["passes"][0]
        for n, ok in [(0, True), (1, True), (2**20, True), (2**20 + 1, False), (2**21, False)]:
            try:
                schema.checkAllArgs([[p] * n] + rest, {}, True)
            except Violation:
                mon.check(not ok, "%d passes are refused" % n)
            else:
                mon.check(ok, "%d passes are admitted" % n)
            mon.event("counts")
        for n in (0, 1, 88, 176, 177, 178, 300):
            try:
                schema.checkAllArgs([[b"p" * n]] + rest, {}, True)
            except Violation:
                mon.check(n != 177, "a pass of the right length is refused")
            else:
                mon.check(n == 177, "a pass of a wrong length is admitted", n)
        # What the declarations say is what travels.
        names = METHODS[name]
        mon.equal(list(schema.argumentNames), names, "the parameters are not those of the protocol")
    finally:
        w.close()
    mon.sig(name)


# -- hostile replies ---------------------------------------------------------


class Fake(Referenceable):
    """Claims to be a storage server and answers what it likes."""

    def __init__(self, replies, seen):
        self.replies, self.seen = replies, seen

    def getInterface(self):
        return None

    def doRemoteCall(self, name, args, kwargs):
        self.seen.append((name, args))
        return self.replies[name]


class Writer(Referenceable):
    def getInterface(self):
        return None


class RealWriter(Referenceable):
    pass


class Straight(RemoteReference):
    """Hands over replies which no schema has seen."""

    def __init__(self, replies, seen):
        self.replies, self.seen = replies, seen
        self.tracker = srv.Tracker()

    def callRemote(self, name, *args, **kwargs):
        self.seen.append((name, args))
        return succeed(self.replies[name])


def replies(rng, mon):
    """A client raises what is not a reply of the right type instead of passing it on."""
    w = NetWorld(rng, pass_value=10)
    stat = ShareStat(10, 2 * 10**9)
    wrong = {
        "get_version": [None, 3, [], [(b"a", 1)], "x", b"x", {"a": 1}, {1: 2}, {b"a": 1, "b": 2}, {(b"x",): 1}],
        "allocate_buckets": [None, 3, [set(), {}], (set(),), (set(), {}, {}), (None, {}), (set(), None), ([1], {}), (set(), []), ({b"1"}, {}), (set(), {b"1": Writer()}), (set(), {1: None}), (set(), {0: b"x"}), ({}, {}), "xx", ({None}, {})],
        "get_buckets": [None, 3, [], "x", {b"1": None}, {"1": None}, {None: None}, [(1, None)], {(1,): None}],
        "share_sizes": [None, 3, [], [1], "x", {"1": 10}, {1: "10"}, {1: None}, {b"1": 10}, {1: 10.5}, {1: [10]}, {1: 10, 2: b"1"}],
        "stat_shares": [None, 3, {}, "x", [None], [[]], [{"1": stat}], [{1: None}], [{1: 10}], [{1: {"size": 10}}], [{b"1": stat}], ({1: stat},), [{1: stat, 2: (10, 20)}], {0: {1: stat}}, [{1: [stat]}]],
        "slot_testv_and_readv_and_writev": [None, 3, True, [True, {}], (True,), (True, {}, 1), (None, {}), (1, {}), ("True", {}), (True, None), (True, []), (True, {b"1": [b"x"]}), (True, {1: b"x"}), (True, {1: None}),
                                            (True, {1: ["x"]}), (True, {1: [b"x", None]}), (True, {1: (b"x",)}), (False, {1: [1]})],
        "slot_readv": [None, 3, [], "x", {b"1": [b"x"]}, {1: b"x"}, {1: ["x"]}, {1: None}, {1: [None]}, {1: (b"x",)}, {1: [b"x", 1]}, {"1": []}],
    }
    right = {
        "get_version": [{}, {b"a": 1, b"b": {b"c": "d"}}],
        "allocate_buckets": [(set(), {}), ({0, 3}, {})],
        "get_buckets": [{}],
        "share_sizes": [{}, {1: 10}, {0: 0, 255: 2**40}],
        "stat_shares": [[{}], [{0: stat}]],
        "slot_testv_and_readv_and_writev": [(True, {}), (False, {1: [b"x", b""]}), (True, {0: []})],
        "slot_readv": [{}, {1: [b"x", b""]}, {0: []}],
    }
    try:
        w.buy(60)
        seen = []
        # The operation during which this reply arrives.
        si = b"s" * 16
        ops = {
            "get_version": lambda c: c.get_version(),
            "allocate_buckets": lambda c: c.allocate_buckets(si, SECRETS[1], SECRETS[2], {0, 1}, 15, _Canary()),
            "get_buckets": lambda c: c.get_buckets(si),
            "share_sizes": lambda c: c.add_lease(si, SECRETS[1], SECRETS[2]),
            "stat_shares": lambda c: rng.choice([lambda: c.stat_shares([si]), lambda: c.slot_testv_and_readv_and_writev(si, SECRETS, {0: ([], [(0, b"x" * 25)], None)}, [])])(),
            "slot_testv_and_readv_and_writev": lambda c: c.slot_testv_and_readv_and_writev(si, SECRETS, {0: ([], [(0, b"x" * 25)], None)}, []),
            "slot_readv": lambda c: c.slot_readv(si, [], []),
        }
        base = {name: right[name][0] for name in right}
        base["add_lease"] = None
        for n in range(rng.randrange(8, 16)):
            name = rng.choice(sorted(ops))
            table = dict(base)
            bad = rng.random() < 0.75
            reply = table[name] = rng.choice((wrong if bad else right)[name])
            if name == "share_sizes" and not bad and sum(reply.values()) > 1000:
                w.buy(1)
            straight = bad and name not in ("allocate_buckets", "slot_readv") and rng.random() < 0.5
            if bad and straight and name == "slot_testv_and_readv_and_writev" and isinstance(reply, tuple) and len(reply) != 2:
                straight = False
            good_rref = w.rref
            unspent = w.db.unspent()
            del seen[:]
            if straight:
                w.rref = Straight(table, seen)
            else:
                w.rref = w.link.reference(Fake(table, seen), INTERFACE, "pb://" + "abcd" * 8 + "@127.0.0.1:1/y")
            o = w.run(lambda: ops[name](w.client))
            w.rref = good_rref
            mon.note(name, repr(reply)[:80], "straight" if straight else "wire", repr(o.failure and o.failure.value)[:200])
            mon.check(o.done, "an operation never ends", name, repr(reply))
            mon.check([s for s in seen if s[0] == name], "an operation does not ask the server", name)
            if bad:
                mon.check(o.failure is not None, "a reply of the wrong type is passed on", name, repr(reply), repr(o.value))
                mon.equal(w.db.unspent(), unspent, "a reply of the wrong type cost tokens (%s %r)" % (name, reply))
                mon.event("refused-replies" if not straight else "refused-unseen")
                mon.sig("bad", name, repr(reply)[:60], straight)
            else:
                big = name == "share_sizes" and sum(reply.values()) > 1000
                if big:
                    mon.check(o.failure is not None, "an unaffordable lease was renewed")
                else:
                    mon.check(o.failure is None, "a proper reply is refused", name, repr(reply), repr(o.failure))
                    if name not in ("share_sizes", "stat_shares"):
                        mon.equal(plain(o.value), plain(reply), "a reply is passed on as something else")
                mon.event("proper-replies")
                mon.sig("good", name, repr(reply)[:60])
            mon.equal(cli.available(w.store), w.db.unspent(), "tokens stay held when nothing is in progress")
            if not w.link.up:
                mon.event("hung-up")
                w.connect()
    finally:
        w.close()


OTHER = [None, "", "RIStorageServer.tahoe.allmydata.com", "RIPrivacyPassAuthorizedStorageServer.tahoe.privatestorage.io ", "RIPrivacyPassAuthorizedStorageServer.tahoe.privatestorage.iO", "RIBucketWriter.tahoe.allmydata.com",
         "RIPrivacyPassAuthorizedStorageServer", "ripp", "X" + INTERFACE, INTERFACE + "2", INTERFACE.lower(), INTERFACE + " "]


def strangers(rng, mon):
    """A reference to anything but an authorizing storage server is not used."""
    w = NetWorld(rng, pass_value=10)
    try:
        w.buy(20)
        unspent = w.db.unspent()
        name = rng.choice(OTHER)
        w.link.settle()
        seen = []
        w.rref = w.link.reference(Fake({}, seen), INTERFACE, "pb://" + "abcd" * 8 + "@127.0.0.1:1/z")
        w.rref.tracker.interfaceName = name
        sent = w.link.bytes
        si = b"s" * 16
        ops = [
            ("get_version", lambda c: c.get_version()),
            ("allocate_buckets", lambda c: c.allocate_buckets(si, SECRETS[1], SECRETS[2], {0, 1}, 15, _Canary())),
            ("get_buckets", lambda c: c.get_buckets(si)),
            ("add_lease", lambda c: c.add_lease(si, SECRETS[1], SECRETS[2])),
            ("stat_shares", lambda c: c.stat_shares([si])),
            ("slot_testv_and_readv_and_writev", lambda c: c.slot_testv_and_readv_and_writev(si, SECRETS, {0: ([], [(0, b"x" * 25)], None)}, [])),
            ("slot_readv", lambda c: c.slot_readv(si, [], [])),
            ("advise_corrupt_share", lambda c: c.advise_corrupt_share(b"mutable", si, 0, b"x")),
            ("get_lease_seed", lambda c: c.get_lease_seed()),
        ]
        for op, f in ops:
            o = w.run(lambda: f(w.client))
            mon.check(o.done, "an operation on a stranger never ends", op)
            mon.check(o.failure is not None and o.failure.check(IncorrectStorageServerReference), "a reference to something else is used as a storage server", op, name, repr(o.failure or o.value))
            e = o.failure.value
            mon.equal((e.actual_name, e.expected_name), (name, INTERFACE), "the refusal of a reference names other interfaces")
            mon.event("strangers")
        mon.equal(seen, [], "a stranger was asked something")
        mon.equal(w.db.unspent(), unspent, "a stranger cost tokens")
        mon.equal(cli.available(w.store), unspent, "tokens stay held when nothing is in progress")
        mon.sig(name)
    finally:
        w.close()


SCENARIOS = [
    Scenario("agree", agree, quick=64, thorough=1200,
             needs=["op-allocate_buckets", "huge", "op-bucket-write", "op-bucket-close", "op-bucket-abort", "op-get_buckets", "op-bucket-read", "op-slot_testv_and_readv_and_writev", "op-slot_readv",
                    "op-add_lease", "op-stat_shares", "op-advise_corrupt_share", "op-get_version", "failed-alike", "reconnected", "many-passes", "many-indexes"]),
    Scenario("hostile", hostile, quick=120, thorough=2500, needs=["refused-spoilt", "refused-missing", "refused-surplus", "refused-unknown"]),
    Scenario("limits", limits, quick=8, thorough=20, needs=["counts"]),
    Scenario("replies", replies, quick=120, thorough=2500, needs=["refused-replies", "refused-unseen", "proper-replies"]),
    Scenario("strangers", strangers, quick=24, thorough=100, needs=["strangers"]),
]
