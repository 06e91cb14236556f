"""Lease maintenance renews every reachable due share once and accounts for it."""

import json
import os
import random
import time
from datetime import datetime, timedelta

from allmydata.client import SecretHolder
from allmydata.interfaces import IDirectoryNode, IFilesystemNode
from allmydata.util.base32 import a2b, b2a
from allmydata.util.hashutil import bucket_renewal_secret_hash, file_renewal_secret_hash
from twisted.internet.defer import Deferred, fail, maybeDeferred, succeed
from twisted.internet.interfaces import IReactorTime
from twisted.internet.task import Clock
from twisted.python import log as twisted_log
from zope.interface import implementer

from _zkapauthorizer._storage_client import ZKAPAuthorizerStorageClient
from _zkapauthorizer.lease_maintenance import maintain_leases_from_root
from _zkapauthorizer.model import UnblindedToken
from _zkapauthorizer.resource import from_configuration
from vz import cli, ppass, realgrid, srv, web
from vz.core import Scenario, Violated, scratch_dir

PROPERTY = "C16"
LEVEL = "exploration"
RULE = (
    "Real maintenance runs of the real storage client with real passes against up to three real storage servers in scratch directories, over random "
    "graphs of directories and files: shared and repeated nodes, cycles, literals, read-only aliases, several roots, directories that cannot be read; "
    "shares with leases of every age from this client and others; servers which fail, hang up half-way, speak no passes or are not connected. "
    "Every lease on disk before and after, every call to a server, every token and the recorded activity are compared with what the graph, the clock "
    "and the price say. Distinct by shape of graph, servers and outcome."
)
ASSUMPTIONS = ["a lease whose remaining time crosses the configured minimum during the run itself may or may not be renewed"]

MONTH = srv.MONTH


@implementer(IFilesystemNode)
class File:
    def __init__(self, si, uri):
        self.si, self.uri = si, uri

    def get_storage_index(self):
        return self.si

    def get_uri(self):
        return self.uri

    def is_unknown(self):
        return self.uri.startswith(b"x-")


@implementer(IDirectoryNode)
class Directory(File):
    def __init__(self, world, si, uri, shared):
        File.__init__(self, si, uri)
        self.world, self.shared = world, shared
        self.listed = 0

    def list(self):
        self.listed += 1
        self.world.listings += 1
        if self.world.listings > self.world.too_many:
            raise Violated("the traversal does not end: %d directories have been listed, there are %d nodes" % (self.world.listings, len(self.world.nodes)))
        how = self.shared.get("broken")
        if how == "raises":
            raise RuntimeError("cannot list")
        if how == "fails":
            return self.world.soon(lambda: fail(RuntimeError("not enough shares")))
        children = {name: (node, {}) for name, node in self.shared["children"].items()}
        return self.world.soon(lambda: succeed(children))


class Server:
    """One connected storage server of the client."""

    def __init__(self, world, n):
        self.world = world
        rng = world.rng
        self.w = srv.World(rng, pass_value=world.pv, clock=world.clock, key=world.key)
        self.tub = b2a(bytes(rng.randrange(256) for _ in range(20))).decode()
        self.seed = a2b(self.tub.encode())
        self.mode = rng.choice(["good"] * 6 + ["stat-fails", "dies", "lease-fails", "foreign", "disconnected", "unreadable"]) if world.faults else "good"
        self.left = rng.randrange(1, 12)
        self.fail_si = None
        self.bad_si = self.bad_file = self.bad_bytes = None
        self.asked = []
        self.renewed = []
        self.wire = srv.Wire(self.w.server, self.before, tub=self.tub)
        self.client = ZKAPAuthorizerStorageClient(world.pv, lambda: self.wire, cli.spending(world.store).get, world.clock)

    # -- as seen by the client node --

    def get_storage_server(self):
        if self.mode == "foreign":
            return object()
        if self.mode == "disconnected":
            return None
        return self.client

    def get_lease_seed(self):
        return self.seed

    def get_serverid(self):
        return b"v0-" + self.tub.encode()

    get_name = get_longname = get_serverid

    def is_connected(self):
        return True

    def before(self, name, args, kwargs):
        if name == "stat_shares":
            self.asked.append(list(args[0]))
        if name == "add_lease":
            self.renewed.append(args[1])
        if self.mode == "stat-fails" and name == "stat_shares":
            return self.world.soon(lambda: fail(RuntimeError("stat fails")))
        if self.mode == "dies":
            self.left -= 1
            if self.left < 0:
                return self.world.soon(lambda: fail(ConnectionError("gone")))
        if self.mode == "lease-fails" and name == "add_lease" and args[1] == self.fail_si:
            return self.world.soon(lambda: fail(RuntimeError("no lease for you")))
        return self.world.soon(lambda: self.wire.forward(name, args, kwargs))

    def spoil(self):
        """Damage the header of one of the shares."""
        rng = self.world.rng
        stored = [si for si in self.world.sis if self.w.shares(si)]
        if not stored:
            return
        self.bad_si = rng.choice(stored)
        d = self.w.share_dir(self.bad_si)
        self.bad_file = os.path.join(d, rng.choice(sorted(n for n in os.listdir(d) if n.isdigit())))
        with open(self.bad_file, "rb+") as f:
            if rng.random() < 0.5:
                f.truncate(rng.randrange(12))
            else:
                f.write(rng.choice([b"\0\0\0\x09", b"\xff" * 12, b"\0" * 12]))
            f.seek(0)
            self.bad_bytes = f.read()

    def unspoiled(self):
        if self.bad_file:
            with open(self.bad_file, "rb") as f:
                return f.read() == self.bad_bytes
        return True

    def secret(self, si):
        return bucket_renewal_secret_hash(file_renewal_secret_hash(self.world.secrets.get_renewal_secret(), si), self.seed)


class World:
    def __init__(self, rng, mon, faults):
        self.rng, self.mon, self.faults = rng, mon, faults
        self.clock = srv.NodeReactor()
        self.clock.advance(1_600_000_000 + rng.randrange(10_000_000))
        self.key = ppass.signing_key()
        self.pool = ppass.Pool(self.key, 64)
        self.pv = rng.choice([7, 100, 1000])
        self.raw, _, self.store = cli.open_client_store(scratch_dir() + "/db.sqlite3", self.when, self.pv)
        self.web = web.Server(
            from_configuration(web.node_config(scratch_dir(), {}, {"ristretto-issuer-root-url": "https://issuer.invalid/", "allowed-public-keys": "a" * 44}), self.store, None, None, web.NeverRedeemer(rng), Clock()),
            Clock(),
        )
        self.db = cli.Reader(self.raw.execute("PRAGMA database_list").fetchall()[0][2])
        self.secrets = SecretHolder(b"lease secret %d" % rng.randrange(1000), b"convergence")
        self.delay = rng.choice([0, 0, 0, 1, 5])
        self.calls = 0
        self.listings = 0
        self.too_many = 10 ** 9
        self.graph()
        self.servers = [Server(self, n) for n in range(rng.choice([0, 1, 1, 2, 2, 3]))]
        self.seed()

    def when(self):
        return cli.EPOCH.replace(year=1970) + timedelta(seconds=self.clock.seconds())

    def soon(self, f):
        """The answer, now or after a while."""
        if not self.delay or self.rng.random() < 0.5:
            return f()
        d = Deferred()
        d.addCallback(lambda _: f())
        self.clock.callLater(self.rng.randrange(self.delay + 1), d.callback, None)
        return d

    # -- what is stored --

    def reported(self):
        """What the HTTP interface says about lease maintenance."""
        r = self.web.request(b"GET", web.PREFIX + b"/lease-maintenance", token=b"token-for-tests")
        self.mon.equal((r.code, r.type), (200, b"application/json"), "lease maintenance is not reported")
        value = r.json()
        spending = value.get("spending", value.get("lease-maintenance-spending"))
        total = value.get("total", value.get("spendable"))
        self.mon.event("reports-judged")
        return total, spending and (datetime.fromisoformat(spending["when"]), spending["count"])

    def check_reported(self, activity):
        want = (len(cli.available(self.store)), activity and (activity.finished, activity.passes_required))
        self.mon.equal(self.reported(), want, "the HTTP interface does not report the last finished run, or the spendable tokens")

    def new_si(self):
        return bytes(self.rng.randrange(256) for _ in range(16))

    def graph(self):
        rng = self.rng
        self.nodes = []
        n = rng.choice([1, 3, 8, 8, 15, 30])
        for i in range(n):
            kind = rng.choice(["dir"] * 3 + ["file"] * 4 + ["lit", "unknown", "alias", "litdir"])
            si = self.new_si()
            if kind == "dir" or i == 0:
                self.nodes.append(Directory(self, si, b"URI:DIR2:%d" % i, {"children": {}}))
            elif kind == "file":
                self.nodes.append(File(si, b"URI:CHK:%d" % i))
            elif kind == "lit":
                self.nodes.append(File(None, b"URI:LIT:%d" % i))
            elif kind == "unknown":
                self.nodes.append(File(None, b"x-unknown:%d" % i))
            elif kind == "litdir":
                self.nodes.append(Directory(self, None, b"URI:DIR2-LIT:%d" % i, {"children": {}}))
            else:
                other = rng.choice(self.nodes)
                if isinstance(other, Directory):
                    self.nodes.append(Directory(self, other.si, b"URI:DIR2-RO:%d" % i, other.shared))
                else:
                    self.nodes.append(File(other.si, other.uri))
        dirs = [d for d in self.nodes if isinstance(d, Directory)]
        names = ["a", "A", "ä", "", ".", "..", "a/b", "☃", "x" * 50, "%2f", " "] + ["n%d" % i for i in range(40)]
        shape = rng.choice(["tree", "dag", "any", "any"])
        for j, node in enumerate(self.nodes[1:], 1):
            if rng.random() < 0.12:
                continue
            parents = [d for d in dirs if d.si is not None and (shape == "any" or self.nodes.index(d) < j)] or [self.nodes[0]]
            for _ in range(1 if shape == "tree" else rng.choice([1, 1, 2, 3])):
                rng.choice(parents).shared["children"][rng.choice(names)] = node
        if shape == "any":
            for d in dirs:
                if d.si is not None and rng.random() < 0.3:
                    d.shared["children"][rng.choice(names)] = rng.choice(dirs)
                    self.mon.event("back-edges")
        if self.faults:
            for d in dirs:
                if rng.random() < 0.15:
                    d.shared["broken"] = rng.choice(["raises", "fails"])
                    self.mon.event("broken-directories")
        self.roots = [self.nodes[0]] + [rng.choice(self.nodes) for _ in range(rng.choice([0, 0, 1, 2]))]
        if rng.random() < 0.05:
            self.roots = []
        self.mon.sig(shape, n, len(self.roots))

    def reachable(self):
        seen, out = set(), set()
        stack = list(self.roots)
        while stack:
            node = stack.pop()
            if id(node) in seen:
                continue
            seen.add(id(node))
            if node.si is not None:
                out.add(node.si)
            if isinstance(node, Directory) and "broken" not in node.shared:
                stack.extend(node.shared["children"].values())
        return out

    def seed(self):
        """Shares with leases of every age."""
        rng = self.rng
        sis = {n.si for n in self.nodes if n.si is not None} | {self.new_si()}
        self.sis = sorted(sis)
        jobs = [(server, si) for server in self.servers for si in self.sis if rng.random() < 0.75]
        rng.shuffle(jobs)
        mutable = {si: rng.random() < 0.4 for si in self.sis}
        for server, si in jobs:
            if rng.random() < 0.5:
                self.clock.advance(rng.randrange(MONTH // 4))
            owners = [server.secret(si)]
            if rng.random() < 0.4:
                owners.append(b"z" * 32)
            rng.shuffle(owners)
            for num in rng.sample(range(5), rng.choice([1, 1, 2, 3])):
                size = rng.choice([0, 1, self.pv - 1, self.pv, self.pv + 1, rng.randrange(3 * self.pv)])
                backend = server.w.backend
                if mutable[si]:
                    backend.slot_testv_and_readv_and_writev(si, (b"w" * 32, owners[0], owners[0]), {num: ([], [(0, b"m" * size)], None)}, [], renew_leases=rng.random() < 0.95)
                else:
                    _, writers = backend.allocate_buckets(si, owners[0], owners[0], {num}, size, renew_leases=False)
                    for w in writers.values():
                        if size:
                            w.write(0, b"i" * size)
                        w.close()
                if rng.random() < 0.3:
                    # The shares of one storage index differ in age.
                    self.clock.advance(rng.randrange(MONTH // 8))
            for o in owners[1:]:
                if rng.random() < 0.5:
                    self.clock.advance(rng.randrange(MONTH // 8))
                backend.add_lease(si, o, o)
            server.fail_si = si
        for server in self.servers:
            if server.mode == "unreadable":
                server.spoil()
        self.mon.event("shares-seeded", len(jobs))

    def look(self, server):
        """{si: {sharenum: (size, data, {secret known: expiry})}}"""
        server.w.sis = self.sis
        out = {}
        for si in self.sis:
            if si == server.bad_si:
                continue
            server.w.secrets = [server.secret(si), b"z" * 32]
            shares = server.w.shares(si)
            if shares:
                out[si] = {n: (s.size, s.data, sorted(s.leases)) for n, s in shares.items()}
        return out

    def stock(self, n):
        tokens = [UnblindedToken(t.encode_base64()) for t in self.pool.take(n)]
        if tokens:
            cli.stock(self.store, self.rng, tokens)

    def run(self, minimum):
        def now():
            return datetime.utcfromtimestamp(self.clock.seconds())

        world = self

        class Broker:
            def get_connected_servers(self):
                return list(world.servers)

        operation = maintain_leases_from_root(lambda: list(self.roots), Broker(), self.secrets, timedelta(seconds=minimum), self.store.start_lease_maintenance, now)
        self.listings = 0
        self.too_many = 3 * sum(1 for n in self.nodes if isinstance(n, Directory)) + len(self.roots) + 10
        previous = self.store.get_latest_lease_maintenance_activity()
        self.check_reported(previous)
        out = cli.Outcome(Deferred.fromCoroutine(operation()))
        for _ in range(100000):
            if out.done:
                break
            self.mon.equal(self.store.get_latest_lease_maintenance_activity(), previous, "a run under way is reported as the latest activity")
            if self.rng.random() < 0.02:
                self.mon.equal(self.reported()[1], previous and (previous.finished, previous.passes_required), "the HTTP interface reports a run under way")
            if not self.clock.getDelayedCalls():
                break
            self.clock.advance(1)
        if not out.done:
            raise Violated("a maintenance run never ends")
        return out


def price(pv, look):
    return sum(srv.ceil_passes(pv, [s[0] for s in shares.values()]) for shares in look)


def one_run(w, mon, minimum, enough):
    before = [w.look(s) for s in w.servers]
    for s in w.servers:
        s.asked, s.renewed = [], []
    unspent = w.db.unspent() | w.db.invalid()
    w.spent_before = {s: len(s.w.spender.calls) for s in w.servers}
    start = w.clock.seconds()
    started = w.when()
    out = w.run(minimum)
    end = w.clock.seconds()
    mon.check(out.ok, "a maintenance run fails", out.failure)
    after = [w.look(s) for s in w.servers]
    reachable = w.reachable()
    cost = 0
    renewals = 0
    observed = 0
    for server, b, a in zip(w.servers, before, after):
        mon.equal({si: {n: s[:2] for n, s in v.items()} for si, v in a.items()}, {si: {n: s[:2] for n, s in v.items()} for si, v in b.items()}, "a maintenance run changes shares")
        for asked in server.asked:
            mon.check(all(isinstance(x, bytes) and len(x) == 16 for x in asked), "a server is asked about something without a storage index", asked)
        asked = sorted(x for q in server.asked for x in q)
        if server.mode in ("good", "lease-fails"):
            mon.equal(asked, sorted(reachable), "a server is not asked about exactly the reachable storage indexes, each once")
            observed += price(w.pv, [b[si] for si in reachable if si in b])
        elif server.mode in ("foreign", "disconnected"):
            mon.equal(asked, [], "an unusable server is used")
        elif server.mode == "unreadable":
            mon.equal(set(asked), reachable, "a server is not asked about exactly the reachable storage indexes")
            mon.check(server.unspoiled(), "a maintenance run changes a share which cannot be read")
            observed += price(w.pv, [b[si] for si in reachable if si in b])
            if server.bad_si in reachable:
                mon.event("unreadable-reached")
        elif server.mode == "stat-fails":
            mon.check(set(asked) <= reachable, "a server is asked about other storage indexes")
        else:
            mon.check(set(asked) <= reachable, "a server is asked about other storage indexes")
        mon.event("server-" + server.mode)
        for si in b:
            leases = lambda look: {n: s[2] for n, s in look[si].items()}
            changed = leases(a) != leases(b)
            soonest = min(max([e for _, e in s[2]] or [0]) for s in b[si].values())
            remaining = [soonest - end, soonest - start]
            if si not in reachable:
                mon.check(not changed, "a lease on something unreachable is changed", leases(b), leases(a))
                mon.event("unreachable-judged")
                continue
            if max(remaining) < minimum:
                due = True
            elif min(remaining) >= minimum and not (min(remaining) == minimum):
                due = False
            else:
                mon.event("borderline")
                if changed:
                    cost += price(w.pv, [b[si]])
                continue
            if not due:
                mon.check(not changed, "a lease which is not due is changed", "remaining", remaining, "minimum", minimum, leases(b), leases(a))
                mon.event("not-due-judged")
                continue
            must = server.mode in ("good", "unreadable") or (server.mode == "lease-fails" and si != server.fail_si)
            if must and enough:
                mon.check(changed or all(any(s == b"0" and e >= start + MONTH for s, e in l) for l in leases(a).values()), "a lease which is due is not renewed", "remaining", remaining, "minimum", minimum, leases(b), server.mode)
                mon.event("due-judged")
            if changed or (must and price(w.pv, [b[si]]) == 0 and si in server.renewed):
                renewals += 1
                cost += price(w.pv, [b[si]])
                for n, l in leases(a).items():
                    mine = [e for s, e in l if s == b"0"]
                    mon.check(len(mine) == 1 and start + MONTH <= mine[0] <= end + MONTH, "the renewed lease is not this client's lease for a month from now", l, start, end)
                    mon.equal([x for x in l if x[0] != b"0"], [x for x in leases(b)[n] if x[0] != b"0"], "renewing changes the leases of others")
        mon.check(len(set(server.renewed)) == len(server.renewed) or server.mode == "dies", "a lease is renewed twice in one run", len(server.renewed))
    gone = unspent - w.db.unspent() - w.db.invalid()
    if w.faults:
        # A failing call may or may not have been paid for.
        extra = sum(price(w.pv, [before[i][s.fail_si]]) for i, s in enumerate(w.servers) if s.mode == "lease-fails" and s.fail_si in before[i])
        mon.check(cost <= len(gone) <= cost + extra or any(s.mode == "dies" for s in w.servers), "a maintenance run spends other passes than the renewals cost", len(gone), cost)
    else:
        mon.equal(len(gone), cost, "a maintenance run spends other passes than the renewals cost")
    activity = w.store.get_latest_lease_maintenance_activity()
    mon.check(activity is not None, "a finished run is not reported as the latest activity")
    mon.equal((activity.started, activity.finished), (started, w.when()), "the recorded times of a run are wrong")
    w.check_reported(activity)
    if all(s.mode in ("good", "lease-fails", "foreign", "disconnected", "stat-fails", "unreadable") for s in w.servers):
        mon.equal(activity.passes_required, observed, "the recorded activity is not what the shares seen cost")
        mon.event("activity-judged")
    mon.note("run", "nodes", len(w.nodes), "reachable", len(reachable), "servers", [s.mode for s in w.servers], "minimum", minimum, "renewals", renewals, "passes", len(gone), "recorded", activity.passes_required)
    mon.event("runs")
    mon.event("renewals", renewals)
    return renewals


def maintain(rng, mon, faults=False):
    w = World(rng, mon, faults)
    every = sum(price(w.pv, w.look(s).values()) for s in w.servers)
    enough = not faults or rng.random() < 0.8
    w.stock(2 * every + 5 if enough else rng.randrange(every // 3 + 1))
    if not enough:
        mon.event("runs-short-of-passes")
    w.clock.advance(rng.choice([0, 1, MONTH // 3, MONTH, 2 * MONTH]))
    minimum = rng.choice([0, 0, 1, 86400, MONTH // 4, MONTH // 2, MONTH - 5000])
    if rng.random() < 0.2 and w.servers:
        # One lease expires exactly then.
        s = rng.choice(w.servers)
        ends = [e for si, v in w.look(s).items() for sh in v.values() for _, e in sh[2] if e - minimum > w.clock.seconds()]
        if ends:
            w.clock.advance(min(ends) - minimum - w.clock.seconds() + rng.choice([-1, 0, 1]) if min(ends) - minimum - w.clock.seconds() >= 1 else 0)
            mon.event("boundaries")
    n = one_run(w, mon, minimum, enough)
    mon.sig(len(w.servers), n, minimum, enough, [s.mode for s in w.servers])
    if rng.random() < 0.5:
        # Once more: what has been renewed is not due again.
        w.clock.advance(rng.choice([1, 60, 3600]))
        n = one_run(w, mon, minimum, enough)
        if not faults and enough:
            mon.event("second-runs")


def big(rng, mon):
    """Very many files, few of which have shares."""
    w = World(rng, mon, False)
    n = rng.choice([1003, 2500])
    folders = [Directory(w, w.new_si(), b"URI:DIR2:folder%d" % i, {"children": {}}) for i in range(1 + n // 400)]
    w.nodes[0].shared["children"].update({"folder%d" % i: f for i, f in enumerate(folders)})
    files = [File(w.new_si(), b"URI:CHK:many%d" % i) for i in range(n)]
    for f in files:
        rng.choice(folders).shared["children"]["f%d" % len(files) + f.uri.decode()] = f
    w.nodes += folders + files
    if not w.roots:
        w.roots = [w.nodes[0]]
    w.servers = w.servers[:1] or [Server(w, 0)]
    [s] = w.servers
    stored = rng.sample(files, 25)
    for f in stored:
        _, writers = s.w.backend.allocate_buckets(f.si, s.secret(f.si), s.secret(f.si), {0}, 10, renew_leases=False)
        for x in writers.values():
            x.write(0, b"i" * 10)
            x.close()
    w.sis = sorted(set(w.sis) | {f.si for f in stored})
    w.stock(2 * sum(price(w.pv, w.look(s).values()) for s in w.servers) + 5)
    w.clock.advance(rng.choice([0, MONTH]))
    one_run(w, mon, rng.choice([0, MONTH // 2, MONTH - 5000]), True)
    if w.nodes[0] in w.roots:
        mon.event("many-files")


DAY = 24 * 3600


def storage_indexes(c, mon, cap):
    """{storage index in base 32: whether it is a directory's} of what can be reached from there."""
    kind, node = json.loads(c.must(mon, "GET", "/uri/%s?t=json" % (cap,), None, "a listing")[0])
    out = {}
    if node.get("verify_uri"):
        # URI:CHK-Verifier:SI:..., URI:DIR2-Verifier:SI:...
        out[node["verify_uri"].split(":")[2]] = kind == "dirnode"
    if kind == "dirnode":
        for name, (kind, child) in node["children"].items():
            out.update(storage_indexes(c, mon, child.get("rw_uri") or child["ro_uri"]))
    return out


def grid(rng, mon):
    """Real processes do it by themselves."""
    pv = rng.choice([500, 4096])
    minimum = rng.choice([5, 20]) * DAY
    with realgrid.session(rng, mon, rng.choice([1, 2]), pv, 16 * 60) as g:
        c = realgrid.Client(g).start()
        mon.equal(c.buy(cli.voucher_number(rng).decode()), 200, "a voucher is not accepted")
        root = c.must(mon, "POST", "/uri?t=mkdir", None, "making a directory")[0].decode()
        dirs = [root]
        for _ in range(rng.randrange(4, 10)):
            data = bytes(rng.randrange(256) for _ in range(rng.choice([3, 60, 700, 5000])))
            where = "/uri/%s/%d" % (rng.choice(dirs), rng.randrange(10**6)) if rng.random() < 0.7 else "/uri"
            how = rng.choice(["", "", "?format=SDMF", "?format=MDMF", "dir"])
            g.touch()
            if how == "dir":
                if where != "/uri":
                    dirs.append(c.must(mon, "POST", where + "?t=mkdir", None, "making a directory")[0].decode())
            else:
                c.must(mon, "PUT", where + how, data, "an upload")
        reachable = storage_indexes(c, mon, root)
        rng.choice([c.kill, c.stop])()
        total = len(c.db.spendable())
        # What was on its way to the servers arrives.
        then = None
        while then != g.look():
            realgrid.patience()
            then = g.look()
            time.sleep(0.5)
        now = int(time.time())
        skip = [None] * len(g.servers)
        look, due, cost, everything = [], [], 0, 0
        for i, s in enumerate(g.servers):
            before = s.shares()
            for si in sorted({si for si, _ in before}):
                some = [k for k in sorted(before) if k[0] == si]
                how = rng.choice(["due", "expired", "one", "not"])
                for k in some if how != "one" else some[:1]:
                    left = {"due": minimum - 600, "one": 60, "expired": -3 * DAY, "not": minimum + 3600}[how]
                    s.age(k, now + left)
            files = sorted(k for k in before if not reachable.get(k[0]))
            if files and rng.random() < 0.3:
                # A damaged share concerns nothing but itself.
                k = rng.choice(files)
                with open(s.path(k), "rb+") as f:
                    f.write(b"\xff" * 40)
                skip[i] = k[0]
                mon.event("grid-damaged-shares")
            before = s.shares(skip[i])
            ends = {}
            for (si, num), (kind, size, leases) in before.items():
                mon.check(len(leases) == 1, "one client has several leases on a share", leases)
                ends.setdefault(si, []).append(leases[0])
            due.append({si for si, e in ends.items() if si in reachable and min(e) - now < minimum})
            passes = lambda sis: sum(srv.ceil_passes(pv, [v[1] for k, v in before.items() if k[0] == si]) for si in sis)
            cost += passes(due[i])
            everything += passes({si for si, _ in before if si in reachable})
            look.append(before)
        mon.note("reachable", len(reachable), "stored", [len(b) for b in look], "due", [len(d) for d in due], "cost", cost)
        c.set_rootcap(root)
        c.options({"lease.min-time-remaining": str(minimum), "lease.crawl-interval.mean": "6", "lease.crawl-interval.range": "2"})
        c.start()

        def runs(n):
            """Wait for that many runs more to have ended."""
            ended, last = 0, c.report()[1]
            while ended < n:
                realgrid.patience()
                time.sleep(0.3)
                g.touch()
                if not c.connected():
                    raise realgrid.Unavailable("a server is not connected")
                new = c.report()[1]
                if new != last:
                    ended, last = ended + 1, new
            return last

        # The first one may have begun before there were connections.
        last = runs(3)
        ended = time.time()
        after = [s.shares(x) for s, x in zip(g.servers, skip)]
        for i in range(len(g.servers)):
            mon.equal({k: v[:2] for k, v in after[i].items()}, {k: v[:2] for k, v in look[i].items()}, "a maintenance run changes shares")
            for k in look[i]:
                [b], a = look[i][k][2], after[i][k][2]
                if k[0] in due[i]:
                    mon.check(len(a) == 1 and now + MONTH <= a[0] <= ended + MONTH, "a lease which is due is not renewed for a month", k, b - now, a, now)
                    mon.event("grid-due-judged")
                else:
                    mon.equal(a, [b], "a lease which is not due or not reachable is changed")
                    mon.event("grid-others-judged")
        for _ in range(50):
            if total - c.report()[0] == cost:
                break
            time.sleep(0.2)
        mon.equal(total - c.report()[0], cost, "maintenance runs spend other passes than the renewals cost")
        mon.equal(last["count"], everything, "the recorded activity is not what the shares seen cost")
        mon.sig(len(reachable), [len(d) for d in due], cost)
        mon.event("grid-runs-judged")


def faulty(rng, mon):
    maintain(rng, mon, True)


SCENARIOS = [
    Scenario("maintain", maintain, quick=70, thorough=2500, needs=["due-judged", "not-due-judged", "unreachable-judged", "back-edges", "activity-judged", "second-runs"]),
    Scenario("big", big, quick=6, thorough=60, needs=["many-files", "due-judged"]),
    Scenario("faulty", faulty, quick=100, thorough=3500, needs=["due-judged", "broken-directories", "server-stat-fails", "server-dies", "server-lease-fails", "server-foreign", "server-disconnected", "unreadable-reached", "runs-short-of-passes"]),
    Scenario("grid", grid, 2, 60, timeout=400),
]
