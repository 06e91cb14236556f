"""A token bought from an issuer buys storage on that issuer's servers."""

import json
import os
import time
from base64 import b64decode, b64encode

from foolscap.api import Referenceable
from twisted.internet.defer import maybeDeferred

from _zkapauthorizer.storage_common import MorePassesRequired
from vz import cli, foolnet, issuer, ppass, realgrid, srv, web, webapi
from vz.core import Scenario, scratch_dir
from vz.netcli import INTERFACE, Seen
from vz.plug import Net, cooperating, make_plugin

PROPERTY = "C25"
LEVEL = "exploration"
RULE = (
    "Whole chains on virtual networks: a client node made by the plugin from its configuration, an issuer with real keys reached over real HTTP which "
    "grants, fails, loses connections or signs with another key, and storage servers made by the plugin from theirs, reached over real Foolscap "
    "connections. Vouchers are submitted to the client's web interface and the tokens spent by random storage operations whose data is read back, across "
    "restarts of the client. Monitors verify every pass on the wire with the Ristretto library alone, present each again in other requests and to a server "
    "with another key, and search everything the issuer ever received or sent for any part of any pass. Distinct by the sequence of operations."
)
ASSUMPTIONS = ["a pass presented a second time for the same request is not judged: storage servers do not keep track of spent passes"]

ALLOCATE, LEASE, WRITE = "allocate_buckets", "add_lease", "slot_testv_and_readv_and_writev"
WINDOW = 10


class Server:
    """A storage server made by the plugin and the connection to it."""

    def __init__(self, chain, key, tub):
        rng = chain.rng
        self.chain, self.key, self.tub = chain, key, tub
        # The plugin gives its storage clients the real clock.
        self.w = srv.World(rng, pass_value=chain.pv, key=key, now=time.time())
        key_path = os.path.join(self.w.dir, "key")
        with open(key_path, "wb") as f:
            f.write(key.encode_base64() + rng.choice([b"", b"\n"]))
        plugin = make_plugin(self.w.clock)
        config = {"ristretto-issuer-root-url": chain.url, "ristretto-signing-key-path": key_path, "pass-value": str(chain.pv)}
        out = cli.Outcome(maybeDeferred(plugin.get_storage_server, config, lambda: self.w.backend))
        self.server, self.announcement = out.value.storage_server, out.value.announcement
        self._serve = self.server.doRemoteCall
        self.server.doRemoteCall = self._observe
        self.seen = []
        self.link = None
        self.connect()

    def _observe(self, name, args, kwargs):
        s = Seen(name, args, kwargs)
        self.seen.append(s)
        try:
            s.result = self._serve(name, args, kwargs)
        except Exception as e:
            s.error = e
            raise
        return s.result

    def connect(self):
        if self.link is not None:
            self.link.drop()
            self.link.settle()
        self.link = foolnet.Link(self.chain.rng, server_tub=self.tub * 8, beside=self.chain.link)
        self.rref = self.link.reference(self.server, INTERFACE, "pb://%s@127.0.0.1:1/x" % (self.tub * 8,))

    def run(self, f, *args, **kwargs):
        o = cli.Outcome(maybeDeferred(f, *args, **kwargs))
        self.link.settle()
        return o


class Chain:
    def __init__(self, rng, mon):
        self.rng, self.mon = rng, mon
        self.pv = rng.choice([1, 10, 100, 1000])
        self.url = "http://issuer.example/" + rng.choice(["", "at/"])
        self.key, self.other = ppass.signing_key(), ppass.signing_key()
        self.net = Net(rng)
        self.link = foolnet.Link(rng)
        self.a = Server(self, self.key, "abcd")
        self.b = Server(self, self.other, "bcde")
        self.count = rng.choice([16, 17, 20, 33, 50])
        self.basedir = scratch_dir()
        self.options = {
            "ristretto-issuer-root-url": self.url,
            "pass-value": str(self.pv),
            "default-token-count": str(self.count),
            "allowed-public-keys": ppass.public_key_text(self.key),
        }
        self.db = cli.Reader(os.path.join(self.basedir, "private", "privatestorageio-zkapauthz-v1.sqlite3"))
        self.issued = []  # bytes which the issuer received or sent
        self.vouchers = {}  # voucher -> key that signs for it
        self.passes = {}  # every pass on the wire -> (operation, storage index)
        self.have = 0  # genuine, spendable and unspent
        self.stored = {}  # storage index -> {share: data}
        self.slots = {}
        self.faults = rng.random() < 0.5
        self.connections = []
        self.boot()

    def close(self):
        self.link.close()

    def boot(self):
        for c in self.connections:
            c.close()
        del self.connections[:]
        for c in self.net.getDelayedCalls():
            c.cancel()
        del self.net.requests[:]
        self.plugin = make_plugin(self.net, self.connections)
        config = web.node_config(self.basedir, {}, self.options)
        with cooperating(self.net):
            self.root = self.plugin.get_client_resource(config)
        self.web = web.Server(self.root, self.net)
        self.clients = {x: self.plugin.get_storage_client(config, x.announcement, lambda x=x: x.rref) for x in (self.a, self.b)}

    def new_si(self):
        return bytes(self.rng.randrange(256) for _ in range(16))

    # -- buying --

    def http(self, method, path, value=None):
        body = b"" if value is None else json.dumps(value).encode("utf-8")
        headers = [] if value is None else [(b"Content-Type", b"application/json")]
        return self.web.request(method, web.PREFIX + path, headers=headers, body=body, token=b"token-for-tests")

    def state(self, voucher):
        return self.http(b"GET", b"/voucher/" + voucher.encode("ascii")).json()["state"]["name"]

    def buy(self):
        rng, mon = self.rng, self.mon
        voucher = cli.voucher_number(rng).decode("ascii")
        self.vouchers[voucher] = self.other if rng.random() < 0.15 else self.key
        with cooperating(self.net):
            r = self.http(b"PUT", b"/voucher", {"voucher": voucher})
            mon.check(r.code == 200, "a voucher is refused", r.raw[:200])
            restarts = 0
            for step in range(400):
                self.net.spin(lambda: self.net.requests, 300)
                if self.net.requests:
                    self.answer(self.net.requests.pop(0))
                    if self.faults and rng.random() < 0.03 and restarts < 3:
                        restarts += 1
                        self.boot()
                        mon.event("restarts-during-redemption")
                elif self.state(voucher) == "redeemed":
                    break
                else:
                    # The redemption failed for now: begin again.
                    self.http(b"PUT", b"/voucher", {"voucher": voucher})
                    if self.state(voucher) == "pending" or not self.net.getDelayedCalls():
                        self.boot()
                    self.net.advance(1)
        mon.equal(self.state(voucher), "redeemed", "a paid voucher is never redeemed")
        if self.vouchers[voucher] is self.key:
            self.have += self.count
            mon.event("bought")
        else:
            mon.event("sequestered")
        mon.equal(len(self.db.spendable()), self.have, "the number of tokens which the client can spend")

    def answer(self, request):
        rng = self.rng
        asked = json.loads(request.body)
        texts = asked["redeemTokens"]
        self.issued += [request.target, request.body, b64decode(asked["redeemVoucher"].replace("-", "+").replace("_", "/"))] + [b64decode(t) for t in texts]
        p = rng.random() if self.faults else 1.0
        if p < 0.06:
            self.mon.event("issuer-fails")
            reply = rng.choice([(500, b"oops"), (503, b"{}"), (400, json.dumps({"success": False, "reason": "unpaid"}).encode("ascii"))])
            request.conn.reply(webapi.response(rng, reply[0], "application/json", reply[1]))
            return
        granted = issuer.grant(self.vouchers[asked["redeemVoucher"]], texts)
        self.issued += [json.dumps(granted).encode("ascii"), b64decode(granted["proof"])] + [b64decode(t) for t in granted["signatures"]]
        raw = webapi.response(rng, 200, "application/json", json.dumps(granted).encode("ascii"))
        if p < 0.12:
            self.mon.event("replies-lost")
            raw = raw[: rng.randrange(len(raw))]
        request.conn.reply(raw)

    # -- spending --

    def message(self, name, si):
        return name.encode("ascii") + b" " + b64encode(si)

    def operation(self, server, name=None):
        """(name, storage index, price, what to do, what to do afterwards)"""
        rng, pv = self.rng, self.pv
        client = self.clients[server]
        most = self.have + 2
        name = name or rng.choice([ALLOCATE, ALLOCATE, LEASE, WRITE, WRITE])
        if name == LEASE and not self.stored:
            name = ALLOCATE
        if name == LEASE:
            si = rng.choice(sorted(self.stored))
            price = srv.ceil_passes(pv, [len(d) for d in self.stored[si].values()])
            return name, si, price, lambda: client.add_lease(si, b"r" * 32, rng.choice([b"c", b"d"]) * 32), None
        if name == ALLOCATE:
            si = self.new_si()
            shares = rng.randrange(1, 4)
            size = max(1, rng.randrange(1, max(2, min(most, 12) // shares + 1)) * pv - rng.choice([0, 0, 1, pv - 1]))
            data = {i: bytes(rng.randrange(256) for _ in range(16)) * (size // 16 + 1) for i in range(shares)}
            data = {i: d[:size] for i, d in data.items()}

            def store(result):
                self.mon.equal(sorted(result[1]), sorted(data), "not all shares that were paid for may be written")
                for num, ref in result[1].items():
                    for args in [("write", 0, data[num]), ("close",)]:
                        o = server.run(ref.callRemote, *args)
                        self.mon.check(o.done and o.failure is None, "storage that was paid for cannot be written", o.failure)
                self.stored[si] = data

            return name, si, srv.ceil_passes(pv, [size] * shares), lambda: client.allocate_buckets(si, b"r" * 32, b"c" * 32, set(range(shares)), size, Referenceable()), store
        old = rng.choice(sorted(self.slots)) if self.slots and rng.random() < 0.5 else None
        si = old or self.new_si()
        before = self.slots.get(si, {})
        shares = sorted(before) if before else list(range(rng.randrange(1, 4)))
        size = max(1, rng.randrange(1, max(2, min(most, 12) // len(shares) + 1)) * pv - rng.choice([0, 1, pv - 1]))
        piece = bytes(rng.randrange(256) for _ in range(16))
        data = (piece * (size // 16 + 1))[:size]
        after = {n: data + before.get(n, b"")[size:] for n in shares}
        price = srv.ceil_passes(pv, [len(d) for d in after.values()]) - srv.ceil_passes(pv, [len(d) for d in before.values()])
        renewed = price == 0 and bool(before)

        def store(result):
            self.mon.equal(result[0], True, "a write which was paid for is not made")
            self.slots[si] = after

        vectors = {n: ([], [(0, data)], None) for n in shares}
        return name, si, price, lambda: client.slot_testv_and_readv_and_writev(si, (b"w" * 32, b"r" * 32, b"c" * 32), vectors, []), store

    def observe(self, server, name, si):
        """Every pass that reached a server in this operation."""
        key_of_issuer = self.key
        calls = [s for s in server.seen if s.name in (ALLOCATE, LEASE, WRITE)]
        for s in calls:
            self.mon.equal(s.name, name, "another operation than the one asked for")
            for p in s.args[0]:
                self.mon.check(ppass.is_valid(key_of_issuer, p, self.message(name, si)), "a pass which the client sends is not valid for its request and its issuer's key", name)
                self.mon.check(p not in self.passes, "the same pass is sent twice")
                self.passes[p] = (name, si)
                self.mon.event("passes-verified")
        return calls

    def spend(self):
        rng, mon, server = self.rng, self.mon, self.a
        name, si, price, go, after = self.operation(server)
        if self.faults and rng.random() < 0.2:
            server.connect()
        del server.seen[:]
        o = server.run(go)
        mon.check(o.done, "an operation never ends", name)
        calls = self.observe(server, name, si)
        for s in calls:
            mon.check(not isinstance(s.error, MorePassesRequired), "a server of the issuer rejects passes made of tokens bought from it", s.error)
        mon.sig(name, price, o.failure is None)
        if price > self.have:
            mon.check(o.failure is not None and calls == [], "an operation which cannot be paid for is attempted", price, self.have)
            mon.event("unaffordable")
            return
        mon.check(o.failure is None, "tokens bought from the issuer do not buy storage on its server", name, price, self.have, o.failure)
        sent = sum(len(s.args[0]) for s in calls)
        mon.equal(sent, price, "the number of passes for %s" % (name,))
        if after is not None:
            after(o.value)
        self.have -= price
        mon.event("bought-" + name)
        mon.equal(len(self.db.spendable()), self.have, "the number of tokens left")

    def read_back(self):
        for si, shares in self.stored.items():
            o = self.a.run(self.clients[self.a].get_buckets, si)
            self.mon.check(o.done and o.failure is None, "shares cannot be found", o.failure)
            self.mon.equal(sorted(o.value), sorted(shares), "shares which were paid for are not there")
            for num, ref in o.value.items():
                r = self.a.run(ref.callRemote, "read", 0, len(shares[num]) + 1)
                self.mon.equal(r.value, shares[num], "a share which was paid for")
                self.mon.event("shares-read-back")
        for si, shares in self.slots.items():
            o = self.a.run(self.clients[self.a].slot_readv, si, [], [(0, 10 ** 6)])
            self.mon.equal(o.value, {n: [d] for n, d in shares.items()}, "a mutable object which was paid for")
            self.mon.event("slots-read-back")

    # -- where a pass must not be accepted --

    def misuse(self):
        """Passes which were made for something else."""
        rng, mon = self.rng, self.mon
        if not self.passes:
            return
        server = rng.choice([self.a, self.a, self.b])
        by_request = {}
        for p, r in self.passes.items():
            by_request.setdefault(r, []).append(p)
        (name, si), passes = rng.choice(sorted(by_request.items()))
        passes = list(passes)
        rng.shuffle(passes)
        n = len(passes)
        candidates = [(op, self.new_si()) for op in (ALLOCATE, WRITE)]
        if server is self.a:
            candidates += [(LEASE, s) for s in self.stored]
            # The same object, another kind of request.
            candidates.append(({ALLOCATE: WRITE, WRITE: ALLOCATE, LEASE: WRITE}[name], si))
        else:
            candidates += [(ALLOCATE, si), (WRITE, si)]
        op, other = rng.choice(candidates)
        if server is self.a and (op, other) == (name, si):
            return
        size = self.pv * rng.randrange(1, n + 1) if op != LEASE else None
        if op == LEASE:
            args = (other, b"r" * 32, b"e" * 32)
        elif op == ALLOCATE:
            args = (other, b"r" * 32, b"c" * 32, {7}, size, Referenceable())
        else:
            if other in self.stored:
                return
            args = (other, (b"w" * 32, b"r" * 32, b"c" * 32), {7: ([], [(0, b"x" * size)], None)}, [])
        if op == ALLOCATE and other in self.slots:
            return
        before = server.w.disk()
        del server.seen[:]
        o = server.run(server.rref.callRemote, op, passes, *args)
        mon.check(server.seen, "the request does not arrive", o.failure)
        error = server.seen[0].error
        mon.check(isinstance(error, MorePassesRequired), "a pass is accepted for %s, which it was not made for (but for %s), by %s" % (op, name, "the same server" if server is self.a else "a server with another key"), error, o.failure)
        mon.equal((error.valid_count, set(error.signature_check_failed)), (0, set(range(n))), "which passes were rejected")
        mon.equal(server.w.disk(), before, "a rejected request changes the server")
        mon.event("misused-at-other-server" if server is self.b else "misused-for-other-object" if other != si else "misused-for-other-operation")

    def wrong_server(self):
        """The client turns to a server which has another key."""
        server, mon = self.b, self.mon
        del server.seen[:]
        before = server.w.disk()
        unspent = self.db.unspent()
        name, si, price, go, _ = self.operation(server, self.rng.choice([ALLOCATE, WRITE]))
        if si in self.slots:
            return
        o = server.run(go)
        mon.check(o.done and o.failure is not None, "an operation on a server with another key does not fail", o)
        for s in self.observe(server, name, si):
            mon.check(isinstance(s.error, MorePassesRequired) and s.error.valid_count == 0, "a server accepts passes of another key", s.error)
        mon.equal(server.w.disk(), before, "a server stores what was not paid for")
        mon.equal(self.db.unspent() | self.db.invalid(), unspent, "tokens are spent on a server which rejects them")
        mon.event("wrong-servers")

    def judge_links(self):
        """Nothing that the issuer knows appears in a pass."""
        windows = set()
        for data in self.issued:
            for i in range(len(data) - WINDOW + 1):
                windows.add(data[i : i + WINDOW])
        for p in self.passes:
            for part in [p, *map(b64decode, p.split(b" "))]:
                known = [i for i in range(len(part) - WINDOW + 1) if part[i : i + WINDOW] in windows]
                self.mon.equal(known, [], "a pass contains something that the issuer saw, at")
        preimages = [p.split(b" ")[0] for p in self.passes]
        self.mon.equal(len(set(preimages)), len(preimages), "two passes were made of one token although no request failed")
        self.mon.event("passes-compared-with-issuer", len(self.passes))


def chain(rng, mon):
    c = Chain(rng, mon)
    try:
        c.buy()
        for _ in range(rng.randrange(3, 14)):
            p = rng.random()
            if p < 0.15:
                c.buy()
            elif p < 0.6:
                c.spend()
            elif p < 0.85:
                c.misuse()
            elif p < 0.93:
                c.read_back()
            else:
                c.boot()
                mon.event("restarts")
        c.read_back()
        if rng.random() < 0.4:
            c.wrong_server()
        c.judge_links()
    finally:
        c.close()


def grid(rng, mon):
    """The same with real Tahoe-LAFS processes, which only the loopback network connects."""
    pv = rng.choice([500, 4096, 100000])
    with realgrid.session(rng, mon, rng.choice([1, 2]), pv, 16 * rng.choice([40, 60])) as g:
        c = realgrid.Client(g).start()
        voucher = cli.voucher_number(rng).decode()
        mon.equal(c.buy(voucher), 200, "a voucher is not accepted")
        mon.equal((c.report()[0], g.issuer.granted()), (g.tokens, g.tokens), "a redeemed voucher does not give the tokens granted")
        stored = []  # (capability, data, mutable, known under another name)
        dirs = []
        total = g.tokens
        look = g.look()
        paid = last = 0
        for _ in range(rng.choice([8, 14])):
            g.touch()
            if total < 100 * len(g.servers):
                break
            op = rng.choice(["put", "put", "put", "again", "mkdir", "into", "mutable", "overwrite", "renew", "renew", "read", "read", "restart"])
            data = bytes(rng.randrange(256) for _ in range(rng.choice([0, 55, 56, 700, pv if pv < 5000 else 5000, rng.randrange(9000)])))
            renewed = None
            at_once = True
            start = time.time()
            if op == "put":
                cap, at_once = c.must(mon, "PUT", "/uri", data, "an upload")
                stored.append((cap.decode(), data, False))
            elif op == "again" and stored:
                _, data, mutable = rng.choice(stored)
                if mutable:
                    continue
                _, at_once = c.must(mon, "PUT", "/uri", data, "an upload of something already there")
            elif op == "mkdir":
                cap, at_once = c.must(mon, "POST", "/uri?t=mkdir", None, "making a directory")
                dirs.append(cap.decode())
            elif op == "into" and dirs:
                cap, at_once = c.must(mon, "PUT", "/uri/%s/%d" % (rng.choice(dirs), rng.randrange(5)), data, "an upload into a directory")
                stored.append((cap.decode(), data, False))
            elif op == "mutable":
                cap, at_once = c.must(mon, "PUT", "/uri?format=" + rng.choice(["SDMF", "MDMF"]), data, "making a mutable file")
                stored.append((cap.decode(), data, True))
            elif op == "overwrite" and any(m for _, _, m in stored):
                i = rng.choice([i for i, s in enumerate(stored) if s[2]])
                _, at_once = c.must(mon, "PUT", "/uri/" + stored[i][0], data, "writing a mutable file")
                stored[i] = (stored[i][0], data, True)
            elif op == "renew" and stored + dirs:
                cap = rng.choice([s[0] for s in stored] + dirs)
                time.sleep(1.1)
                start = time.time()
                _, at_once = c.must(mon, "POST", "/uri/%s?t=check&add-lease=true&output=json" % (cap,), None, "renewing leases")
                renewed = start
            elif op == "read" and stored:
                cap, data, _ = rng.choice(stored)
                got, _ = c.must(mon, "GET", "/uri/" + cap, None, "a download")
                mon.check(got == data, "what is read is not what was stored", len(got), len(data))
                mon.event("grid-reads")
            elif op == "restart":
                rng.choice([c.kill, c.stop])()
                c.start()
            else:
                continue
            if renewed:
                # Tahoe-LAFS does not wait for the answers to that.
                for _ in range(2):
                    c.must(mon, "POST", "/uri/%s?t=check&output=json" % (cap,), None, "a check")
                    time.sleep(0.3)
            before = look
            for _ in range(50):
                now = c.report()[0]
                look = g.look()
                cost = sum(realgrid.price(pv, b, a) for b, a in zip(before, look))
                changed = [(k, size, leases, k in b) for b, a in zip(before, look) for k, (kind, size, leases) in a.items() if k not in b or leases != b[k][2]]
                again = [size for k, size, leases, known in changed if known and renewed]
                cost += sum(-(-size // pv) for size in again)
                if op == "restart" or not at_once or total - now == cost:
                    break
                time.sleep(0.2)
            mon.note(op, len(data), "tokens", total, "->", now)
            mon.sig(op, total - now)
            if at_once:
                for k, size, leases, known in changed:
                    mon.check(len(leases) == 1 and start - 1 + realgrid.MONTH <= leases[0] <= time.time() + 1 + realgrid.MONTH, "what is paid for is not kept for a month", leases, start)
                mon.event("grid-renewals", len(again))
                if op == "restart":
                    # What ended before the last server had answered may be taken for unspent.
                    mon.check(0 <= now - total <= last, "tokens change over a restart", now - total, last)
                else:
                    mon.equal(total - now, cost, "%s takes other than the passes it costs" % (op,))
                    last = cost
                mon.event("grid-operations")
                mon.event("grid-shares", sum(1 for x in changed if not x[3]))
                paid += cost
            else:
                paid = None
                mon.event("grid-operations-slow")
                break
            total = now
        if paid is not None:
            realgrid.wait_for("metrics", lambda: all(s.spent() is not None for s in g.servers))
            for _ in range(100):
                if sum(s.spent() for s in g.servers) == paid:
                    break
                time.sleep(0.2)
            mon.equal(sum(s.spent() for s in g.servers), paid, "the servers count other passes than were paid to them")
            mon.event("grid-metrics-judged")
        mon.event("grids")


SCENARIOS = [
    Scenario("chain", chain, 96, 6000, needs=["bought", "bought-" + ALLOCATE, "bought-" + LEASE, "bought-" + WRITE, "misused-at-other-server", "misused-for-other-object", "misused-for-other-operation", "wrong-servers", "sequestered", "passes-verified", "passes-compared-with-issuer", "restarts", "replies-lost", "issuer-fails"]),
    Scenario("grid", grid, 2, 60, timeout=400),
]
