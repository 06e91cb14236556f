"""The real client against the real server: prices and the fate of passes."""

import os
import struct

from _zkapauthorizer._storage_client import ZKAPAuthorizerStorageClient
from _zkapauthorizer.model import UnblindedToken
from _zkapauthorizer.storage_common import MorePassesRequired

from vz import cli, ppass
from vz.core import Scenario, scratch_dir
from vz.srv import MONTH, Wire, World, ceil_passes, message
from vz.srvops import expired_partial_write, mutable_prices

PROPERTY = "C02"
LEVEL = "exploration"
RULE = (
    "Random histories of client operations against a real server holding shares of every lease age (before, at and after expiry), sizes around "
    "multiples of the pass value, partly present share sets and write vectors with gaps and overlaps; the passes sent at the first attempt, the "
    "passes given up and those recorded as spent by the server are compared with an independent price. Distinct by operations, prices and outcomes."
)
ASSUMPTIONS = ["client and server are configured with the same pass value and have the same time"]

PAID = {"allocate_buckets", "add_lease", "slot_testv_and_readv_and_writev"}


class Rig:
    def __init__(self, rng, mon, pass_value=None, now=None, tokens=100):
        self.rng, self.mon = rng, mon
        self.w = w = World(rng, pass_value=pass_value, now=now)
        self.path = os.path.join(scratch_dir(), "db.sqlite3")
        _, _, self.store = cli.open_client_store(self.path, cli.when(w.clock), w.pass_value)
        self.by_preimage = {}
        self.batch = tokens
        self.restock(tokens)
        self.db = cli.Reader(self.path)
        self.sent = []
        self.wire = Wire(w.server, self.before)
        self.client = ZKAPAuthorizerStorageClient(
            w.pass_value,
            get_rref=lambda: self.wire,
            get_passes=cli.spending(self.store).get,
            clock=w.clock,
        )

    def restock(self, n):
        mine = []
        for t in self.w.pool.take(n):
            text = t.encode_base64()
            self.by_preimage[t.preimage().encode_base64()] = text.decode("ascii")
            mine.append(UnblindedToken(text))
        cli.stock(self.store, self.rng, mine, groups=3)

    def before(self, name, args, kwargs):
        if name in PAID:
            self.sent.append((name, list(args[0])))

    def paid(self, op, si, full, short, spent_price, do):
        """
        One paid operation; full/short as in srvops; spent_price maps the
        result to the price of what was granted (None: the price sent).
        """
        w, mon = self.w, self.mon
        self.sent = []
        have = self.store.count_unblinded_tokens()
        if have < full:
            self.restock(full - have + self.rng.randrange(2) * 20)
        unspent0, spent0 = self.db.unspent(), len(w.spender.calls)
        try:
            result = cli.now_result(do(), op)
        except MorePassesRequired as e:
            mon.violate("the server refused the client's %s for want of passes" % op, repr(e), "price", full)
        sent = self.sent
        mon.event("paid-" + op)
        mon.equal(len(sent), 1, "%s took more than one attempt" % op)
        n = len(sent[0][1])
        mon.note(op, "price", full, short, "sent", n)
        if full != short and n == short:
            expired_partial_write(mon)
            price = short
        else:
            price = full
            mon.equal(n, price, "%s did not pay its price at the first attempt" % op)
        for p in sent[0][1]:
            mon.check(ppass.is_valid(w.key, p, message(op, si)), "%s sent a pass which is not valid for the request" % op)
        mon.equal(len(set(sent[0][1])), n, "%s sent a pass twice" % op)
        due = price if spent_price is None else spent_price(result)
        gone = unspent0 - self.db.unspent()
        recorded = [p for c in w.spender.calls[spent0:] for p in c]
        mon.equal(len(gone), due, "%s gave up a number of passes other than its price" % op)
        mon.equal(sorted(self.by_preimage[p] for p in recorded), sorted(gone), "the passes given up by the client for %s are not those the server recorded as spent" % op)
        mon.equal(cli.available(self.store), self.db.unspent(), "passes drawn for %s and not spent are not available again" % op)
        if due:
            mon.event("nonzero")
        if n > due:
            mon.event("change-returned")
        mon.sig(op, full, short, due)
        return result

    def allocate(self, si):
        rng, w = self.rng, self.w
        shares = w.shares(si)
        nums = set(rng.sample(range(8), rng.randrange(1, 5)))
        if shares and rng.random() < 0.5:
            nums |= set(rng.sample(sorted(shares), 1))
        size = w.size()
        secret = rng.choice(w.secrets)
        price = ceil_passes(w.pass_value, [size] * len(nums))
        arriving = {n for (s, n, _) in w.still_open() if s == si}
        new = nums - set(shares) - arriving
        room = None
        if rng.random() < 0.12:
            # The disk has room for some of the shares only.
            room = w.backend.allocated_size() + size * rng.randrange(len(nums)) + rng.randrange(size + 1)
            w.backend.get_available_space = lambda: room
        try:
            got, writers = self.paid(
                "allocate_buckets", si, price, price,
                # Shares which are here, or on their way, or have no room are not paid for.
                lambda r: ceil_passes(w.pass_value, [size] * len(r[1])),
                lambda: self.client.allocate_buckets(si, secret, secret, nums, size, w.canary),
            )
        finally:
            w.backend.__dict__.pop("get_available_space", None)
        if room is None:
            self.mon.equal(set(writers), new, "the shares paid for are not those the server did not have")
        else:
            self.mon.check(set(writers) <= new, "a share was paid for that the server already had")
            if set(writers) != new:
                self.mon.event("short-of-room")
        if nums & arriving:
            self.mon.event("upload-in-progress")
        for num, writer in sorted(writers.items()):
            if rng.random() < 0.2:
                w.open_writers.append((si, num, writer))
                continue
            if size:
                writer.doRemoteCall("write", (0, b"d" * size), {})
            writer.doRemoteCall("close", (), {})

    def add_lease(self, si):
        w = self.w
        shares = w.shares(si)
        if len(shares) > 10:
            self.mon.event("many-shares")
        price = ceil_passes(w.pass_value, [s.size for s in shares.values()])
        secret = self.rng.choice(w.secrets)
        self.paid("add_lease", si, price, price, None, lambda: self.client.add_lease(si, secret, secret))

    def write(self, si, tw=None):
        rng, w = self.rng, self.w
        shares = w.shares(si)
        if tw is None:
            tw = {}
            candidates = sorted(shares) + rng.sample(range(8), 2)
            for num in set(rng.sample(candidates, min(len(candidates), rng.randrange(1, 4)))):
                share = shares.get(num)
                datav = [
                    (rng.choice([0, 0, w.size(), share.size if share else 0]), b"w" * w.size())
                    for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))
                ]
                testv = []
                if share is not None and share.size and rng.random() < 0.3:
                    testv = [(0, 1, share.data[:1])]
                tw[num] = (testv, datav, None)
        full, short = mutable_prices(w.pass_value, shares, tw, w.now())
        secret = rng.choice(w.secrets)
        self.paid(
            "slot_testv_and_readv_and_writev", si, full, short, None,
            lambda: self.client.slot_testv_and_readv_and_writev(si, (b"w" * 32, secret, secret), tw, []),
        )


def history(rng, mon):
    rig = Rig(rng, mon)
    w = rig.w
    w.seed_shares()
    mon.sig(w.pass_value)
    for _ in range(10):
        si = rng.choice(w.sis)
        if w.kinds[si] == "immutable":
            rng.choice([rig.allocate, rig.allocate, rig.add_lease])(si)
        else:
            rng.choice([rig.write, rig.write, rig.write, rig.add_lease])(si)
        if rng.random() < 0.4:
            w.clock.advance(rng.choice([1, rng.randrange(MONTH), MONTH - 1, MONTH]))


def boundary(rng, mon):
    """Lease expiry instants exactly; growth by one byte over a pass boundary."""
    pv = rng.choice([1, 10, 1000])
    rig = Rig(rng, mon, pass_value=pv, now=1_600_000_000)
    w = rig.w
    si = w.sis[0]
    w.kinds[si] = "mutable"
    k = rng.randrange(1, 4)
    rig.write(si, {0: ([], [(0, b"x" * (k * pv))], None), 1: ([], [(0, b"x" * (k * pv - (pv > 1)))], None)})
    w.clock.advance(rng.choice([MONTH - 1, MONTH - 0.5, MONTH, MONTH + 0.5, MONTH + 1]))
    mon.event("at-%s" % ("expiry" if w.now() == 1_600_000_000 + MONTH else "other"))
    grow = rng.choice([0, 1, pv])
    rig.write(si, {n: ([], [(0, b"y" * (k * pv + grow))], None) for n in rng.choice([(0,), (1,), (0, 1)])})
    rig.add_lease(si)


def expired_partial(rng, mon):
    """The known defect, reproduced every time."""
    rig = Rig(rng, mon, pass_value=10, now=1_600_000_000)
    w = rig.w
    si = w.sis[0]
    rig.write(si, {0: ([], [(0, b"x" * 35)], None)})
    w.clock.advance(MONTH + 1)
    rig.write(si, {0: ([], [(0, b"y" * 5)], None)})


def huge(rng, mon):
    """Immutable shares of 4 GiB and more, as sparse files."""
    rig = Rig(rng, mon, pass_value=1 << 28, now=1_600_000_000, tokens=200)
    w = rig.w
    si = w.sis[0]
    w.kinds[si] = "immutable"
    secret = w.secrets[0]
    sizes = {}
    for num in range(rng.randrange(1, 3)):
        sizes[num] = rng.choice([2**32 - 1, 2**32, 2**32 + 1, 5 * 2**30, 2**33 + 7])
        price = ceil_passes(w.pass_value, [sizes[num]])
        got, writers = rig.paid(
            "allocate_buckets", si, price, price, None,
            lambda: rig.client.allocate_buckets(si, secret, secret, {num}, sizes[num], w.canary),
        )
        # The last bytes make it a share of this size without filling it.
        writers[num].doRemoteCall("write", (sizes[num] - 1, b"z"), {})
        writers[num].doRemoteCall("close", (), {})
    mon.equal(w.server.doRemoteCall("share_sizes", (si, None), {}), sizes, "sizes of very large shares are misreported")
    price = ceil_passes(w.pass_value, sizes.values())
    rig.paid("add_lease", si, price, price, None, lambda: rig.client.add_lease(si, secret, secret))
    mon.event("huge-renewed")
    # A mutable share of that size, of which nothing but the header is written.
    si = w.sis[0][:15] + bytes([w.sis[0][15] ^ 1])
    w.sis.append(si)
    w.kinds[si] = "mutable"
    size = rng.choice([2**32 - 1, 2**32, 2**32 + 1, 3 * 2**31, 2**33 + 7])
    rig.write(si, {0: ([], [(0, b"x")], None)})
    with open(os.path.join(w.share_dir(si), "0"), "r+b") as f:
        f.seek(84)
        f.write(struct.pack(">QQ", size, 468 + size))
        f.truncate(468 + size + 4)
    mon.equal(w.server.doRemoteCall("share_sizes", (si, None), {}), {0: size}, "the size of a very large share is misreported")
    price = ceil_passes(w.pass_value, [size])
    rig.paid("add_lease", si, price, price, None, lambda: rig.client.add_lease(si, secret, secret))
    end = size + rng.choice([-1, 0, 5, 1000])
    price = ceil_passes(w.pass_value, [max(size, end)]) - ceil_passes(w.pass_value, [size])
    rig.paid(
        "slot_testv_and_readv_and_writev", si, price, price, None,
        lambda: rig.client.slot_testv_and_readv_and_writev(si, (b"w" * 32, secret, secret), {0: ([], [(end - 3, b"end")], None)}, []),
    )
    mon.event("huge-mutable")


SCENARIOS = [
    Scenario("history", history, quick=160, thorough=3000,
             needs=["paid-allocate_buckets", "paid-add_lease", "paid-slot_testv_and_readv_and_writev", "change-returned", "nonzero",
                    "short-of-room", "upload-in-progress", "many-shares"]),
    Scenario("boundary", boundary, quick=80, thorough=600, needs=["at-expiry", "at-other"]),
    Scenario("expired-partial", expired_partial, quick=1, thorough=1),
    Scenario("huge", huge, quick=8, thorough=40, needs=["huge-renewed", "huge-mutable"]),
]
