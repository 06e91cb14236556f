"""Conservation of tokens over interleaved storage operations."""

import os

from foolscap.ipb import DeadReferenceError
from foolscap.referenceable import Referenceable, RemoteReference
from twisted.internet.defer import CancelledError, Deferred
from twisted.internet.task import Clock
from twisted.python.failure import Failure

from _zkapauthorizer._storage_client import ZKAPAuthorizerStorageClient
from _zkapauthorizer.controller import DummyRedeemer
from _zkapauthorizer.model import NotEnoughTokens
from _zkapauthorizer.storage_common import MorePassesRequired

from vz import cli
from vz.core import Scenario, scratch_dir
from vz.netcli import NetWorld
from vz.srv import Tracker, ceil_passes

PROPERTY = "C05"
LEVEL = "exploration"
RULE = (
    "Random schedules of up to six concurrent storage operations of the real client over one token database; every remote call is held until the "
    "schedule lets it succeed, be refused for any subset of its passes, fail or be cancelled, with purchases and restarts in between. After every "
    "event each token's place (available, held by exactly one operation, spent, set aside) is compared with the model. Distinct by event sequence."
)
ASSUMPTIONS = ["an operation whose outcome is unknown (lost connection, cancellation) counts as unpaid, as the client treats it"]

PAID = {"allocate_buckets": 0, "add_lease": 0, "slot_testv_and_readv_and_writev": 0}


class Boom(Exception):
    pass


class Call:
    def __init__(self, op, name, args):
        self.op, self.name, self.args, self.d = op, name, args, Deferred()


class Op:
    def __init__(self, kind, need, size=None, nums=None):
        self.kind, self.need, self.size, self.nums = kind, need, size, nums
        self.held = set()
        self.attempts = 0
        self.call = None
        self.outcome = None
        self.expect = None


class Rref(RemoteReference):
    def __init__(self, world):
        self.world = world
        self.tracker = Tracker()

    def callRemote(self, name, *args, **kwargs):
        return self.world.remote(name, args)


class World:
    def __init__(self, rng, mon):
        self.rng, self.mon = rng, mon
        self.clock = Clock()
        self.path = os.path.join(scratch_dir(), "db.sqlite3")
        self.pv = rng.choice([1, 5])
        self.redeemer = DummyRedeemer("k" * 44)
        self.fail_pass_making = False
        self.known = {}  # pass bytes -> token text
        self.all, self.spent, self.invalid = set(), set(), set()
        self.ops = []
        self.current = None
        self.raw = None
        self.open()
        self.db = cli.Reader(self.path)

    def make_passes(self, message, tokens):
        if self.fail_pass_making:
            self.fail_pass_making = False
            raise Boom("pass construction failed")
        return self.redeemer.tokens_to_passes(message, tokens)

    def open(self):
        if self.raw is not None:
            self.raw.close()
        self.raw, _, self.store = cli.open_client_store(self.path, cli.when(self.clock), self.pv)
        self.rref = Rref(self)
        self.client = ZKAPAuthorizerStorageClient(
            self.pv, get_rref=lambda: self.rref, get_passes=cli.spending(self.store, self.make_passes).get, clock=self.clock
        )

    def buy(self, n):
        tokens = [cli.fake_unblinded_token(self.rng) for _ in range(n)]
        for t, p in zip(tokens, self.redeemer.tokens_to_passes(b"", tokens)):
            self.known[p.pass_bytes] = t.unblinded_token.decode("ascii")
            self.all.add(t.unblinded_token.decode("ascii"))
        cli.stock(self.store, self.rng, tokens, groups=self.rng.randrange(1, 4))

    # -- the fake network --

    def remote(self, name, args):
        mon, op = self.mon, self.current
        call = Call(op, name, args)
        if name in PAID:
            tokens = [self.known[p] for p in args[0]]
            mon.equal(len(set(tokens)), len(tokens), "one request carries a token twice")
            mon.equal(len(tokens), op.need, "an attempt carries a wrong number of passes")
            for other in self.ops:
                if other is not op:
                    mon.check(not (other.held & set(tokens)), "a token is used by two operations at once")
            mon.check(not (set(tokens) & self.spent), "a spent token is used again")
            mon.check(not (set(tokens) & self.invalid), "a rejected token is used again")
            op.held = set(tokens)
            op.attempts += 1
            mon.event("attempts")
            if op.attempts > 1:
                mon.event("retries")
        op.call = call
        return call.d

    # -- schedule --

    def start(self):
        rng = self.rng
        kind = rng.choice(["allocate", "lease", "write", "write"])
        si = bytes(rng.randrange(256) for _ in range(16))
        if kind == "allocate":
            size = rng.randrange(0, 4 * self.pv)
            nums = set(rng.sample(range(8), rng.randrange(1, 4)))
            op = Op(kind, ceil_passes(self.pv, [size] * len(nums)), size, nums)
            go = lambda: self.client.allocate_buckets(si, b"r" * 32, b"c" * 32, nums, size, None)
        elif kind == "lease":
            sizes = [rng.randrange(0, 3 * self.pv) for _ in range(rng.randrange(0, 4))]
            op = Op(kind, ceil_passes(self.pv, sizes))
            op.sizes = dict(enumerate(sizes))
            go = lambda: self.client.add_lease(si, b"r" * 32, b"c" * 32)
        else:
            size = rng.randrange(1, 4 * self.pv)
            op = Op(kind, ceil_passes(self.pv, [size]))
            go = lambda: self.client.slot_testv_and_readv_and_writev(
                si, (b"w" * 32, b"r" * 32, b"c" * 32), {0: ([], [(0, b"x" * size)], None)}, []
            )
        self.ops.append(op)
        if rng.random() < 0.04:
            self.fail_pass_making = True
            op.boom = True
        self.drive(op, lambda: setattr(op, "outcome", cli.Outcome(go())))
        self.mon.sig("start", kind, op.need)

    def drive(self, op, f):
        """Let an operation run until it waits again or ends."""
        avail = self.all - self.spent - self.invalid - set().union(*[o.held for o in self.ops])
        self.current = op
        op.call = None
        unspent = self.db.unspent()
        held = set(op.held)
        f()
        self.current = None
        if op.outcome is None or not op.outcome.done:
            self.mon.check(op.call is not None, "an operation neither waits for the server nor ends")
        if op.outcome is not None and op.outcome.done:
            self.finish(op, unspent, held)

    def finish(self, op, unspent, held):
        mon = self.mon
        gone = unspent - self.db.unspent() - self.invalid
        self.ops.remove(op)
        e = op.outcome.failure
        if e is None:
            due = op.need if op.kind != "allocate" else op.due
            mon.equal(len(gone), due, "a successful operation spent a number of tokens other than its price")
            mon.check(gone <= held, "an operation spent tokens it did not send")
            self.spent |= gone
            mon.event("successes")
        else:
            mon.equal(gone, set(), "a failed operation spent tokens")
            mon.event("failures")
            mon.event("failed-" + type(e.value).__name__)
            ok = (Boom, DeadReferenceError, CancelledError, MorePassesRequired, NotEnoughTokens, ValueError)
            mon.check(isinstance(e.value, ok), "an operation failed with an unexpected error", repr(e.value), e.getTraceback())
        self.fail_pass_making = False
        mon.sig("end", op.kind, "ok" if e is None else type(e.value).__name__, op.attempts)

    def answer(self, op):
        rng, mon, call = self.rng, self.mon, op.call
        name = call.name
        fail = lambda e: self.drive(op, lambda: call.d.errback(Failure(e)))
        if name not in PAID:
            if rng.random() < 0.1:
                return fail(rng.choice([Boom("remote"), DeadReferenceError("lost")]))
            if name == "stat_shares":
                return self.drive(op, lambda: call.d.callback([{}]))
            return self.drive(op, lambda: call.d.callback(op.sizes))
        r = rng.random()
        if r < 0.4:
            if op.kind == "allocate":
                new = set(rng.sample(sorted(op.nums), rng.randrange(len(op.nums) + 1)))
                op.due = ceil_passes(self.pv, [op.size] * len(new))
                # A share may be neither: another upload of it is in progress or the
                # server has no room.  What the server has includes shares not asked for.
                have = set(n for n in op.nums - new if rng.random() < 0.6) | set(n for n in range(8, 11) if rng.random() < 0.1)
                if not new and not have:
                    mon.event("server-full")
                return self.drive(op, lambda: call.d.callback((have, {n: object() for n in new})))
            if op.kind == "lease":
                return self.drive(op, lambda: call.d.callback(None))
            return self.drive(op, lambda: call.d.callback((rng.random() < 0.7, {0: [b"data"]})))
        n = len(call.args[0])
        if r < 0.75 and n:
            bad = frozenset(rng.sample(range(n), rng.choice([1, 1, n, rng.randrange(1, n + 1)])))
            # What the server rejected is set aside.
            for i in bad:
                self.invalid.add(self.known[call.args[0][i]])
            mon.event("rejected-passes", len(bad))
            if rng.random() < 0.1:
                # It also names passes which were not sent.
                bad |= frozenset(rng.sample(range(n, n + 50), rng.randrange(1, 4)))
                mon.event("odd-refusals")
            if rng.random() < 0.1:
                self.fail_pass_making = True
            return fail(MorePassesRequired(max(0, n - len(bad)), n, bad))
        if r < 0.80:
            mon.event("refused-for-want")
            return fail(MorePassesRequired(n, n + 1, frozenset()))
        if r < 0.85 and op.kind == "write":
            mon.event("nonsense-reply")
            return self.drive(op, lambda: call.d.callback(rng.choice([None, 3, [True, {}], (1, {}), (True, [])])))
        fail(rng.choice([Boom("remote"), DeadReferenceError("lost")]))

    def step(self):
        rng = self.rng
        r = rng.random()
        if self.ops and r < 0.55:
            self.answer(rng.choice(self.ops))
        elif self.ops and r < 0.65:
            op = rng.choice(self.ops)
            self.mon.event("cancellations")
            self.drive(op, op.outcome.d.cancel)
        elif r < 0.70:
            self.buy(rng.randrange(1, 8))
        elif r < 0.73:
            # The process ends; whatever was in progress is forgotten.
            self.mon.event("restarts")
            self.mon.sig("restart", len(self.ops))
            self.ops = []
            self.open()
        elif len(self.ops) < 6:
            self.start()
        self.check()

    def check(self):
        mon = self.mon
        held = set().union(*[o.held for o in self.ops]) if self.ops else set()
        # A held token that was rejected is not held any more.
        held -= self.invalid
        unspent = self.db.unspent()
        mon.equal(self.db.invalid(), self.invalid, "the tokens set aside as invalid are not those the server rejected")
        mon.equal(unspent, self.all - self.spent - self.invalid, "tokens were lost or reappeared")
        mon.equal(cli.available(self.store), unspent - held, "the tokens available are not those which no operation holds")
        if len([o for o in self.ops if o.held]) > 1:
            mon.event("concurrent-holders")


def schedule(rng, mon):
    w = World(rng, mon)
    w.buy(rng.randrange(5, 30))
    for _ in range(40):
        w.step()
    # Everything in progress ends: nothing stays held.
    for op in list(w.ops):
        call = op.call
        w.drive(op, lambda: call.d.errback(Failure(DeadReferenceError("gone"))))
        w.check()
    mon.equal(cli.available(w.store), w.all - w.spent - w.invalid, "tokens stay held when nothing is in progress")


def stubborn(rng, mon):
    """A server whose refusals make no sense does not keep the client busy for ever."""
    w = World(rng, mon)
    w.buy(20)
    op = None
    while op is None or not op.need or op.outcome.done:
        w.ops = []
        w.start()
        op = w.ops[-1] if w.ops else None
    for n in range(60):
        if op.outcome.done:
            break
        call = op.call
        if call.name not in PAID:
            w.drive(op, lambda: call.d.callback([{}] if call.name == "stat_shares" else op.sizes))
            continue
        far = frozenset(rng.sample(range(len(call.args[0]), 100), 2))
        w.drive(op, lambda: call.d.errback(Failure(MorePassesRequired(0, op.need, far))))
        mon.event("senseless-refusals")
    mon.check(op.outcome.done, "refusals that reject none of the passes sent keep the client trying for ever")
    mon.equal(cli.available(w.store), w.all, "a senseless refusal cost tokens")
    mon.sig(op.kind, op.need)


class _Cut:
    """Ends the connection after some number of bytes."""

    def __init__(self, link, after):
        self.link, self.left = link, after

    def __call__(self, end, data):
        self.left -= len(data)
        if self.left <= 0:
            self.link.drop()
            return True


def long_refusal(rng, mon):
    """The rejected passes are too many for one refusal, and lie among genuine ones."""
    network(rng, mon, long=True)


def network(rng, mon, long=False):
    """The real client and server on a real connection, which may be lost at any byte."""
    w = NetWorld(rng, pass_value=rng.choice([1, 7, 100]))
    s, pv = w.server, w.pv
    try:
        w.buy(rng.randrange(5, 60), rng.choice([0, 1, rng.randrange(40)]))
        if long:
            w.buy(rng.randrange(440, 520), rng.randrange(400, 500))
        elif rng.random() < 0.1:
            # So many rejected passes that the refusal does not fit in one reply.
            w.buy(400, rng.randrange(300, 400))
            mon.event("many-tokens")
        spent, invalid = set(), set()
        stored = {}
        for n in range(1 if long else rng.randrange(3, 9)):
            si = bytes(rng.randrange(256) for _ in range(16))
            kind = rng.choice(["allocate", "lease", "write", "write"])
            most = len(w.genuine - spent)
            want = rng.choice([1, rng.randrange(1, 12), rng.randrange(1, most + 8)])
            if long:
                kind = rng.choice(["allocate", "write"])
                want = rng.randrange(most * 9 // 10, most)
            if kind == "lease":
                if stored:
                    si = rng.choice(sorted(stored))
                need = stored.get(si, 0)
                go = lambda: w.client.add_lease(si, b"r" * 32, b"c" * 32)
            elif kind == "allocate":
                k = rng.randrange(1, min(want, 5) + 1)
                size = rng.randrange(want // k * pv - pv, want // k * pv) + 1
                need = ceil_passes(pv, [size] * k)
                go = lambda: w.client.allocate_buckets(si, b"r" * 32, b"c" * 32, set(range(k)), size, Referenceable())
            else:
                need = want
                go = lambda: w.client.slot_testv_and_readv_and_writev(
                    si, (b"w" * 32, b"r" * 32, b"c" * 32), {0: ([], [(0, b"x" * (pv * need))], None)}, []
                )
            cut = None
            if rng.random() < (0 if long else 0.25):
                cut = w.link.on_bytes = _Cut(w.link, rng.choice([rng.randrange(1, 300), rng.randrange(1, 4000)]))
            before, bad_before, w.seen[:] = w.db.unspent(), w.db.invalid(), []
            genuine = len(w.genuine & before)
            o = w.run(go)
            mon.check(o.done, "an operation never ends", kind, w.link.up)
            after, bad_after = w.db.unspent(), w.db.invalid()
            paid = [x for x in w.seen if x.name in PAID]
            refused = [x for x in paid if isinstance(x.error, MorePassesRequired)]
            rejected = {w.sent[x.args[0][i]] for x in refused for i in x.error.signature_check_failed}
            mon.check(rejected <= w.fake, "the server rejected a genuine pass")
            now_bad = bad_after - bad_before
            mon.check(now_bad <= rejected, "a token was set aside which the server did not reject")
            if refused:
                mon.event("refusals", len(refused))
                if any(len(str(sorted(x.error.signature_check_failed))) > 1000 for x in refused):
                    mon.event("long-refusals")
            gone = before - after - now_bad
            mon.check(not (after - before), "tokens appeared from nowhere")
            mon.equal(cli.available(w.store), after, "tokens stay held when nothing is in progress")
            for a in paid:
                sent = [w.sent[p] for p in a.args[0]]
                mon.equal(len(set(sent)), len(sent), "one request carries a token twice")
                mon.check(set(sent) <= before - spent - bad_before, "a request carries a token which was spent or set aside before")
            if o.failure is None:
                done = [x for x in paid if x.error is None]
                mon.equal(len(done), 1, "a successful operation was not performed exactly once")
                mon.equal(gone, {w.sent[p] for p in done[0].args[0]}, "a successful operation spent tokens other than those it sent")
                mon.equal(len(gone), need, "a successful operation spent a number of tokens other than its price")
                mon.equal(now_bad, rejected, "rejected tokens were not set aside")
                if kind == "allocate":
                    for num, ref in o.value[1].items():
                        w.remote(ref, "write", 0, b"y" * size)
                        w.remote(ref, "close")
                if kind != "lease" and w.link.up:
                    stored[si] = need
                mon.event("successes")
                if refused:
                    mon.event("replaced", len(now_bad))
            else:
                mon.equal(gone, set(), "a failed operation spent tokens")
                mon.event("failures")
                mon.event("failed-" + o.failure.type.__name__)
                if w.link.up:
                    mon.check(o.failure.check(NotEnoughTokens), "an operation failed with an unexpected error", repr(o.failure.value))
                    if refused:
                        mon.event("ran-out-of-replacements")
            if w.link.up:
                mon.check((o.failure is None) == (genuine >= need), "an operation does not succeed exactly when there are enough genuine tokens", genuine, need, o.failure)
            else:
                mon.event("connections-lost")
                w.connect()
            spent |= gone
            invalid |= now_bad
            w.link.on_bytes = None
            mon.sig(kind, need, len(rejected), "ok" if o.failure is None else o.failure.type.__name__)
        mon.equal(w.db.unspent(), (w.genuine | w.fake) - spent - invalid, "tokens were lost or reappeared")
    finally:
        w.close()


SCENARIOS = [
    Scenario("network", network, quick=48, thorough=1500,
             needs=["successes", "failures", "refusals", "replaced", "connections-lost", "ran-out-of-replacements", "many-tokens"]),
    Scenario("long-refusal", long_refusal, quick=14, thorough=150, needs=["long-refusals", "successes"]),
    Scenario("schedule", schedule, quick=240, thorough=5000,
             needs=["successes", "failures", "retries", "server-full", "restarts", "cancellations", "concurrent-holders", "rejected-passes", "failed-NotEnoughTokens", "failed-Boom", "odd-refusals"]),
    Scenario("stubborn", stubborn, quick=16, thorough=100, needs=["senseless-refusals"]),
]
