"""The reported state of a voucher tells the truth."""

from twisted.internet.task import Clock
from twisted.web.resource import Resource

from _zkapauthorizer.resource import authorizationless_resource_tree
from vz import redeem, web
from vz.core import Scenario

PROPERTY = "C08"
LEVEL = "exploration"
RULE = (
    "The redemption histories of C06 biased to alternating outcomes; after every event the state reported for every voucher, singly and in the list, "
    "is compared with a state machine fed from the issuer's side. Distinct by sequence of answers and restarts."
)
ASSUMPTIONS = ["a failure to store a result counts as the attempt ending with an error"]


class World(redeem.World):
    def sync_answer(self, a):
        how = self.rng.choice(["grant", "grant", "unpaid", "error"])
        v = self.vouchers[a.number]
        if v.stolen and self.rng.random() < 0.5:
            how = "spent"
        self.decide(a, how)()

    def start(self):
        super().start()
        tree = authorizationless_resource_tree(self.store, self.controller, None, None, Resource())
        self.web = web.Server(tree, Clock())

    def bad_reads(self):
        """The blinded tokens of one part cannot be read, once."""

        def fails(sql, args):
            if "FROM [tokens]" not in sql or not args:
                return False
            self.raw.vz_bad_read = None
            v = self.vouchers[args[0].encode("ascii")]
            v.last = ("error", self.now(), "disk I/O error")
            self.mon.event("unreadable")
            self.mon.sig("unreadable", v.stored)
            return True

        self.raw.vz_bad_read = fails

    def observe(self):
        """Compare what the controller reports with the model."""
        mon = self.mon
        self.raw.vz_bad_read = None
        if self.rng.random() < 0.25:
            r = self.web.request(b"GET", web.PREFIX + b"/voucher").json()["vouchers"]
            mon.equal(sorted(x["number"] for x in r), sorted(n.decode("ascii") for n in self.vouchers), "the list does not hold exactly the submitted vouchers")
            for x in r:
                self.compare(self.vouchers[x["number"].encode("ascii")], x)
            for v in self.vouchers.values():
                self.compare(v, self.web.request(b"GET", web.PREFIX + b"/voucher/" + v.number).json())
            mon.event("seen-over-http")
        listed = {}
        for raw in self.store.list():
            listed[raw.number] = self.controller.incorporate_transient_state(raw)
        mon.equal(set(listed), set(self.vouchers), "the list does not hold exactly the submitted vouchers")
        for v in self.vouchers.values():
            one = self.controller.get_voucher(v.number)
            for how, got in (("one", one), ("list", listed[v.number])):
                self.compare(v, got.to_json_v1())

    def compare(self, v, got):
        mon = self.mon
        mon.equal(got["number"], v.number.decode("ascii"), "another voucher is reported")
        mon.equal(got["expected-tokens"], v.expected, "the expected token count changed")
        mon.equal(got["created"], v.created.isoformat(), "the creation time changed")
        want = self.want(v)
        state = dict(got["state"])
        mon.event("seen-" + state["name"])
        if "details" in state and "details" in want:
            mon.check(want["details"] in state["details"], "the reported error is not the one of the last attempt", state, want)
            state["details"] = want["details"]
        mon.equal(state, want, "the reported state is not the true one")

    def want(self, v):
        if v.attempt is not None and not v.attempt.over:
            return {"name": "redeeming", "started": v.attempt.started.isoformat(), "counter": v.attempt.counter}
        if v.stored == self.groups:
            return {"name": "redeemed", "finished": v.finished.isoformat(), "token-count": v.expected}
        if v.refused is not None:
            return {"name": "double-spend", "finished": v.refused.isoformat()}
        if v.last is None:
            return {"name": "pending", "counter": v.stored}
        if v.last[0] == "unpaid":
            return {"name": "unpaid", "finished": v.last[1].isoformat()}
        return {"name": "error", "finished": v.last[1].isoformat(), "details": v.last[2]}


def run(w, rng, mon):
    for _ in range(rng.randrange(20, 60)):
        r = rng.random()
        run = w.running()
        if r < 0.12 and len(w.vouchers) < 4:
            w.submit(count=rng.choice([None, None, w.groups, w.groups * 2 + 1]))
        elif r < 0.17 and w.vouchers:
            w.submit(rng.choice(list(w.vouchers.values())))
        elif r < 0.70 and run:
            a = rng.choice(run)
            v = w.vouchers[a.number]
            if rng.random() < 0.06:
                # Only the first write after the answer fails.
                w.raw.vz_plan = 0
            elif rng.random() < 0.05:
                w.bad_reads()
            how = rng.choice(["grant", "grant", "unpaid", "error"])
            if v.stolen and rng.random() < 0.5:
                how = "spent"
            w.answer(a, how)
            w.raw.vz_plan = None
        elif r < 0.92:
            if rng.random() < 0.1:
                w.bad_reads()
            w.advance(rng.choice([0.5, 1, 3]))
        elif r < 0.95:
            w.boot()
        w.observe()


def history(rng, mon):
    run(World(rng, mon, sync=False), rng, mon)


def immediate(rng, mon):
    run(World(rng, mon, sync=True), rng, mon)


def late_spent(rng, mon):
    """Every order of outcomes for one voucher, ending in each final state."""
    w = World(rng, mon, groups=rng.choice([1, 2, 3]), sync=False)
    v = w.submit()
    v.stolen = False
    for n in range(rng.randrange(1, 9)):
        [a] = w.running() or [None]
        if a is None:
            w.advance(2)
            w.observe()
            continue
        w.answer(a, rng.choice(["unpaid", "error", "error", "grant"]))
        w.observe()
        if rng.random() < 0.1:
            w.boot()
            w.observe()
    w.advance(2)
    run_ = w.running()
    if run_ and rng.random() < 0.5:
        w.answer(run_[0], "spent")
        w.observe()
    for n in range(4):
        w.advance(1)
        w.observe()
        if rng.random() < 0.3:
            w.boot()
            w.observe()


SCENARIOS = [
    Scenario("history", history, quick=200, thorough=5000,
             needs=["seen-redeeming", "seen-redeemed", "seen-unpaid", "seen-error", "seen-double-spend", "restarts", "refusals-over-http", "storage-failures", "unreadable", "seen-over-http"]),
    Scenario("immediate", immediate, quick=80, thorough=1500, needs=["seen-redeemed", "seen-unpaid", "seen-error"]),
    Scenario("final", late_spent, quick=120, thorough=2000, needs=["seen-double-spend", "seen-redeemed"]),
]
