"""Redemption never loses paid-for value."""

import time

from vz import cli, realgrid, redeem
from vz.core import Scenario

PROPERTY = "C06"
LEVEL = "exploration"
RULE = (
    "Random histories of the real payment controller over a real database with up to four vouchers in 1-16 parts: a model issuer grants, grants but "
    "loses the reply, answers unpaid, fails or refuses; the process is restarted, its disk fills up at a random statement, time passes. The issuer "
    "checks every request (order, same tokens per part, no concurrency, stored before sent); after the faults end every voucher must complete. "
    "Distinct by sequence of answers and restarts."
)
ASSUMPTIONS = ["the issuer grants a part again when it is asked with the tokens it was first asked with, as the payment server does"]

MIX = ["grant"] * 5 + ["grant-lost"] * 2 + ["unpaid"] * 2 + ["error"] * 3


class World(redeem.World):
    faulty = True

    def sync_answer(self, a):
        how = self.choose(a)
        if how == "grant" and self.storm:
            how = self.rng.choice(MIX)
        self.decide(a, how)()

    storm = True

    def choose(self, a):
        v = self.vouchers[a.number]
        if v.stolen:
            return "spent" if not self.storm or self.rng.random() < 0.4 else "error"
        if not self.storm:
            return "grant"
        how = self.rng.choice(MIX)
        if how == "unpaid" and v.granted:
            # Once it has granted a part the issuer has been paid.
            how = "error"
        return how


def history(rng, mon):
    w = World(rng, mon, sync=False)
    for _ in range(rng.randrange(15, 60)):
        r = rng.random()
        run = w.running()
        if r < 0.12 and len(w.vouchers) < 4:
            if rng.random() < 0.1:
                w.raw.vz_plan = rng.randrange(4)
            w.submit(count=rng.choice([None, None, w.groups, w.groups * 2 + 1]))
            w.raw.vz_plan = None
        elif r < 0.17 and w.vouchers:
            w.submit(rng.choice(list(w.vouchers.values())))
        elif r < 0.75 and run:
            a = rng.choice(run)
            if rng.random() < 0.15:
                w.raw.vz_plan = rng.randrange(8)
            w.answer(a, w.choose(a))
            w.raw.vz_plan = None
        elif r < 0.9:
            w.advance(rng.choice([0.5, 1, 3, 15]))
        elif r < 0.94:
            w.boot()
    settle(w, mon)


def settle(w, mon):
    """The faults end: every voucher completes within a bounded time."""
    w.storm = False
    w.raw.vz_plan = None
    for _ in range((len(w.vouchers) + 1) * (w.groups + 2)):
        run = w.running()
        if not run:
            w.advance(redeem.PATIENCE)
        for a in run:
            w.answer(a, w.choose(a))
    for v in w.vouchers.values():
        if v.stolen and v.refused is not None:
            mon.event("refused")
            continue
        mon.check(not v.stolen and v.stored == w.groups, "a voucher never completes", "last outcome", v.last, "parts stored", v.stored, "of", w.groups)
    before = {v.number: v.attempts for v in w.vouchers.values()}
    w.boot()
    w.advance(3)
    for v in w.vouchers.values():
        mon.equal(v.attempts, before[v.number], "a finished voucher is requested again")


def immediate(rng, mon):
    """The same with an issuer whose answers arrive at once."""
    w = World(rng, mon, sync=True)
    for _ in range(rng.randrange(5, 20)):
        r = rng.random()
        if r < 0.3 and len(w.vouchers) < 4:
            w.submit()
        elif r < 0.8:
            w.advance(rng.choice([0.5, 1, 3]))
        else:
            w.boot()
    w.storm = False
    for _ in range(6):
        w.advance(redeem.PATIENCE)
    for v in w.vouchers.values():
        mon.check(v.refused is not None or v.stored == w.groups, "a voucher never completes", v.last, v.stored)


def grid(rng, mon):
    """A client which is a real process and is killed again and again."""
    with realgrid.session(rng, mon, 1, 4096, 16 * rng.choice([5, 30, 100])) as g:
        c = realgrid.Client(g).start()
        numbers = []
        g.issuer.troubled = rng.random() < 0.5
        for _ in range(rng.randrange(2, 6)):
            g.touch()
            if len(numbers) < 3 and rng.random() < 0.7:
                numbers.append(cli.voucher_number(rng).decode())
                mon.note("submitted")
                code, body = c.plugin("PUT", "/voucher", {"voucher": numbers[-1]})
                mon.equal(code, 200, "a voucher is not accepted")
            time.sleep(rng.choice([0, 0.03, 0.1, 0.3, 1]) * rng.random())
            rng.choice([c.kill, c.kill, c.stop])()
            mon.note("restarted with", len(g.issuer.asked), "parts redeemed")
            mon.event("grid-restarts")
            c.start()
        g.issuer.troubled = False
        for n in range(4):
            g.touch()
            c.kill()
            c.start()
            end = time.time() + 12
            while time.time() < end and any(c.state(v) != "redeemed" for v in numbers):
                realgrid.patience()
                time.sleep(0.2)
            if all(c.state(v) == "redeemed" for v in numbers):
                break
        states = [c.state(v) for v in numbers]
        mon.check("double-spend" not in states, "the issuer is asked again with other tokens", states)
        if any(s != "redeemed" for s in states):
            mon.check(set(states) <= {"pending", "redeeming", "error"}, "a voucher is in an odd state", states)
            raise realgrid.Unavailable("redemption takes long: %r" % (states,))
        mon.equal(c.report()[0], g.tokens * len(numbers), "redeemed vouchers do not give the tokens paid for")
        mon.equal(len(c.db.spendable()), g.tokens * len(numbers), "redeemed vouchers do not give the tokens paid for")
        mon.equal(g.issuer.granted(), g.tokens * len(numbers), "other tokens were asked for than are due")
        mon.sig(len(numbers), g.issuer.again)
        mon.event("grid-completed", len(numbers))
        mon.event("grid-repeated-requests", g.issuer.again)


SCENARIOS = [
    Scenario("history", history, quick=320, thorough=6000,
             needs=["completed", "restarts", "refusals-over-http", "answer-grant-lost", "answer-unpaid", "answer-error", "storage-failures", "repeated-requests", "resubmitted", "refused", "submissions-failed"]),
    Scenario("immediate", immediate, quick=60, thorough=1000, needs=["completed", "restarts"]),
    Scenario("grid", grid, 2, 60, timeout=400),
]
