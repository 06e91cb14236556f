"""Only tokens proven to be signed by a permitted key can be spent."""

import json
import os

from twisted.internet.defer import Deferred
from twisted.internet.task import Clock

from _zkapauthorizer.controller import PaymentController
from _zkapauthorizer.model import NotEnoughTokens, VoucherStore
from _zkapauthorizer.replicate import with_replication

from vz import cli, issuer, ppass
from vz.core import Scenario, scratch_dir

PROPERTY = "C07"
LEVEL = "exploration"
RULE = (
    "Random redemption histories of the real controller and redeemer against an in-memory HTTP issuer with real keys, permitted and not, whose replies "
    "are honest or wrong in one of 14 ways; every token stored is attributed to a key with the Ristretto library and compared with what is offered for "
    "spending and counted, with spending and restarts in between. Distinct by sequence of replies."
)
ASSUMPTIONS = ["the issuer answers over HTTP at once; lost replies are C06"]


class World:
    def __init__(self, rng, mon):
        self.rng, self.mon = rng, mon
        self.good = [ppass.signing_key() for _ in range(rng.choice([1, 1, 2]))]
        self.bad = [ppass.signing_key() for _ in range(2)]
        self.names = {ppass.public_key_text(k): k for k in self.good + self.bad}
        self.allowed = {ppass.public_key_text(k) for k in self.good}
        self.groups = rng.choice([1, 2, 4])
        self.path = os.path.join(scratch_dir(), "db.sqlite3")
        self.past = []
        self.got = {}  # voucher -> {part: (key text, n)}
        self.blinded = {}  # (voucher, part) -> texts
        self.raw = None
        self.t = 0.0
        self.lying = True
        self.gone = set()
        self.issuer = issuer.Issuer(self.answer)
        self.db = cli.Reader(self.path)
        self.boot()

    def boot(self):
        if self.raw is not None:
            self.raw.close()
            self.t += self.clock.seconds()
            self.mon.event("restarts")
        self.clock = Clock()
        self.raw = cli.connect(self.path)
        self.store = VoucherStore.from_connection(
            1, lambda: cli.EPOCH + cli.timedelta(seconds=self.t + self.clock.seconds()), with_replication(self.raw, False)
        )
        self.controller = PaymentController(
            self.clock, self.store, issuer.redeemer(self.issuer), 8, set(self.allowed), num_redemption_groups=self.groups
        )
        self.check()

    def answer(self, body):
        rng, mon = self.rng, self.mon
        mon.equal(set(body), {"redeemVoucher", "redeemCounter", "redeemTokens"}, "the redemption request has other fields")
        number, part, texts = body["redeemVoucher"], body["redeemCounter"], body["redeemTokens"]
        mon.equal(self.blinded.setdefault((number, part), texts), texts, "a part is requested again with other blinded tokens")
        before = self.db.unspent()
        self.check()
        key = rng.choice(self.good if rng.random() < 0.6 else self.bad)
        if self.lying and rng.random() < 0.5:
            other = rng.choice([k for k in self.good + self.bad if k is not key])
            lie = rng.choice(issuer.DISHONEST)
            reply = lie(rng, key, other, texts, self.past)
            if reply is not None:
                mon.event("lies")
                mon.event("lie-" + lie.__name__)
                mon.sig(lie.__name__, part)
                mon.note("lie", lie.__name__, number[:6], part)
                return reply
        d = issuer.grant(key, texts)
        self.past.append(d)
        mon.event("honest-permitted" if key in self.good else "honest-unpermitted")
        mon.sig("honest", key in self.good, part)
        mon.note("honest", key in self.good, number[:6], part)
        self.got.setdefault(number, {})[part] = (d["public-key"], len(texts))
        return 200, json.dumps(d).encode("ascii")

    def check(self):
        mon = self.mon
        # What should be stored, by key.
        want = {}
        for parts in self.got.values():
            for name, n in parts.values():
                want[name] = want.get(name, 0) + n
        have = {}
        allowed = set()
        unspent = self.db.unspent()
        self.attributed = getattr(self, "attributed", {})
        for t in unspent:
            owner = self.attributed.get(t)
            if owner is None:
                owners = [name for name, k in self.names.items() if issuer.signed_by(k, t)]
                mon.equal(len(owners), 1, "a stored token was not signed by the key it was proven for")
                owner = self.attributed[t] = owners[0]
            have[owner] = have.get(owner, 0) + 1
            if owner in self.allowed:
                allowed.add(t)
        for t in self.gone:
            have[self.attributed[t]] = have.get(self.attributed[t], 0) + 1
        mon.equal(have, want, "the stored tokens are not those which were proven")
        mon.equal(self.store.count_unblinded_tokens(), len(allowed), "the count of spendable tokens is not that of permitted keys")
        mon.equal(cli.available(self.store), allowed, "the tokens offered for spending are not those of permitted keys")
        try:
            self.store.get_unblinded_tokens(len(allowed) + 1)
        except NotEnoughTokens:
            pass
        else:
            mon.violate("more tokens are offered for spending than permitted keys signed")
        for v in self.store.list():
            number = v.number.decode("ascii")
            parts = self.got.get(number, {})
            state = self.controller.get_voucher(v.number).to_json_v1()["state"]
            if len(parts) == self.groups and number not in self.answering:
                mon.equal(state["name"], "redeemed", "a voucher with all parts is not redeemed")
                mon.equal(
                    state["token-count"], sum(n for name, n in parts.values() if name in self.allowed),
                    "the reported token count is not that of spendable tokens",
                )
                mon.event("token-counts")
            else:
                mon.check(state["name"] not in ("redeemed", "double-spend"), "a voucher without all parts is final", state)

    answering = frozenset()

    def spend(self):
        n = self.store.count_unblinded_tokens()
        if not n:
            return
        toks = self.store.get_unblinded_tokens(self.rng.randrange(1, n + 1))
        texts = {t.unblinded_token.decode("ascii") for t in toks}
        self.mon.check(all(self.attributed[t] in self.allowed for t in texts), "a token of an unpermitted key was handed out")
        self.store.discard_unblinded_tokens(toks)
        self.gone |= texts
        self.mon.event("spent", len(toks))


def history(rng, mon):
    w = World(rng, mon)
    for _ in range(rng.randrange(6, 16)):
        r = rng.random()
        if r < 0.35 and len(w.blinded) < 12:
            cli.now_result(Deferred.fromCoroutine(w.controller.redeem(cli.voucher_number(rng), rng.randrange(w.groups, 9))), "a redemption")
        elif r < 0.65:
            w.clock.advance(1.1)
        elif r < 0.85:
            w.spend()
        else:
            w.boot()
        w.check()
    w.lying = False
    for _ in range(3):
        w.clock.advance(1.1)
        w.check()
    for v in w.store.list():
        mon.equal(len(w.got.get(v.number.decode("ascii"), {})), w.groups, "an honest issuer's grant is not accepted")
    w.boot()
    w.spend()
    w.check()


SCENARIOS = [
    Scenario("history", history, quick=120, thorough=2500,
             needs=["lies", "honest-permitted", "honest-unpermitted", "restarts", "token-counts", "spent"] + ["lie-" + f.__name__ for f in issuer.DISHONEST]),
]
