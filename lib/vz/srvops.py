"""
Hostile and ordinary storage operations against the authorizing server, with
the oracles of C01 (authorization), C03 (leases) and C04 (spend records).
Each check turns on its own oracle and biases the workload.
"""

from base64 import b64encode

from . import ppass
from .srv import MONTH, MorePassesRequired, NewLengthRejected, ceil_passes, message


def mutable_prices(pv, shares, tw, now):
    """
    The price of a write to these shares as documented, and what the same rule
    yields if the bytes of an expired share beyond the written range are not
    counted (known finding C02 expired-partial-write).
    """
    full = short = 0
    for num, (testv, datav, new_length) in tw.items():
        if not datav:
            continue
        end = max(off + len(d) for off, d in datav)
        share = shares.get(num)
        if share is None:
            full += ceil_passes(pv, [end])
            short += ceil_passes(pv, [end])
        elif share.active(now):
            n = ceil_passes(pv, [max(end, share.size)]) - ceil_passes(pv, [share.size])
            full += n
            short += n
        else:
            full += ceil_passes(pv, [max(end, share.size)])
            short += ceil_passes(pv, [end])
    return full, short


def expired_partial_write(mon):
    """
    The price rule itself is decided (and this known defect in it reported)
    under C02; the other properties take the price as charged.
    """
    mon.event("expired-partial-write")
    if mon.prop == "C02":
        mon.finding(
            "expired-partial-write",
            "a write inside an expired mutable share is charged for the written range and not for the whole share that gets a new lease",
        )


def offer(w, mon, rng, required, op, si):
    """A list of passes around the required number, in hostile order."""
    n_valid = max(0, rng.choice([required, required, required, required - 1, required + 1, 0, rng.randrange(required + 2)]))
    n_bad = rng.choice([0, 0, 0, 1, 1, 2, 3])
    if rng.random() < 0.15:
        # as many as needed, but all of them are bad
        n_valid, n_bad = rng.choice([(0, required), (0, required + 1), (max(0, required - 1), 1)])
    bad = [w.invalid(op, si) for _ in range(n_bad)]
    # Passes the server has seen, and found good, with another request.
    past = [p for o, s, p in w.__dict__.setdefault("presented", []) if (o, s) != (op, si)]
    for i in range(n_bad):
        if past and rng.random() < 0.4:
            bad[i] = rng.choice(past)
            mon.event("presented-again")
    good = w.valid(n_valid, op, si)
    for i in range(n_bad):
        if good and rng.random() < 0.15:
            # A forged signature next to a good one of the same token.
            token = rng.choice(good).split(b" ")[0]
            forged = token + b" " + b64encode(bytes(rng.randrange(256) for _ in range(64)))
            if not ppass.is_valid(w.key, forged, message(op, si)):
                bad[i] = forged
                mon.event("token-again-forged")
    w.presented += [(op, si, p) for p in good]
    tagged = [(True, p) for p in good] + [(False, p) for p in bad]
    rng.shuffle(tagged)
    return tagged


class Ops:
    def __init__(self, w, mon, oracle, step=0):
        self.w, self.mon, self.oracle = w, mon, oracle

    def refused_cleanly(self, before, spent_before, metric_before, what):
        w, mon = self.w, self.mon
        mon.check(w.disk() == before, "a refused %s changed what is stored" % what)
        mon.check(len(w.spender.calls) == spent_before, "a refused %s recorded spent passes" % what)
        mon.check(w.metric() == metric_before, "a refused %s was counted as spending" % what)

    def call(self, op, si, required_full, required_short, tagged, do):
        """
        Perform one paid call.  Returns (granted, result, required).
        """
        w, mon = self.w, self.mon
        passes = [p for _, p in tagged]
        n_valid = sum(1 for ok, _ in tagged if ok)
        bad = frozenset(i for i, (ok, _) in enumerate(tagged) if not ok)
        before = w.disk()
        spent_before = len(w.spender.calls)
        metric_before = w.metric()
        mon.note(op, "required", required_full, "valid", n_valid, "bad", sorted(bad))
        try:
            result = do(passes)
        except MorePassesRequired as e:
            mon.event("refused-" + op)
            need = required_full
            if required_short != required_full and n_valid < required_short:
                need = required_short
                expired_partial_write(mon)
            if self.oracle == "C01":
                mon.check(n_valid < need, "%s refused although enough valid passes were presented" % op, n_valid, need)
                mon.equal(
                    (e.valid_count, e.required_count, frozenset(e.signature_check_failed)),
                    (n_valid, need, bad),
                    "refusal of %s misreports the presented passes" % op,
                )
            if self.oracle in ("C01", "C04"):
                self.refused_cleanly(before, spent_before, metric_before, op)
            return False, None, need
        mon.event("granted-" + op)
        need = required_full
        if n_valid < required_full and n_valid >= required_short:
            need = required_short
            expired_partial_write(mon)
        elif required_short != required_full:
            need = None
        if self.oracle == "C01":
            mon.check(
                n_valid >= (need if need is not None else required_full),
                "%s granted with too few valid passes" % op,
                "valid", n_valid, "required", required_full, "presented", len(passes),
            )
        if self.oracle == "C04":
            self.check_spend(op, tagged, spent_before, metric_before, need, required_short, result)
        return True, result, need

    def check_spend(self, op, tagged, spent_before, metric_before, need, short, result):
        w, mon = self.w, self.mon
        new = [p for call in w.spender.calls[spent_before:] for p in call]
        valid_preimages = [p.split(b" ")[0] for ok, p in tagged if ok]
        count, total = w.metric()
        if op == "allocate_buckets":
            # Shares already here were already paid for.
            price = ceil_passes(w.pass_value, [self.allocated_size] * len(result[1]))
        elif need is None:
            price = None
        else:
            price = need
        mon.event("spends")
        mon.check(len(set(new)) == len(new), "a pass was recorded as spent twice for one operation", op)
        mon.check(set(new) <= set(valid_preimages), "a pass that was not validly presented was recorded as spent", op)
        mon.equal(count - metric_before[0], 1.0, "a successful %s was not counted exactly once" % op)
        if price is None:
            return
        exact = len(valid_preimages) == price
        if exact:
            mon.equal(sorted(new), sorted(valid_preimages), "the passes paying for %s were not all recorded as spent" % op)
        else:
            mon.check(len(new) >= price, "fewer passes recorded as spent than %s cost" % op, len(new), price)
        if op == "allocate_buckets":
            mon.equal(len(new), price, "passes recorded as spent for allocation differ from the shares allocated")
        if op == "add_lease" and not exact:
            # every valid pass presented is consumed
            mon.check(total - metric_before[1] >= price, "spending metric below the price of %s" % op)
        else:
            mon.equal(total - metric_before[1], float(price), "the spending metric moved by something else than the price of %s" % op)
        if price:
            mon.event("spends-nonzero")

    # -- operations --------------------------------------------------------

    def allocate(self, rng, si):
        w, mon = self.w, self.mon
        shares = w.shares(si)
        nums = set(rng.sample(range(8), rng.randrange(1, 5)))
        if shares and rng.random() < 0.4:
            nums |= set(rng.sample(sorted(shares), 1))
        size = w.size()
        self.allocated_size = size
        required = ceil_passes(w.pass_value, [size] * len(nums))
        tagged = offer(w, mon, rng, required, "allocate_buckets", si)
        secret = rng.choice(w.secrets)
        incoming = {n for (s, n, _) in w.still_open() if s == si}
        t0 = w.now()
        before = w.all_shares()
        room = None
        if rng.random() < 0.1:
            # The disk has room for some of the shares only.
            room = w.backend.allocated_size() + size * rng.randrange(len(nums)) + rng.randrange(size + 1)
            w.backend.get_available_space = lambda: room
            mon.event("short-of-room")
        try:
            ok, result, need = self.call(
                "allocate_buckets", si, required, required, tagged,
                lambda passes: w.server.doRemoteCall(
                    "allocate_buckets", (passes, si, secret, secret, nums, size, w.canary), {}
                ),
            )
        finally:
            w.backend.__dict__.pop("get_available_space", None)
        if not ok:
            return
        got, writers = result
        if self.oracle == "C01" and room is not None:
            mon.check(set(writers) <= nums - set(shares) - incoming, "the shares granted are not among those requested and absent")
        elif self.oracle == "C01":
            mon.equal(set(writers), nums - set(shares) - incoming, "the shares granted differ from the shares requested and absent")
            mon.equal(set(got), set(shares), "the shares reported as already present differ from those present")
        finished = {}
        for num, writer in sorted(writers.items()):
            mode = rng.random()
            if mode < 0.15:
                w.open_writers.append((si, num, writer))
                continue
            data = bytes([num + 1]) * size
            if size:
                writer.doRemoteCall("write", (0, data), {})
            if mode < 0.25:
                writer.doRemoteCall("abort", (), {})
                continue
            w.clock.advance(rng.choice([0, 5]))
            writer.doRemoteCall("close", (), {})
            finished[num] = data
        if rng.random() < 0.2:
            # the uploader disappears: nothing it left open may be kept
            w.canary.disconnect()
            w.open_writers = []
        if self.oracle == "C03":
            after = w.all_shares()
            for s, old in before.items():
                for num, share in old.items():
                    mon.equal(after[s].get(num) and after[s][num].leases, share.leases, "allocation changed the leases of an existing share")
            for num, data in finished.items():
                share = after[si].get(num)
                mon.check(share is not None and share.data == data, "a paid-for share is not stored")
                mon.equal(
                    share.leases, [(b"%d" % w.secrets.index(secret), t0 + MONTH)],
                    "a newly allocated share does not have exactly one 31 day lease",
                )
                mon.event("leases-granted")
            mon.equal(
                {n for n in after[si]} - set(before[si]), set(finished), "shares appeared which were not completed"
            )
        for s in w.sis:
            assert all(x.kind == w.kinds[s] for x in w.shares(s).values())

    def close_some(self, rng):
        w = self.w
        if w.still_open() and rng.random() < 0.6:
            si, num, writer = w.open_writers.pop(rng.randrange(len(w.open_writers)))
            writer.doRemoteCall("close", (), {})

    def add_lease(self, rng, si):
        w, mon = self.w, self.mon
        shares = w.shares(si)
        required = ceil_passes(w.pass_value, [s.size for s in shares.values()])
        tagged = offer(w, mon, rng, required, "add_lease", si)
        secret = rng.choice(w.secrets)
        before = w.all_shares()
        t0 = w.now()
        ok, result, need = self.call(
            "add_lease", si, required, required, tagged,
            lambda passes: w.server.doRemoteCall("add_lease", (passes, si, secret, secret), {}),
        )
        if ok and self.oracle == "C03":
            me = b"%d" % w.secrets.index(secret)
            after = w.all_shares()
            for s, old in before.items():
                for num, share in old.items():
                    new = after[s][num]
                    if s != si:
                        mon.equal(new.leases, share.leases, "add_lease changed leases of another storage index")
                        continue
                    mon.equal(new.data, share.data, "add_lease changed share data")
                    mon.equal(
                        [l for l in new.leases if l[0] != me],
                        [l for l in share.leases if l[0] != me],
                        "add_lease changed a lease held by another renewal secret",
                    )
                    mine = [l[1] for l in new.leases if l[0] == me]
                    mon.equal(mine, [max([t0 + MONTH] + [l[1] for l in share.leases if l[0] == me])], "add_lease did not leave exactly one 31 day lease of the caller on a share it was paid for")
                    mon.event("leases-granted")

    def write_mutable(self, rng, si):
        w, mon = self.w, self.mon
        shares = w.shares(si)
        tw = {}
        candidates = sorted(shares) + rng.sample(range(8), 2)
        for num in set(rng.sample(candidates, min(len(candidates), rng.randrange(1, 4)))):
            share = shares.get(num)
            datav = []
            for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
                size = w.size()
                off = rng.choice([0, 0, w.size(), share.size if share else 0])
                data = bytes([rng.randrange(256)]) * size
                datav.append((off, data))
            testv = []
            if rng.random() < 0.3:
                if share is None:
                    testv = [(0, 1, b"eq", rng.choice([b"", b"", b"x"]))]
                else:
                    n = min(3, share.size)
                    testv = [(0, n, b"eq", share.data[:n] if rng.random() < 0.6 else b"no!"[:n])]
            new_length = None
            if rng.random() < 0.07:
                new_length = rng.choice([0, 1, 10])
            tw[num] = (testv, datav, new_length)
        now = w.now()
        if any(t[2] is not None for t in tw.values()):
            before, s0, m0 = w.disk(), len(w.spender.calls), w.metric()
            passes = w.valid(40, "slot_testv_and_readv_and_writev", si)
            try:
                w.server.doRemoteCall(
                    "slot_testv_and_readv_and_writev",
                    (passes, si, (b"w" * 32, w.secrets[0], w.secrets[0]), tw, []), {},
                )
            except NewLengthRejected:
                mon.event("truncation-refused")
                if self.oracle == "C01":
                    self.refused_cleanly(before, s0, m0, "truncating write")
            else:
                if self.oracle == "C01":
                    mon.violate("a write that sets a length was accepted", tw)
            return
        full, short = mutable_prices(w.pass_value, shares, tw, now)
        secret = rng.choice(w.secrets)
        tagged = offer(w, mon, rng, rng.choice([full, short]), "slot_testv_and_readv_and_writev", si)
        before = w.all_shares()
        rv = [(0, 10), (5, 1000)] if rng.random() < 0.5 else []
        ok, result, need = self.call(
            "slot_testv_and_readv_and_writev", si, full, short, tagged,
            lambda passes: w.server.doRemoteCall(
                "slot_testv_and_readv_and_writev",
                (passes, si, (b"w" * 32, secret, secret), tw, rv), {},
            ),
        )
        if not ok:
            return
        after = w.all_shares()
        good, data = result
        if self.oracle == "C01":
            for num, share in before[si].items():
                mon.equal(data.get(num), [share.data[o:o + n] for o, n in rv], "a read returned something else than the stored data")
            if not good:
                mon.equal({n: s.data for n, s in after[si].items()}, {n: s.data for n, s in before[si].items()}, "a write whose test failed changed data")
        if self.oracle == "C03":
            me = b"%d" % w.secrets.index(secret)
            for s, old in before.items():
                for num, share in old.items():
                    new = after[s][num]
                    written = s == si and num in tw and tw[num][1]
                    if written and not share.active(now):
                        mine = [l[1] for l in new.leases if l[0] == me]
                        mon.equal(mine, [now + MONTH], "a write that paid for an expired share did not give it a 31 day lease")
                        mon.equal([l for l in new.leases if l[0] != me], [l for l in share.leases if l[0] != me], "a write changed a lease held by another renewal secret")
                        mon.event("leases-granted")
                        mon.event("expired-renewed")
                    else:
                        mon.equal(new.leases, share.leases, "a write changed leases that were not paid for")
            for num, new in after[si].items():
                if num not in before[si]:
                    if tw[num][1]:
                        mon.equal(new.leases, [(me, now + MONTH)], "a share created by a write does not have exactly one 31 day lease")
                        mon.event("leases-granted")
                    else:
                        mon.equal(new.size, 0, "an unpaid share holds data")
                        mon.equal(new.leases, [], "an unpaid share has a lease")

    def free_read(self, rng, si):
        """Reads need no passes and change nothing."""
        w, mon = self.w, self.mon
        before, s0, m0 = w.disk(), len(w.spender.calls), w.metric()
        shares = w.shares(si)
        stats = w.server.doRemoteCall("stat_shares", ([si],), {})
        sizes = w.server.doRemoteCall("share_sizes", (si, None), {})
        if self.oracle == "C01":
            self.refused_cleanly(before, s0, m0, "read")
        if self.oracle == "C03":
            mon.equal(sizes, {n: s.size for n, s in shares.items()}, "reported share sizes differ from what is stored")
            mon.equal(
                {n: (st.size, st.lease_expiration) for n, st in stats[0].items()},
                {n: (s.size, max([l[1] for l in s.leases] or [0])) for n, s in shares.items()},
                "reported share stats differ from what is stored",
            )

    def malformed(self, rng, si):
        """Passes of the right length and the wrong shape pay for nothing."""
        w, mon = self.w, self.mon
        op = "add_lease"
        shares = w.shares(si)
        required = ceil_passes(w.pass_value, [s.size for s in shares.values()])
        if required == 0:
            return
        before, s0, m0 = w.disk(), len(w.spender.calls), w.metric()
        bad = rng.choice([b"x" * 177, b" " * 177, b"\x00" * 88 + b" " + b"\xff" * 88])
        passes = w.valid(required - 1, op, si) + [bad]
        rng.shuffle(passes)
        try:
            w.server.doRemoteCall("add_lease", (passes, si, w.secrets[0], w.secrets[0]), {})
        except Exception:
            mon.event("malformed-refused")
            if self.oracle == "C01":
                self.refused_cleanly(before, s0, m0, "call with a malformed pass")
        else:
            if self.oracle == "C01":
                mon.violate("a call was granted with a malformed pass", bad)


def run(rng, mon, oracle, steps):
    from .srv import World

    w = World(rng)
    ops = Ops(w, mon, oracle)
    w.seed_shares()
    mon.sig("pv", w.pass_value)
    for _ in range(steps):
        si = rng.choice(w.sis)
        if w.kinds[si] == "immutable":
            f = rng.choice([ops.allocate, ops.allocate, ops.add_lease, ops.free_read, ops.malformed])
        else:
            f = rng.choice([ops.write_mutable, ops.write_mutable, ops.write_mutable, ops.add_lease, ops.free_read])
        before = dict(mon.events)
        f(rng, si)
        mon.sig(f.__name__, tuple(sorted((k, v - before.get(k, 0)) for k, v in mon.events.items() if v != before.get(k, 0) and k != "oracle-evaluations")))
        ops.close_some(rng)
        if rng.random() < 0.3:
            w.clock.advance(rng.choice([1, rng.randrange(MONTH), MONTH - 1, MONTH]))
    return w
