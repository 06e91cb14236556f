"""Vouchers submitted over HTTP are validated, stored durably and never duplicated."""

import json
import os
import shutil

from twisted.internet.task import Clock

from vz import cli, redeem, web
from vz.core import Scenario, scratch_dir
from checks import c08

PROPERTY = "C14"
LEVEL = "exploration"
RULE = (
    "Well-formed, malformed and repeated submissions and lookups through the real HTTP server over a real database with faults, crashes and every "
    "redemption outcome. After each request the database read on its own must hold exactly the accepted vouchers with their blinded tokens; a copy "
    "of the files taken at the moment of the answer must already hold them. Distinct by sequence of request kinds and answers."
)
ASSUMPTIONS = ["strings of 44 characters which decode to other than 32 bytes are not judged", "the content type of a submission is not judged"]

B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
SEGMENT_SAFE = set(B64) | {"="}


def bad_voucher(rng):
    good = cli.voucher_number(rng).decode("ascii")
    i = rng.randrange(43)
    return rng.choice(
        [
            "", good[:-1], good[1:], good + "=", good + "A", " " + good[1:], good[:i] + rng.choice("!@$*~. \t\n,()'") + good[i + 1 :],
            good[:i] + rng.choice("+/") + good[i + 1 :], good[:i] + "é" + good[i + 1 :], good[:i] + "\u2603" + good[i + 1 :], good[:10], good + good, good * 20, "x", "=" * 44,
            good[:i] + "\x00" + good[i + 1 :], good[:i] + "=" + good[i + 1 :] if i < 40 else good[:40], "voucher",
            "\u0661" * 44, "\uff21" * 44, good[:-1] + "\n",
        ]
    )


def bad_body(rng):
    """(kind, bytes) of a malformed submission."""
    good = cli.voucher_number(rng).decode("ascii")
    k = rng.randrange(16)
    if k < 6:
        return "voucher", json.dumps({"voucher": bad_voucher(rng)}).encode("utf-8")
    if k == 6:
        return "type", json.dumps({"voucher": rng.choice([None, 1, 1.5, True, [good], {"a": good}, [], {}, list(good), 10**43])}).encode()
    if k == 7:
        return "keys", json.dumps(rng.choice([{}, {"Voucher": good}, {"voucher": good, "x": 1}, {"voucher ": good}, {"number": good}, {"voucher": good, "version": 1}])).encode()
    if k == 8:
        return "shape", json.dumps(rng.choice([[], [good], good, 1, None, True, [["voucher", good]], ["voucher"], "voucher"])).encode()
    if k == 9:
        return "empty", b""
    if k == 10:
        return "truncated", json.dumps({"voucher": good}).encode()[: rng.randrange(1, 50)]
    if k == 11:
        return "trailing", json.dumps({"voucher": good}).encode() + rng.choice([b"x", b"{}", b","])
    if k == 12:
        return "binary", bytes(rng.randrange(256) for _ in range(rng.randrange(1, 60)))
    if k == 13:
        return "form", b"voucher=" + good.encode()
    if k == 14:
        return "raw", good.encode()
    return "escape", json.dumps({"voucher": good[:20] + "\ud800" + good[21:]}).encode()


class World(c08.World):
    """The redemption model, but every submission and every look goes over HTTP."""

    def start(self):
        base = os.path.dirname(os.path.dirname(self.path))
        self.raw = redeem.faulty_connect(self.path)
        self.node = web.ClientNode(
            base, self.redeemer, self.clock, self.now, {"default-token-count": str(self.default), "allowed-public-keys": "allowed-key"}, raw=self.raw
        )
        self.store, self.controller = self.node.root.store, self.node.root.controller

    def __init__(self, rng, mon, sync=False):
        self.base = scratch_dir()
        os.makedirs(os.path.join(self.base, "private"))
        self._path = os.path.join(self.base, "private", "db.sqlite3")
        redeem.World.__init__(self, rng, mon, groups=16, sync=sync)

    path = property(lambda self: self._path, lambda self, v: None)

    def put(self, number, headers=None):
        body = json.dumps({"voucher": number.decode("ascii")}).encode()
        if self.rng.random() < 0.2:
            body = body.replace(b" ", self.rng.choice([b"\n  ", b"\t", b""]))
        return self.node.call(b"PUT", b"/voucher", body, [(b"Content-Type", b"application/json")])

    def submit(self, v=None, count=None):
        mon, rng = self.mon, self.rng
        known = v is not None
        if not known:
            n = cli.voucher_number(rng)
            v = redeem.V(n, self.default, rng.random() < 0.1)
            v.created = self.now()
            self.vouchers[n] = v
            mon.event("submitted")
        else:
            mon.event("resubmitted")
        before = self.db.dump()
        attempts = v.attempts
        idle = v.attempt is None or v.attempt.over
        open_work = self.open_work(v)
        if not self.sync and rng.random() < 0.12:
            self.raw.vz_plan = rng.randrange(4)
        hits = self.raw.vz_hits
        r = self.put(v.number)
        failed = self.raw.vz_hits > hits
        self.raw.vz_plan = None
        mon.note("PUT", v.number[:6], r.code, "fault" if failed else "")
        mon.sig("put", known, r.code, failed)
        stored = self.db_has(v.number)
        if r.code == 200:
            # What would a crash right now leave?
            copy = os.path.join(scratch_dir(), "db.sqlite3")
            for suffix in ("", "-journal", "-wal"):
                if os.path.exists(self.path + suffix):
                    shutil.copy(self.path + suffix, copy + suffix)
            d = cli.Reader(copy)
            mon.check(bool(d.rows("SELECT 1 FROM [vouchers] WHERE [number] = ?", (v.number.decode(),))), "a voucher was accepted but a crash now loses it")
            [[part, state]] = d.rows("SELECT [counter], [state] FROM [vouchers] WHERE [number] = ?", (v.number.decode(),))
            mon.check(
                part > 0 or state != "pending" or bool(d.rows("SELECT 1 FROM [tokens] WHERE [voucher] = ? AND [counter] = 0", (v.number.decode(),))),
                "a voucher was accepted but its redemption material is not stored",
            )
            mon.event("accepted")
        else:
            mon.check(failed, "a well-formed submission is refused", r.status)
            mon.check(r.code >= 500, "a failure to store is answered with", r.status)
            mon.event("refused-for-storage-failure")
        if not stored:
            mon.check(r.code != 200, "a voucher was accepted but not stored")
            del self.vouchers[v.number]
        elif not known:
            mon.check(attempts < v.attempts or failed, "an accepted voucher is not worked on")
        elif not failed:
            if not idle or not open_work:
                mon.equal(v.attempts, attempts, "a repeated submission makes another request")
                mon.check(self.db.dump() == before, "a repeated submission changes the database")
                mon.event("repeats")
        if known and failed:
            v.last = ("error", self.now(), "database or disk is full") if idle and self.open_work(v) and v.attempts == attempts else v.last
        if not known and stored and failed and v.attempts == 0:
            v.last = ("error", self.now(), "database or disk is full")
        self.sync_progress()
        return v

    def malformed(self):
        mon, rng = self.mon, self.rng
        before, asked = self.db.dump(), sum(v.attempts for v in self.vouchers.values())
        kind, body = bad_body(rng)
        r = self.node.call(b"PUT", b"/voucher", body, [(b"Content-Type", b"application/json")])
        mon.note("PUT bad", kind, r.code)
        mon.sig("bad", kind)
        mon.equal(r.code, 400, "a malformed submission (%s, %r) is answered wrongly" % (kind, body[:120]))
        mon.check(self.db.dump() == before, "a malformed submission stores something")
        mon.equal(sum(v.attempts for v in self.vouchers.values()), asked, "a malformed submission starts a redemption")
        mon.event("malformed")

    def observe(self):
        mon, rng = self.mon, self.rng
        before = self.db.dump() if rng.random() < 0.2 else None
        r = self.node.call(b"GET", b"/voucher")
        mon.equal(r.code, 200, "the list of vouchers is not answered")
        mon.equal(r.type, b"application/json", "the list of vouchers has the wrong type")
        doc = r.json()
        mon.equal(set(doc), {"vouchers"}, "the list of vouchers has the wrong shape")
        numbers = [v["number"] for v in doc["vouchers"]]
        mon.equal(sorted(numbers), sorted(n.decode() for n in self.vouchers), "the list does not hold exactly the accepted vouchers")
        listed = {v["number"]: v for v in doc["vouchers"]}
        for v in self.vouchers.values():
            n = v.number.decode()
            r = self.node.call(b"GET", b"/voucher/" + v.number)
            mon.equal(r.code, 200, "a stored voucher is not found")
            mon.equal(r.type, b"application/json", "a voucher has the wrong type")
            one = r.json()
            mon.equal(one, listed[n], "a voucher is not the same in the list")
            mon.check(set(one) >= {"version", "number", "expected-tokens", "created", "state"}, "a voucher has the wrong shape", one)
            mon.equal(one["version"], 1, "a voucher has the wrong version")
            self.compare(v, one)
        r = self.node.call(b"GET", b"/voucher/" + cli.voucher_number(rng))
        mon.equal(r.code, 404, "an unknown voucher is answered wrongly")
        if before is not None:
            mon.check(self.db.dump() == before, "looking at vouchers changes the database")

    def bad_lookup(self):
        mon, rng = self.mon, self.rng
        b = bad_voucher(rng).encode("utf-8", "surrogatepass")
        if rng.random() < 0.2:
            b = bytes(rng.randrange(256) for _ in range(44))
            if all(chr(c) in SEGMENT_SAFE for c in b):
                return
        if b in (b"", b".", b".."):
            return
        seg = b"".join(b"%%%02X" % c if chr(c) not in SEGMENT_SAFE else bytes([c]) for c in b)
        r = self.node.call(b"GET", b"/voucher/" + seg)
        mon.equal(r.code, 400, "a malformed voucher number %r is answered wrongly" % (b,))
        mon.event("bad-lookups")


def history(rng, mon):
    w = World(rng, mon)
    for _ in range(rng.randrange(15, 45)):
        r = rng.random()
        run = w.running()
        if r < 0.22 and len(w.vouchers) < 4:
            w.submit()
        elif r < 0.34 and w.vouchers:
            w.submit(rng.choice(list(w.vouchers.values())))
        elif r < 0.44:
            w.malformed()
        elif r < 0.50:
            w.bad_lookup()
        elif r < 0.80 and run:
            a = rng.choice(run)
            v = w.vouchers[a.number]
            how = rng.choice(["grant"] * 6 + ["unpaid", "error"])
            if v.stolen and rng.random() < 0.5:
                how = "spent"
            w.answer(a, how)
            if rng.random() < 0.5 and w.running():
                # Let one voucher get far.
                for _ in range(rng.randrange(16)):
                    if w.running():
                        w.answer(w.running()[0], "grant")
        elif r < 0.92:
            w.advance(rng.choice([0.5, 1, 3]))
        elif r < 0.96:
            w.boot()
        w.observe()


def immediate(rng, mon):
    """The issuer answers at once."""
    w = World(rng, mon, sync=True)
    for _ in range(rng.randrange(5, 20)):
        r = rng.random()
        if r < 0.4 and len(w.vouchers) < 4:
            w.submit()
        elif r < 0.6 and w.vouchers:
            w.submit(rng.choice(list(w.vouchers.values())))
        elif r < 0.9:
            w.advance(1)
        else:
            w.boot()
        w.observe()


SCENARIOS = [
    Scenario("history", history, quick=96, thorough=2500,
             needs=["accepted", "repeats", "malformed", "bad-lookups", "refused-for-storage-failure", "seen-redeemed", "seen-unpaid", "seen-error", "seen-double-spend", "restarts"]),
    Scenario("immediate", immediate, quick=24, thorough=500, needs=["accepted"]),
]
