"""Replication uploads promptly, retries, and prunes only what a snapshot covers."""

import re
import sqlite3

import cbor2

from vz import cli, repl
from vz.core import Scenario

PROPERTY = "C11"
LEVEL = "exploration"
RULE = (
    "A trace monitor over commits, uploads, links, unlinks and listings of a replicating client on a model grid: what each upload holds against the "
    "recorded changes not yet acknowledged, what is unlinked against the sequence number inside the acknowledged snapshot, when uploads and snapshots "
    "start against the size and cost rules, and what the replica covers once everything outstanding has completed. Operations complete, fail, lose their "
    "answers or hang; the process crashes and restarts. Distinct by sequence of operations and outcomes."
)
ASSUMPTIONS = ["three hours after the last failure every failed job must have been repeated", "changes are many when their statements exceed 800 kB and few below 200 kB encoded (the code's threshold is 570 kB)"]

STORM = ("ok",) * 4 + ("hold", "hold", "fail", "lost")
MANY, FEW = 800000, 200000
IMPORTANT = re.compile(r"INSERT\b[^;]*\bINTO\s+\W?(tokens|vouchers)\b", re.I)
EVENTS = "SELECT [sequence-number], [statement] FROM [event-stream] ORDER BY [sequence-number]"
STREAM = re.compile(r"event-stream-([0-9]+)\Z")


def decode(data):
    """("stream", {seq: statement}) or ("snapshot", sequence number)"""
    value = cbor2.loads(data)
    if "events" in value:
        return "stream", {e[0]: e[1] for e in value["events"]}
    conn = sqlite3.connect(":memory:")
    conn.executescript("\n".join(value["statements"]))
    row = conn.execute("SELECT seq FROM sqlite_sequence WHERE name = 'event-stream'").fetchone()
    conn.close()
    return "snapshot", row[0] if row else 0


class Life(repl.Life):
    def __init__(self, rng, mon, options=(), storm=("ok",)):
        self.all = {}  # every change recorded so far
        self.acked = 0  # every change up to here is known to be uploaded
        self.snapshot_acked = None  # sequence number of the snapshot known to be in the replica
        self.disturbed = False  # has anything failed or been delayed since all was well?
        self.uploads = 0
        self.since = 0  # statement bytes recorded since an upload was started
        self.pass_value = int(dict(options).get("pass-value", 1 << 20))
        self.parsed = {}
        self.restarted_after_snapshot = False
        super().__init__(rng, mon, options, storm)

    def parse(self, data):
        if data not in self.parsed:
            self.parsed[data] = decode(data)
        return self.parsed[data]

    def sample(self):
        super().sample()
        try:
            rows = self.node.db.rows(EVENTS)
        except sqlite3.OperationalError:
            rows = []
        for seq, sql in rows:
            if seq not in self.all:
                self.all[seq] = sql
                self.since += len(sql)

    def cost(self, size):
        return -(-(-(-size // 3)) // self.pass_value) * 10

    def entry_sizes(self):
        return [len(self.grid.files[cap]) for name, cap in self.grid.entries(self.replica).items() if name == "snapshot" or STREAM.match(name)]

    # -- the monitor --

    def on_started(self, op):
        mon = self.mon
        if op.name == "upload":
            kind, what = self.parse(op.args[0])
            self.uploads += 1
            self.since = 0
            if kind == "stream":
                mon.event("stream-uploads")
                missing = [s for s in self.all if s > self.acked and s not in what]
                mon.check(not missing, "an upload lacks changes which are not known to be uploaded", "missing", missing[:5], "uploaded", sorted(what)[:5], "known", self.acked)
                wrong = [s for s in what if what[s] != self.all.get(s)]
                mon.check(not wrong, "an upload holds changes which were not made", wrong[:5])
                if self.disturbed or any(IMPORTANT.search(q) for q in what.values()):
                    pass
                elif self.eager and len(op.args[0]) < FEW:
                    # What was left over when it started still counts once.
                    self.eager = False
                else:
                    mon.check(len(op.args[0]) >= FEW, "changes are uploaded although they are neither important nor many", len(op.args[0]), "bytes", sorted(what.items())[:2])
                    mon.event("uploads-of-many-changes")
            elif self.replica is not None:
                mon.event("snapshot-uploads")
                entries = self.grid.entries(self.replica)
                if "snapshot" in entries and not self.disturbed:
                    new, old = self.cost(len(op.args[0])), sum(map(self.cost, self.entry_sizes()))
                    mon.check(old > 10 * new, "a new snapshot is uploaded although the replica has not grown beyond the factor", "replica costs", old, "snapshot costs", new)
                    mon.event("justified-snapshots")
        elif op.name == "unlink":
            d, name = op.args
            mon.event("unlinks")
            m = STREAM.match(name)
            mon.check(m is not None, "something other than an event stream is removed from the replica", name)
            mon.check(
                self.snapshot_acked is not None and int(m.group(1)) <= self.snapshot_acked,
                "an event stream is removed which no snapshot that is safely in the replica covers", name, "snapshot", self.snapshot_acked,
            )
            mon.equal(d, self.grid.ro[self.replica], "something is removed from another directory")

    def on_finished(self, op, how, result, error):
        if how != "ok":
            self.disturbed = True
            self.mon.event("grid-" + how)
        elif op.name == "link" and self.node.tahoe.live:
            d, name, cap = op.args
            kind, what = self.parse(self.grid.files[cap])
            if kind == "snapshot":
                self.mon.equal(name, "snapshot", "a snapshot is linked under another name")
                self.snapshot_acked = what
                self.restarted_after_snapshot = False
                self.acked = max(self.acked, what)
            else:
                self.mon.check(STREAM.match(name), "an event stream is linked under another name", name)
                self.acked = max([self.acked] + list(what))

    def choose(self, op):
        how = super().choose(op)
        if how is None:
            self.disturbed = True
        return how

    def boot(self):
        self.restarted_after_snapshot = True
        self.eager = True
        super().boot()

    # -- judgements at rest --

    def covered(self):
        seq, streams = 0, set()
        for name, cap in self.grid.entries(self.replica).items():
            kind, what = self.parse(self.grid.files[cap])
            if kind == "snapshot":
                seq = what
            else:
                streams |= set(what)
        return seq, streams

    def replicated(self, when):
        important = [s for s, q in self.all.items() if IMPORTANT.search(q)]
        if not important:
            return
        last = max(important)
        seq, streams = self.covered()
        missing = [s for s in self.all if seq < s <= last and s not in streams]
        self.mon.check(
            not missing, "%s the replica does not hold every change up to the last important one" % (when,),
            "missing", missing[:5], "last important", last, "snapshot", seq, "replica", sorted(self.grid.entries(self.replica)),
        )
        self.mon.event("coverage-judged")

    def rest(self):
        """Nothing has failed or been delayed; judge the state of the replica."""
        self.replicated("with nothing outstanding")
        self.mon.check(self.since <= MANY, "many changes have gathered and are not uploaded", self.since)
        if "snapshot" not in self.grid.entries(self.replica):
            self.mon.violate("with nothing outstanding there is no snapshot in the replica")
        if not self.restarted_after_snapshot:
            old = [n for n in self.grid.entries(self.replica) if STREAM.match(n) and int(STREAM.match(n).group(1)) <= self.snapshot_acked]
            self.mon.check(not old, "event streams which the snapshot covers are not removed", sorted(old), self.snapshot_acked)

    def grown(self):
        """An event stream has just been uploaded and considered."""
        data = cbor2.dumps({"version": 1, "statements": list(self.node.raw.iterdump())})
        new, old = self.cost(len(data)), sum(map(self.cost, self.entry_sizes()))
        self.mon.check(old <= 10 * new, "no new snapshot is made although the replica has grown beyond the factor", "replica costs", old, "snapshot would cost", new, len(data))
        self.mon.event("growth-judged")
        self.mon.event("growth-over-half" if old > 5 * new else "growth-below-half")

    def calm(self, hours=3):
        super().calm(hours)
        self.disturbed = False


def op_many(life, n):
    """Many unimportant changes at once."""
    if not life.pending():
        life.step("add")
    number = life.pending()[0][0]
    tokens = [cli.fake_unblinded_token(life.rng) for _ in range(n)]
    before = len(life.all)
    life.node.store.insert_unblinded_tokens_for_voucher(number.encode(), repl.KEYS[0], tokens, completed=False, spendable=True)
    life.sample()
    life.mon.sig("many", n // 500)


def prompt(rng, mon):
    """Without faults everything happens at once."""
    life = Life(rng, mon, {"pass-value": str(rng.choice([500, 2000, 20000, 1 << 20, 1 << 20]))})
    for _ in range(rng.randrange(0, 8)):
        life.step()
    life.setup()
    life.rest()
    for _ in range(rng.randrange(8, 40)):
        if rng.random() < 0.06:
            life.restart()
            life.rest()
            continue
        n = life.uploads
        done = life.step(rng.choice(life.OPS + ["add"] * 6))
        life.rest()
        if life.uploads > n:
            life.grown()


def gather(rng, mon):
    """Unimportant changes gather until there are many."""
    life = Life(rng, mon, {"pass-value": str(rng.choice([20000, 1 << 20]))})
    life.setup()
    sizes = [rng.choice([50, 300, 1200, 2500, 4000]) for _ in range(rng.randrange(1, 5))] + rng.choice([[9000], [4000, 4500], [3000, 3000, 3000]])
    rng.shuffle(sizes)
    for n in sizes:
        op_many(life, n)
        life.rest()
        if rng.random() < 0.15:
            life.restart()
            life.rest()
    mon.event("gathered")


def stormy(rng, mon):
    life = Life(rng, mon, {"pass-value": str(rng.choice([500, 2000, 1 << 20]))}, storm=STORM)
    for _ in range(rng.randrange(0, 5)):
        life.step()
    life.setup(hold=rng.random() < 0.4)
    for _ in range(rng.randrange(0, 3)):
        life.step()
    if life.holding:
        life.disturbed = True
        life.holding = False
    for _ in range(rng.randrange(1, 4)):
        life.storming = True
        for _ in range(rng.randrange(3, 16)):
            if rng.random() < 0.1:
                life.restart()
            if rng.random() < 0.35 and life.node.pending:
                rng.choice(life.node.pending).finish(rng.choice(["ok", "ok", "fail", "lost"]))
                life.sample()
            if rng.random() < 0.15:
                life.node.reactor.advance(rng.choice([1, 61, 600, 7200]))
                life.sample()
            fault = crash = None
            if rng.random() < 0.1:
                fault = rng.randrange(0, 10)
            elif rng.random() < 0.1:
                crash = rng.randrange(0, 14)
            life.step(rng.choice(life.OPS + ["add"] * 4), fault=fault, crash=crash)
            if life.node.raw.vz_hits:
                life.disturbed = True
        life.calm()
        mon.event("calms")
        # All that failed has been repeated, without any further change.
        life.rest()
        n = life.uploads
        if life.step("add"):
            life.rest()
            life.grown()


SCENARIOS = [
    Scenario("prompt", prompt, quick=60, thorough=2000, needs=["stream-uploads", "justified-snapshots", "unlinks", "coverage-judged", "growth-over-half", "growth-below-half"]),
    Scenario("gather", gather, quick=14, thorough=300, needs=["uploads-of-many-changes", "gathered"]),
    Scenario("stormy", stormy, quick=90, thorough=3000, needs=["stream-uploads", "snapshot-uploads", "unlinks", "grid-fail", "grid-lost", "calms"]),
]
