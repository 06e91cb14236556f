"""
The life of a replicating client: database operations, uploads which can be
delayed, fail before or after taking effect, database failures and crashes -
and every state its replica passes through.
"""

import sqlite3

from twisted.internet.defer import maybeDeferred

from . import cli
from .core import Violated
from .node import FINAL, Grid, Node, Websocket, differences, logical

KEYS = ["A" * 43 + "=", "B" * 43 + "="]
HOUR = 3600


class Crash(BaseException):
    """The process dies here."""


def cli_vouchers(node):
    """Whether there is anything in the database which keeps it from being recovered into."""
    return bool(node.db.rows("SELECT [number] FROM [vouchers]"))


class LifeNode(Node):
    life = None

    def policy(self, op):
        return self.life.choose(op)

    def started(self, op):
        self.life.sample()
        self.life.on_started(op)

    def finished(self, op, how, result, error):
        self.life.on_finished(op, how, result, error)


class Life:
    def __init__(self, rng, mon, options=(), storm=("ok",), wire=None):
        self.rng, self.mon = rng, mon
        # Now and then, with the real Tahoe-LAFS client on a virtual network.
        if wire is None:
            wire = rng.random() < 0.15
        self.wire = rng if wire else None
        if wire:
            mon.event("on-the-wire")
        self.grid = Grid()
        self.storming = self.holding = False
        self.storm = storm
        self.history = []
        self.replica = None
        self.floor = 0  # index of the oldest state a recovery may give
        self.states = []  # (entries, floor, ceiling) of the replica
        self.last_entries = None
        self.snapshotted = False  # has there ever been a snapshot?
        self.held = []
        self.maint = None
        self.crash_in = None
        self.crashed = self.stopped = False
        self.node = LifeNode(self.grid, options, boot=False, wire=self.wire)
        self.node.life = self
        self.boot()
        self.sample()

    # -- the grid --

    def choose(self, op):
        self.mon.check(not self.stopped, "something is done on the grid after the node was stopped", op.name)
        if self.holding and op.name not in ("mkdir", "list"):
            return None
        how = self.rng.choice(self.storm) if self.storming else "ok"
        if how == "hold":
            return None
        return how

    def on_started(self, op):
        """For monitors."""

    def on_finished(self, op, how, result, error):
        """For monitors."""

    # -- what is observed --

    def sample(self):
        """Note the committed state of the database if it is new."""
        state = logical(self.node.db)
        if not self.history or self.history[-1] != state:
            self.history.append(state)
            self.mon.event("committed-states")

    def observe_replica(self):
        if self.replica is None:
            return
        entries = dict(self.grid.entries(self.replica))
        if entries != self.last_entries:
            self.last_entries = entries
            self.states.append((entries, self.floor if self.snapshotted else None, len(self.history) - 1))
            self.mon.event("replica-states")

    def watch(self):
        """Wrap the grid so that no replica state goes unseen."""
        life = self

        class Log(list):
            def append(self, entry):
                list.append(self, entry)
                if entry[0] == "link" and entry[2] == "snapshot":
                    life.mon.event("snapshots")
                    life.snapshotted = True
                if entry[0] in ("link", "unlink"):
                    life.observe_replica()

        self.grid.log = Log(self.grid.log)

    # -- the process --

    def boot(self):
        self.node.boot()
        self.crashed = False
        self.arm()

    def arm(self):
        def on_statement(sql):
            if self.crashed:
                raise Crash()
            if self.crash_in is not None and not sql.lstrip().upper().startswith(("SELECT", "PRAGMA")):
                self.crash_in -= 1
                if self.crash_in < 0:
                    self.crash_in = None
                    self.crashed = True
                    self.node.tahoe.live = False
                    self.mon.event("crashes-in-transaction")
                    self.mon.note("crash before", sql.split()[:4])
                    raise Crash()

        self.node.raw.vz_on_statement = on_statement

    def stop(self):
        """The node is asked to stop, and more happens while it does."""
        node = self.node
        triggers = node.reactor.triggers.get("before", {}).get("shutdown", [])
        outcomes = [cli.Outcome(maybeDeferred(f, *a, **k)) for f, a, k in triggers]
        if self.wire:
            node.tahoe.pump()
        self.mon.check(all(o.done for o in outcomes), "a node which is asked to stop never does")
        self.mon.check(all(o.ok for o in outcomes), "a node cannot be stopped", [o.failure for o in outcomes])
        if outcomes:
            self.mon.event("clean-stops")
        self.stopped = bool(outcomes)
        for _ in range(self.rng.choice([0, 0, 1, 3])):
            self.step()
            if not self.stopped:
                return
        node.reactor.advance(self.rng.choice([0, 61, 3600]))
        if self.wire:
            node.tahoe.pump()

    def restart(self):
        if not self.crashed and self.node.tahoe.live and not self.stopped and self.rng.random() < 0.4:
            self.stop()
            if not self.stopped:
                # It has died, and is back, already.
                return
        self.stopped = False
        left = self.node.crash()
        # What was under way either still takes effect or it does not.
        for op in left:
            op.finish(self.rng.choice(["silent", "gone"]))
        self.sample()
        self.held, self.maint = [], None
        self.mon.event("restarts")
        self.mon.sig("restart")
        self.boot()
        self.sample()

    def setup(self, hold=False):
        """Turn replication on; the first snapshot is on its way if ``hold``."""
        storming, self.storming = self.storming, False
        self.holding = hold
        r = self.node.replicate()
        self.mon.check(r.code == 201, "replication cannot be set up", r.status, r.body)
        cap = r.json()["recovery-capability"]
        self.replica = cap
        self.watch()
        self.snapshotted = "snapshot" in self.grid.entries(cap)
        self.observe_replica()
        self.storming = storming
        return cap

    # -- operations --

    def pending(self):
        return self.node.db.rows("SELECT [number], [counter], [expected-tokens] FROM [vouchers] WHERE [state] = 'pending'")

    def op_add(self):
        number = cli.voucher_number(self.rng)
        if self.rng.random() < 0.4:
            r = self.node.call(b"PUT", b"/voucher", b'{"voucher": "%s"}' % (number,), [(b"Content-Type", b"application/json")])
            if r.code != 200 and not self.crashed:
                raise sqlite3.OperationalError("not accepted: %r" % (r.code,))
        else:
            count = self.rng.choice([1, 2, 5, 16, 33])
            self.node.store.add(number, count, 0, lambda: [cli.fake_random_token(self.rng) for _ in range(count)])
        return True

    def op_tokens(self):
        pending = self.pending()
        if not pending:
            return None
        number, counter, expected = self.rng.choice(pending)
        have = self.node.db.rows("SELECT count(*) FROM [tokens] WHERE [voucher] = ? AND [counter] = ?", (number, counter))[0][0]
        n = self.rng.choice([1, 3])
        self.node.store.add(number.encode(), expected, counter, lambda: [cli.fake_random_token(self.rng) for _ in range(n)])
        return have == 0

    def op_redeem(self):
        pending = self.pending()
        if not pending:
            return None
        number, counter, expected = self.rng.choice(pending)
        [(n,)] = self.node.db.rows("SELECT count(*) FROM [tokens] WHERE [voucher] = ? AND [counter] = ?", (number, counter))
        if n == 0:
            return None
        self.node.store.insert_unblinded_tokens_for_voucher(
            number.encode(), self.rng.choice(KEYS), [cli.fake_unblinded_token(self.rng) for _ in range(n)],
            completed=self.rng.random() < 0.4, spendable=self.rng.random() < 0.85,
        )
        return False

    def op_double_spent(self):
        pending = [v for v in self.pending() if v[1] == 0]
        if not pending:
            return None
        self.node.store.mark_voucher_double_spent(self.rng.choice(pending)[0].encode())
        return False

    def op_take(self):
        n = self.node.store.count_unblinded_tokens()
        if n == 0:
            return None
        self.held.append(self.node.store.get_unblinded_tokens(self.rng.randrange(1, min(n, 8) + 1)))
        return False

    def op_give(self):
        if not self.held:
            return None
        tokens = self.rng.choice(self.held)
        how = self.rng.choice(["discard", "discard", "invalidate", "reset"])
        if how == "discard":
            self.node.store.discard_unblinded_tokens(tokens)
        elif how == "invalidate":
            self.node.store.invalidate_unblinded_tokens(self.rng.choice(["bad", "Grün ☃ 'quoted' \"x\" ? :a", "", "a;b--"]), tokens)
        else:
            self.node.store.reset_unblinded_tokens(tokens)
        self.held.remove(tokens)
        return False

    def op_maint(self):
        if self.maint is None:
            self.maint = self.node.store.start_lease_maintenance()
        elif self.rng.random() < 0.6:
            self.maint.observe([self.rng.randrange(1 << self.rng.randrange(1, 40)) for _ in range(self.rng.randrange(4))])
        else:
            m, self.maint = self.maint, None
            m.finish()
        return False

    OPS = ["add"] * 3 + ["tokens"] * 2 + ["redeem"] * 4 + ["double_spent"] + ["take"] * 3 + ["give"] * 3 + ["maint"] * 2

    def step(self, name=None, fault=None, crash=None):
        """
        One operation.  Returns True if it committed a change that is
        important, False for another, None if nothing happened.
        """
        name = name or self.rng.choice(self.OPS)
        self.node.raw.vz_plan = fault
        self.crash_in = crash
        hits = self.node.raw.vz_hits
        before = self.history[-1]
        done = failed = None
        try:
            done = getattr(self, "op_" + name)()
        except Crash:
            pass
        except sqlite3.OperationalError:
            if self.node.raw.vz_hits == hits and not self.crashed:
                raise
            failed = True
        self.node.raw.vz_plan = None
        self.crash_in = None
        self.sample()
        if self.node.raw.vz_hits != hits:
            self.mon.event("database-failures")
        self.mon.note("op", name, "->", done, "failed" if failed else "", "crashed" if self.crashed else "")
        self.mon.sig(name, failed, self.crashed)
        self.mon.event("operations")
        if failed:
            self.maint = None
            self.mon.equal(differences(before, self.history[-1]), [], "a failed operation changed the database")
            return None
        if self.crashed:
            self.restart()
            return None
        return done

    def calm(self, hours=3):
        """The faults are over: let replication catch up."""
        self.storming = False
        self.node.settle()
        for _ in range(hours * 12):
            self.node.reactor.advance(300)
            self.node.settle()
        self.sample()

    def caught_up(self):
        """Replication has just caught up with everything."""
        self.floor = len(self.history) - 1
        self.last_entries = None
        self.observe_replica()
        self.mon.event("caught-up")

    # -- recovery --

    def recover(self, entries, options=(), earlier=None):
        """
        A new node recovers from the replica in this state, perhaps after it
        died or failed recovering from the replica in an earlier state.
        """
        grid = Grid()
        grid.n = 10 ** 6
        grid.files = dict(self.grid.files)
        grid.ro = dict(self.grid.ro)
        grid.dirs = {k: dict(v) for k, v in self.grid.dirs.items()}
        grid.dirs[grid.ro[self.replica]] = dict(entries)
        node = Node(grid, options, wire=self.wire)
        if earlier is not None:
            grid.dirs[grid.ro[self.replica]] = dict(earlier)
            node.hold = True
            Websocket(node).recover(self.replica)
            end = self.rng.randrange(len(earlier) + 1)
            for _ in range(end):
                if node.pending:
                    node.pending[0].finish()
            if node.pending and self.rng.random() < 0.5:
                node.pending[0].finish("fail")
            if not cli_vouchers(node):
                self.mon.event("recoveries-after-an-attempt")
                grid.dirs[grid.ro[self.replica]] = dict(entries)
                node.crash()
                node.hold = False
                node.boot()
            else:
                # It was over before it could be stopped.
                node.crash()
                return self.recover(entries, options)
        ws = Websocket(node).recover(self.replica)
        node.settle()
        stages = ws.stages
        if not stages or stages[-1] not in FINAL:
            raise Violated("recovery never ends: %r" % (stages,))
        return node, ws

    def judge(self, entries, floor, ceiling, chain=False):
        mon = self.mon
        at = next((i for i, s in enumerate(self.states) if s[0] is entries), 0)
        earlier = self.states[self.rng.randrange(at)][0] if at and self.rng.random() < 0.15 else None
        node, ws = self.recover(entries, earlier=earlier)
        names = sorted(entries)
        if floor is None:
            mon.event("recoveries-before-the-first-snapshot")
            mon.check(ws.stages[-1] != "succeeded", "recovery from a replica without a snapshot succeeds", names)
            node.crash()
            return
        if ws.stages[-1] != "succeeded":
            mon.violate("recovery fails", ws.messages[-1], "from a replica of", names)
        got = logical(node.db)
        matches = [i for i, s in enumerate(self.history[: ceiling + 2]) if s == got]
        if not matches:
            close = min(range(len(self.history)), key=lambda i: sum(len(d) for d in [repr(differences(self.history[i], got))]))
            mon.violate("recovery gives a state which never existed", "from", names, "nearest is state %d of %d:" % (close, len(self.history)), differences(self.history[close], got))
        mon.check(max(matches) >= floor, "recovery gives a state older than what had been replicated", "state", matches[-1], "replicated", floor, "of", len(self.history), "from", names, differences(self.history[floor], got))
        spendable = {t for (t, v, k, s) in got["unblinded-tokens"] if s}
        mon.equal(cli.available(node.store), spendable, "the tokens available after recovery are not the spendable ones recovered")
        mon.event("recoveries")
        if len(names) > 2:
            mon.event("recoveries-from-several-streams")
        mon.sig("recovered", len(names), len(self.history) - max(matches))
        if chain:
            node.restart()
            now = logical(node.db)
            # Work on pending vouchers goes on.
            mon.check(set(got["tokens"]) <= set(now["tokens"]), "random tokens are lost at restart after recovery")
            mon.equal(differences(dict(got, tokens=now["tokens"]), now), [], "the recovered database changes at restart")
            got = now
            second = Life.__new__(Life)
            second.rng, second.mon, second.wire = self.rng, mon, self.wire
            second.grid, second.node = node.grid, node
            r = node.replicate()
            mon.check(r.code == 201, "replication cannot be set up on a recovered client", r.status, r.body)
            node.settle()
            second.replica = r.json()["recovery-capability"]
            third, ws = second.recover(node.grid.entries(second.replica))
            mon.equal(ws.stages[-1], "succeeded", "recovery of a recovered client fails")
            mon.equal(differences(got, logical(third.db)), [], "recovery of a recovered client gives something else")
            third.crash()
            mon.event("chained-recoveries")
        node.crash()

    def judge_all(self, limit=None, chain=0.1):
        """Recover from every state the replica was in."""
        states = self.states
        if limit is not None and len(states) > limit:
            states = [states[i] for i in sorted(self.rng.sample(range(len(states)), limit))]
        for entries, floor, ceiling in states:
            self.judge(entries, floor, ceiling, self.rng.random() < chain)
