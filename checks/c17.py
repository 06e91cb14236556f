"""Lease maintenance runs on schedule and survives restarts and failures."""

import math
import os
import random
import sys
from datetime import timedelta

import twisted.internet.reactor
from allmydata.client import config_from_string, create_client_from_config
from allmydata.interfaces import IDirectoryNode
from twisted.internet.defer import Deferred, fail, succeed
from twisted.internet.task import Clock
from twisted.python.filepath import FilePath
from zope.interface import implementer

import _zkapauthorizer._plugin  # with the real reactor
from _zkapauthorizer import NAME
from _zkapauthorizer.lease_maintenance import SERVICE_NAME, LeaseMaintenanceConfig, lease_maintenance_service
from vz import cli
from vz.core import Scenario, scratch_dir

PROPERTY = "C17"
LEVEL = "exploration"
RULE = (
    "The real maintenance service on a virtual clock over histories of processes: runs of every duration and outcome, runs still under way when the "
    "service is stopped or the process dies, disks that refuse the record of the last run, downtimes of every length, random and extreme interval "
    "samples, and, in a second scenario, whole Tahoe-LAFS clients configured by text. A monitor knows for every moment the window in which the next run "
    "has to start. In a third scenario a child process dies at every line of recording a run and its successor is monitored. Distinct by the sequence "
    "of outcomes and the shape of the configuration."
)
ASSUMPTIONS = ["a run still under way when its process is told to stop may or may not be recorded as the last run"]

EPS = 1e-3
EPOCH = 1_600_000_000


class Extreme(random.Random):
    """Random numbers from the ends of their range."""

    def __init__(self, how, seed):
        random.Random.__init__(self, seed)
        self.how = how

    def random(self):
        r = random.Random.random(self)
        if self.how == "low":
            return 0.0
        if self.how == "high":
            return 1 - 2 ** -53
        if self.how == "ends":
            return 0.0 if r < 0.5 else 1 - 2 ** -53
        return r


class Reactor(Clock):
    """Refuses what a real reactor refuses."""

    def callLater(self, delay, f, *a, **k):
        assert callable(f) and delay >= 0, "%r is not a number of seconds from now" % (delay,)
        return Clock.callLater(self, delay, f, *a, **k)


class History:
    """Successive processes of one node and the monitor of their runs."""

    def __init__(self, rng, mon):
        self.rng, self.mon = rng, mon
        self.clock = Reactor()
        self.clock.advance(EPOCH + rng.randrange(10 ** 6) + rng.random())
        self.mean = rng.choice([1, 60, 3600, 86400 * 26, rng.randrange(1, 10 ** 6)])
        self.range = rng.choice([0, 1, self.mean // 2, self.mean, 2 * self.mean, 3 * self.mean, 10 * self.mean, rng.randrange(2 * self.mean)])
        self.half = self.range / 2
        self.lo, self.hi = max(0, self.mean - self.half), self.mean + self.half
        self.dir = scratch_dir()
        self.recorded = [None]  # what the last run's record may be
        self.window = None  # when the next run has to start
        self.active = None  # the run under way
        self.up = False
        self.runs = 0
        self.intervals = []
        self.process = 0
        self.instant = 0

    # -- monitor --

    def now(self):
        return self.clock.seconds()

    def boot(self):
        self.process += 1
        now = self.now()
        if self.recorded == [None]:
            self.window = (now, now + self.hi)
            self.mon.event("boots-without-record")
        else:
            starts = [now if r is None else max(now, r + self.lo) for r in self.recorded]
            ends = [now + self.hi if r is None else max(now, r + self.hi) for r in self.recorded]
            self.window = (min(starts), max(ends))
            self.mon.event("boots-overdue" if self.window[1] == now else "boots-not-due")
        self.mon.note("process begins at", now - EPOCH, "recorded", self.recorded)
        self.up = True
        self.last_end = None
        self.active = None
        self.service = self.make_service()
        self.service.startService()

    def begin(self):
        """The service begins a run."""
        now = self.now()
        self.mon.check(self.up, "a run begins although the service was stopped", now)
        self.mon.check(self.active is None, "a run begins during another", now)
        lo, hi = self.window
        self.mon.check(lo - EPS <= now <= hi + EPS, "a run begins at a time which is not due", "time", now - EPOCH, "expected between", lo - EPOCH, "and", hi - EPOCH, "mean", self.mean, "range", self.range)
        if self.last_end is not None:
            self.intervals.append(now - self.last_end)
        self.runs += 1
        self.mon.note("run begins at", now - EPOCH, "window", lo - EPOCH, hi - EPOCH)
        self.mon.event("runs")
        d = Deferred()
        self.active = (self.process, d)
        self.disk = "good"
        how = self.rng.choice(["instant", "raise", "failed", "slow", "slow", "slow"])
        if self.lo == 0 and how in ("instant", "raise", "failed"):
            self.instant += 1
            if self.instant % 5 == 0:
                how = "slow"
        if how == "slow":
            return d
        self.ended(how)
        if how == "raise":
            raise RuntimeError("the run raises")
        if how == "failed":
            return fail(RuntimeError("the run fails"))
        return succeed(None)

    def ended(self, how):
        self.mon.event("runs-" + how)
        process, d = self.active
        self.active = None
        now = self.now()
        if self.disk == "good":
            self.recorded = [now] if self.up else self.recorded + [now]
        self.window = (now + self.lo, now + self.hi)
        self.last_end = now
        self.mon.note("run ends at", now - EPOCH, how, self.disk)
        return d

    def finish(self):
        """The run under way ends, somehow."""
        how = self.rng.choice(["ok", "ok", "fails"])
        d = self.ended(how)
        if how == "ok":
            d.callback(None)
        else:
            d.errback(RuntimeError("the run fails in the end"))

    # -- the world --

    def advance(self, until):
        """Time passes; the next run has to start in its window."""
        while True:
            calls = [c.getTime() for c in self.clock.getDelayedCalls()]
            nxt = min(calls) if calls else None
            if self.up and self.active is None:
                self.mon.check(nxt is not None and nxt <= self.window[1] + EPS, "no run is going to begin in time", "next", nxt and nxt - EPOCH, "expected until", self.window[1] - EPOCH, "now", self.now() - EPOCH)
            if nxt is None or nxt > until:
                break
            runs = self.runs
            self.clock.advance(max(0, nxt - self.now()))
            if self.runs > runs and self.active is not None:
                return
        if until > self.now():
            self.clock.advance(until - self.now())

    def stop(self):
        self.up = False
        self.mon.note("stops")
        self.mon.event("stops-during-run" if self.active else "stops")
        d = self.service.stopService()
        if d is not None:
            cli.Outcome(d)

    def die(self):
        """The process ends here."""
        self.mon.note("dies")
        self.up = False
        self.mon.event("deaths-during-run" if self.active else "deaths")
        for c in list(self.clock.getDelayedCalls()):
            c.cancel()
        self.active = None

    def step(self):
        rng = self.rng
        if not self.up:
            if self.active is not None and rng.random() < 0.5:
                self.finish()
                self.clock.advance(0)
                self.mon.event("runs-ended-after-stop")
            if rng.random() < 0.3:
                # A stopped service stays stopped.
                self.advance(self.now() + 2 * self.hi)
            self.die()
            down = rng.choice([0, 0, self.lo / 2, self.mean, self.hi + 1, 10 * self.hi, rng.random() * 2 * self.hi])
            self.clock.advance(down)
            self.boot()
            return
        p = rng.random()
        if self.active is not None:
            if p < 0.8:
                self.clock.advance(rng.choice([0, 1, rng.random() * 3 * self.hi]))
                if rng.random() < 0.1:
                    with self.no_disk():
                        self.disk = "broken"
                        self.mon.event("records-refused")
                        self.finish()
                else:
                    self.finish()
                return
        if p < 0.85:
            self.advance(self.now() + rng.choice([self.hi, 3 * self.hi, rng.random() * self.hi]))
        elif p < 0.92:
            self.stop()
        else:
            self.die()

    def no_disk(self):
        return NoDirectory(self.record_dir)

    def judge_spread(self):
        if len(self.intervals) >= 45 and self.hi - self.lo > 0.1 and self.how == "uniform" and self.range <= 2 * self.mean:
            spread = max(self.intervals) - min(self.intervals)
            self.mon.check(spread >= 0.4 * (self.hi - self.lo), "the times between runs are not random within their range", spread, self.lo, self.hi)
            self.mon.event("spreads-judged")


class NoDirectory:
    def __init__(self, path):
        self.path = path

    def __enter__(self):
        os.rename(self.path, self.path + ".away")

    def __exit__(self, *exc):
        os.rename(self.path + ".away", self.path)


class ServiceHistory(History):
    def __init__(self, rng, mon):
        History.__init__(self, rng, mon)
        self.how = rng.choice(["uniform", "uniform", "low", "high", "ends"])
        self.record_dir = os.path.join(self.dir, "private")
        os.mkdir(self.record_dir)
        self.record = os.path.join(self.record_dir, "last-run")

    def make_service(self):
        config = LeaseMaintenanceConfig(timedelta(seconds=self.mean), timedelta(seconds=self.range), timedelta(0))

        async def maintain():
            return await self.begin()

        how = self.rng.random()
        fn = maintain if how < 0.5 else (lambda: Deferred.fromCoroutine(maintain())) if how < 0.8 else self.begin
        return lease_maintenance_service(fn, self.clock, FilePath(self.record), Extreme(self.how, self.rng.random()), config)


@implementer(IDirectoryNode)
class Root:
    def __init__(self, history):
        self.history = history

    def get_storage_index(self):
        return b"s" * 16

    def get_uri(self):
        return b"URI:DIR2:root"

    def is_unknown(self):
        return False

    def list(self):
        d = Deferred()
        self.history.listing = d
        return d


class ClientHistory(History):
    """The service of a whole client, with the client's configuration."""

    how = "uniform"

    def __init__(self, rng, mon):
        History.__init__(self, rng, mon)
        self.config = {}
        if rng.random() < 0.2:
            self.mean = 26 * 86400
        else:
            self.config["lease.crawl-interval.mean"] = str(self.mean)
        if rng.random() < 0.2:
            self.range = 4 * 86400
        else:
            self.config["lease.crawl-interval.range"] = str(self.range)
        self.half = self.range / 2
        self.lo, self.hi = max(0, self.mean - self.half), self.mean + self.half
        self.record_dir = os.path.join(self.dir, "private")
        os.mkdir(self.record_dir)
        with open(os.path.join(self.record_dir, "rootcap"), "wb") as f:
            f.write(b"URI:DIR2:the root")
        mon.sig(sorted(self.config))

    def make_service(self):
        text = """
[node]
nickname = check
[client]
introducer.furl =
storage.plugins = %s
[storageclient.plugins.%s]
redeemer = dummy
issuer-public-key = %s
ristretto-issuer-root-url = https://issuer.invalid/
""" % (NAME, NAME, "YXNkZg==")
        text += "".join("%s = %s\n" % x for x in self.config.items())
        config = config_from_string(self.dir, "tub.port", text.encode())
        seed = self.rng.random()
        real_random, real_reactor = random.Random, twisted.internet.reactor
        # The client takes the reactor's time and fresh random numbers.
        random.Random = lambda *a: real_random(seed)
        twisted.internet.reactor = sys.modules["twisted.internet.reactor"] = self.clock
        try:
            out = cli.Outcome(create_client_from_config(config))
        finally:
            random.Random = real_random
            twisted.internet.reactor = sys.modules["twisted.internet.reactor"] = real_reactor
        if out.failure is not None:
            out.failure.raiseException()
        self.client = out.value
        self.client.create_node_from_uri = self.create_node
        for c in self.clock.getDelayedCalls():
            c.cancel()
        return self.client.getServiceNamed(SERVICE_NAME)

    def create_node(self, cap):
        self.mon.equal(cap, b"URI:DIR2:the root", "the configured root is not the one maintained")
        d = self.begin()
        if not d.called:
            d.addCallbacks(lambda r: self.listing.callback({}), lambda f: self.listing.errback(f))
        elif d.result is None:
            pass
        else:
            d.addErrback(lambda f: None)
            raise RuntimeError("cannot make the node")
        root = Root(self)
        if d.called:
            root.list = lambda: succeed({})
        return root


def run(rng, mon, make, steps, window_only=False):
    h = make(rng, mon)
    mon.sig(h.mean, h.range)
    h.boot()
    for _ in range(steps):
        h.step()
    h.judge_spread()
    mon.sig(h.runs, h.process)


def service(rng, mon):
    run(rng, mon, ServiceHistory, rng.choice([10, 40, 160]))


def client(rng, mon):
    run(rng, mon, ClientHistory, rng.choice([20, 40]))


def torn(rng, mon):
    """The process dies while it records a run."""
    h = ServiceHistory(rng, mon)
    h.range = h.half = 0
    h.lo = h.hi = h.mean
    h.boot()
    for _ in range(rng.randrange(2, 5)):
        while h.active is None:
            if not h.up:
                h.step()
            h.advance(h.now() + h.hi)
        before = list(h.recorded)
        h.clock.advance(rng.random() * 2 * h.mean)
        at = int(math.exp(rng.random() * math.log(5000)))
        # The child's fate does not depend on the parent's random numbers.
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                count = [0]

                def tracer(frame, event, arg):
                    path = frame.f_code.co_filename
                    if "/vz/" in path or "/checks/" in path:
                        return None
                    count[0] += 1
                    if count[0] >= at:
                        os._exit(0)
                    return tracer

                sys.settrace(tracer)
                h.active[1].callback(None)
            finally:
                os._exit(1)
        os.close(r)
        os.close(w)
        _, status = os.waitpid(pid, 0)
        died = status == 0
        mon.event("deaths-while-recording" if died else "recorded-before-death")
        now = h.now()
        h.recorded = before + [now] if died else [now]
        if died and before[0] is not None:
            mon.event("died-over-an-older-record")
        h.die()
        h.clock.advance(rng.choice([0, h.mean / 2, 2 * h.mean]))
        h.boot()
        # Which of the two is it?  Exactly one of them, nothing in between.
        [call] = h.clock.getDelayedCalls()
        due = [h.now() + h.hi if x is None else max(h.now(), x + h.lo) for x in h.recorded]
        if h.recorded != [None] and not (None in h.recorded):
            mon.check(any(abs(call.getTime() - t) < EPS for t in due), "after a death while recording the next run is due at neither of the two times", call.getTime() - EPOCH, [t - EPOCH for t in due])
        mon.sig("at", at, died)


SCENARIOS = [
    Scenario("service", service, quick=150, thorough=6000, needs=["runs-instant", "runs-raise", "runs-failed", "runs-ok", "runs-fails", "boots-without-record", "boots-overdue", "boots-not-due", "stops", "stops-during-run", "runs-ended-after-stop", "deaths", "deaths-during-run", "records-refused", "spreads-judged"]),
    Scenario("client", client, quick=25, thorough=600, needs=["runs-ok", "runs-instant", "boots-without-record", "boots-overdue", "boots-not-due", "stops-during-run", "records-refused"]),
    Scenario("torn", torn, quick=60, thorough=2500, needs=["deaths-while-recording", "died-over-an-older-record", "recorded-before-death"]),
]
