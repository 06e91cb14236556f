"""Replication is set up exactly once and its secret stays local."""

import json
import os
import resource
import signal
import sys

from allmydata.util.base32 import b2a
from tahoe_capabilities import danger_real_capability_string, writeable_directory_from_string
from vz import repl, web
from vz.core import Scenario, Violated
from vz.node import FINAL, differences, logical

PROPERTY = "C21"
LEVEL = "exploration"
RULE = (
    "Whole clients on a model grid are asked to set up replication, again and again and at the same time, while directory creation waits, fails or loses "
    "its answer, the disk is full or the process dies; the write capability file is looked at after every line of code executed during the setup, every "
    "answer is compared with it and searched for the secret, and every later grid operation must address that one directory. Distinct by sequence of "
    "requests, outcomes and crashes."
)
ASSUMPTIONS = ["what a process has written survives its death (loss of power is not modelled)", "another process is not given the number of the one that died during setup"]

signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
DEAD_PID = "4194399"


class Life(repl.Life):
    def __init__(self, rng, mon):
        self.mkdirs = 0
        self.plan = []  # what becomes of the directories to be created
        self.configured = None  # write capability
        self.asked = []  # (transport, already judged)
        super().__init__(rng, mon)

    # -- the capability file --

    @property
    def file(self):
        names = [n for n in os.listdir(self.node.private) if n.endswith(".replica-rwcap")]
        return os.path.join(self.node.private, names[0]) if names else None

    def content(self):
        """The capability configured now, or None."""
        path = self.file
        if path is None:
            return None
        try:
            with open(path, "rb") as f:
                data = f.read()
        except FileNotFoundError:
            return None
        text = data.decode("ascii", "replace")
        try:
            whole = danger_real_capability_string(writeable_directory_from_string(text.strip())) in self.grid.dirs
        except Exception:
            whole = False
        if not whole:
            raise Violated("the write capability file holds something else than the capability of a directory: %r" % (data,))
        return text.strip()

    def look(self):
        now = self.content()
        if now != self.configured:
            self.mon.check(self.configured is None, "the configured replica is replaced", self.configured, "by", now)
            self.mon.event("configured")
            self.configured = now
            self.replica = None

    # -- the grid --

    def choose(self, op):
        if op.name == "mkdir":
            self.mkdirs += 1
            self.mon.check(self.configured is None, "a directory is created although replication is configured")
            return self.plan.pop(0) if self.plan else "ok"
        return super().choose(op)

    def on_started(self, op):
        self.look()
        if op.name in ("link", "unlink", "list"):
            self.mon.check(self.configured is not None, "a replica is used before it is configured", op.name, op.args)
            allowed = (self.configured, self.ro())
            self.mon.check(op.args[0] in allowed, "another directory than the configured replica is used", op.name, op.args[0])
            self.mon.event("replica-operations")
            self.secret(repr(op.args[1:]), "entry names")
        elif op.name == "upload":
            self.secret(op.args[0], "an upload")

    def ro(self, rw=None):
        return next(ro for ro, w in self.grid.ro.items() if w == (rw or self.configured))

    def secret(self, data, where):
        if isinstance(data, str):
            data = data.encode("utf-8")
        for cap in self.grid.dirs:
            key = cap.split(":")[2].encode("ascii")
            self.mon.check(key not in data, "the write capability is disclosed in", where, data[:200])

    # -- requests --

    def ask(self, watch=False):
        before = self.configured
        if watch:
            p, t = self.traced(lambda: self.node.start_call(b"POST", b"/replicate"))
        else:
            p, t = self.node.start_call(b"POST", b"/replicate")
        entry = [t, False, before]
        self.asked.append(entry)
        self.answers()

    def answers(self):
        """Judge the answers which have arrived."""
        self.look()
        for entry in self.asked:
            t, judged, before = entry
            if judged or not t.value():
                continue
            entry[1] = True
            self.secret(t.value(), "an answer")
            r = web.Response(t.value())
            self.mon.sig("answer", r.code)
            self.mon.event("answers-%d" % r.code)
            if r.code in (200, 201, 409):
                self.mon.check(self.configured is not None, "replication is reported to be configured but it is not", r.code)
                got = r.json()
                self.mon.equal(got, {"recovery-capability": self.ro()}, "the answer is not the read-only capability of the configured replica")
            if r.code in (200, 201):
                self.mon.check(before is None, "a repeated configuration is reported as a new one", r.code)
                self.created = getattr(self, "created", 0) + 1
                self.mon.equal(self.created, 1, "replication is reported as newly configured more than once")
            if before is not None:
                self.mon.equal(r.code, 409, "configuring replication again is not answered with the configured replica")

    def traced(self, f):
        """Look at the capability file after every line executed."""
        seen = [self.configured]
        life = self

        def tracer(frame, event, arg):
            path = frame.f_code.co_filename
            if "vz/" in path or "checks/" in path:
                return None
            life.lines += 1
            if life.file is not None:
                # A process which dies here leaves this.
                now = life.content()
                if now != seen[-1]:
                    seen.append(now)
            return tracer

        self.lines = 0
        sys.settrace(tracer)
        try:
            return f()
        finally:
            sys.settrace(None)
            self.mon.event("lines-watched", self.lines)
            if len(seen) > 1:
                self.mon.event("file-states-watched")

    def full_disk(self, f, size):
        """Nothing longer can be written meanwhile."""
        old = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (size, old[1]))
        try:
            return f()
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, old)

    def restart(self):
        self.asked = [e for e in self.asked if e[1]]
        mine = str(os.getpid())
        for name in os.listdir(self.node.private):
            path = os.path.join(self.node.private, name)
            if os.path.islink(path) and os.readlink(path) == mine:
                # It is another process that starts now.
                os.unlink(path)
                os.symlink(DEAD_PID, path)
                self.mon.event("locks-left-behind")
        super().restart()

    def mkdirs_pending(self):
        return [op for op in self.node.pending if op.name == "mkdir"]


def judge_end(life):
    mon, rng = life.mon, life.rng
    life.plan = []
    life.calm()
    life.answers()
    waiting = [e for e in life.asked if not e[1]]
    mon.check(not waiting, "a request to set up replication is never answered")
    before = life.configured
    life.ask(watch=rng.random() < 0.3)
    life.calm()
    life.answers()
    mon.check(life.asked[-1][1], "a request to set up replication is never answered")
    code = web.Response(life.asked[-1][0].value()).code
    mon.equal(code, 409 if before else 201, "after everything replication cannot be set up")
    for _ in range(rng.randrange(0, 3)):
        if rng.random() < 0.4:
            life.restart()
        life.ask()
        life.calm()
    life.replica = life.ro()
    life.step("add")
    life.calm()
    entries = life.grid.entries(life.replica)
    node, ws = life.recover(entries)
    mon.equal(ws.stages[-1], "succeeded", "the configured replica cannot be recovered")
    mon.equal(differences(life.history[-1], logical(node.db)), [], "the configured replica holds something else")
    node.crash()
    mon.event("recovered")
    for cap in life.grid.dirs:
        if cap not in (life.configured,):
            mon.equal(life.grid.dirs[cap], {}, "a directory other than the configured replica is used")
    mon.equal(oct(os.stat(life.file).st_mode & 0o022), "0o0", "others can change the write capability file")
    path = os.path.relpath(life.file, life.node.basedir)
    mon.check(path.startswith("private" + os.sep), "the write capability file is not in the private directory", path)
    # It is nowhere else on the node's disk.
    key = life.configured.split(":")[2].encode("ascii")
    for top, dirs, files in os.walk(life.node.basedir):
        for name in files:
            full = os.path.join(top, name)
            if os.path.islink(full) or full == life.file:
                continue
            with open(full, "rb") as f:
                mon.check(key not in f.read(), "the write capability is also written to", os.path.relpath(full, life.node.basedir))


def requests(rng, mon):
    """Requests, failures and crashes in every order."""
    life = Life(rng, mon)
    for _ in range(rng.randrange(0, 3)):
        life.step()
    for _ in range(rng.randrange(2, 12)):
        do = rng.choice(["ask", "ask", "ask", "finish", "finish", "kill", "step", "full", "look"])
        if do == "ask":
            life.plan = [rng.choice(["ok", "fail", "lost", None, None])] if life.configured is None else []
            n = len([e for e in life.asked if not e[1]])
            life.ask(watch=rng.random() < 0.2)
            if n:
                mon.event("concurrent-requests")
        elif do == "finish" and life.mkdirs_pending():
            op = rng.choice(life.mkdirs_pending())
            how = rng.choice(["ok", "ok", "fail", "lost"])
            if rng.random() < 0.5:
                life.traced(lambda: op.finish(how))
            else:
                op.finish(how)
        elif do == "full" and life.mkdirs_pending():
            op = rng.choice(life.mkdirs_pending())
            life.full_disk(lambda: op.finish("ok"), rng.choice([0, 1, 10, 60]))
            mon.event("full-disks")
            life.answers()
            mon.check(life.configured is None, "replication is configured although nothing can be written")
        elif do == "kill":
            if life.mkdirs_pending():
                mon.event("killed-during-setup")
            life.restart()
        elif do == "step":
            life.step()
        else:
            continue
        mon.sig(do)
        life.answers()
        if rng.random() < 0.3 and life.configured:
            life.node.settle()
            life.answers()
    judge_end(life)


def torn(rng, mon):
    """The process dies at a line of the setup; what it leaves must be usable."""
    life = Life(rng, mon)
    if rng.random() < 0.5:
        life.step("add")
    for _ in range(rng.randrange(1, 5)):
        if life.configured:
            break
        life.plan = [None]
        life.ask()
        [op] = life.mkdirs_pending()
        at = rng.randrange(1, rng.choice([60, 250, 1000, 4000]))
        pid = os.fork()
        if pid == 0:
            # This is the process which dies.
            try:
                count = [0]

                def tracer(frame, event, arg):
                    path = frame.f_code.co_filename
                    if "vz/" in path or "checks/" in path:
                        return None
                    count[0] += 1
                    if count[0] >= at:
                        os._exit(0)
                    return tracer

                sys.settrace(tracer)
                op.finish("ok")
            finally:
                os._exit(1)
        _, status = os.waitpid(pid, 0)
        mon.event("deaths-in-setup" if status == 0 else "deaths-after-setup")
        # The grid has created the directory, and the model does not know what
        # else took effect.
        op.finish("silent")
        life.restart()
        life.answers()
        mon.sig("died", at.bit_length(), life.configured is not None)
        mon.event("died-configured" if life.configured else "died-unconfigured")
    judge_end(life)


SCENARIOS = [
    Scenario("requests", requests, quick=120, thorough=4000, needs=["configured", "answers-201", "answers-409", "answers-500", "concurrent-requests", "full-disks", "killed-during-setup", "locks-left-behind", "file-states-watched", "replica-operations", "recovered"]),
    Scenario("torn", torn, quick=40, thorough=2000, needs=["deaths-in-setup", "died-configured", "died-unconfigured", "recovered"]),
]
