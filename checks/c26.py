"""Nothing that is as good as money, data or access is written to a log."""

import base64
import contextlib
import io
import json
import logging
import os
import random
import re
import string
from functools import wraps
from importlib import import_module

import eliot
from allmydata.client import SecretHolder
from allmydata.util.jsonbytes import AnyBytesJSONEncoder
from twisted.logger import eventAsText, globalLogPublisher

from _zkapauthorizer import lease_maintenance, model
from vz import cli, netcli, node, ppass, repl, srv
from vz.core import Monitor, Scenario, Violated

PROPERTY = "C26"
LEVEL = "exploration"
RULE = (
    "The workloads of the other checks - redemption over HTTP, spending over Foolscap and against hostile servers, replication, recovery, the HTTP API, "
    "set-up of replication, storage of replicas, databases that fail - and a workload of storage operations with secret lease secrets, with an observer "
    "on everything which Twisted's log, Eliot, Python's logging, standard output and standard error are given. The observer knows every token, pass, "
    "capability, API token, signing key, lease secret and write enabler of the execution and looks for any part of any of them. Distinct by workload "
    "and by what was logged."
)
ASSUMPTIONS = ["vouchers are logged on purpose and are not looked for", "a part of a secret shorter than 24 characters is not recognised"]

PART = 24
CAP = re.compile(r"URI(?::|%3A)[A-Z0-9-]+(?::|%3A)[a-z2-7]{20,}")


class Registry:
    """The secrets of one execution."""

    def __init__(self):
        self.parts = {}
        self.whole = {}
        self.public = set()
        self.count = 0

    def add(self, kind, value):
        """A secret text."""
        text = value.decode("latin-1") if isinstance(value, bytes) else value
        self.count += 1
        if len(text) < PART:
            if len(text) >= 8:
                self.whole[text] = kind
            return
        for i in list(range(0, len(text) - PART + 1, PART)) + [len(text) - PART]:
            part = text[i : i + PART]
            # What looks like this by chance is no secret.
            if len(set(part)) >= 8:
                self.parts[part] = kind

    def add_binary(self, kind, value):
        """Secret bytes, which may be written in several ways."""
        self.add(kind, value)
        self.add(kind, repr(value)[2:-1])
        self.add(kind, value.hex())
        self.add(kind, base64.b64encode(value))
        self.add(kind, base64.b32encode(value).decode().lower())

    def find(self, text):
        parts = self.parts
        for i in range(len(text) - PART + 1):
            p = text[i : i + PART]
            # The dummy redeemer makes tokens out of the voucher's number.
            if p in parts and not any(p in v for v in self.public):
                return parts[p], text[max(0, i - 150) : i + 150]
        for w in self.whole:
            i = text.find(w)
            if i >= 0:
                return self.whole[w], text[max(0, i - 150) : i + 150]
        m = CAP.search(text)
        if m is not None:
            return "capability", text[max(0, m.start() - 150) : m.end() + 150]
        return None


class Log:
    """Everything that is logged, as text."""

    def __init__(self):
        self.lines = []
        self.sources = {}

    def put(self, source, text):
        self.sources[source] = self.sources.get(source, 0) + 1
        self.lines.append(text)

    def twisted(self, event):
        self.put("twisted", eventAsText(event, includeTraceback=True, includeTimestamp=False, includeSystem=False))

    def eliot(self, message):
        try:
            text = json.dumps(message, cls=AnyBytesJSONEncoder)
        except (TypeError, ValueError):
            # Eliot then writes what it can.
            text = repr(message)
        self.put("eliot", text)

    @contextlib.contextmanager
    def watching(self, registry):
        class Handler(logging.Handler):
            def emit(handler, record):
                self.put("logging", handler.format(record))

        handler = Handler()
        out, err = io.StringIO(), io.StringIO()
        saved = []
        for cls, field in ((model.UnblindedToken, "unblinded_token"), (model.RandomToken, "token_value"), (model.Pass, None), (model.Voucher, "number")):
            saved.append((cls, cls.__init__))
            cls.__init__ = self.registering(registry, cls, cls.__init__, field)
        for name in ("put_file", "make_dir"):
            saved.append((node.Grid, getattr(node.Grid, name)))
            setattr(node.Grid, name, self.naming(registry, saved[-1][1]))
        for name in ("get_renewal_secret", "get_cancel_secret"):
            saved.append((SecretHolder, getattr(SecretHolder, name)))
            setattr(SecretHolder, name, self.telling(registry, saved[-1][1]))
        for name in ("bucket_renewal_secret_hash", "bucket_cancel_secret_hash", "file_renewal_secret_hash", "file_cancel_secret_hash"):
            if hasattr(lease_maintenance, name):
                saved.append((lease_maintenance, getattr(lease_maintenance, name)))
                setattr(lease_maintenance, name, self.telling(registry, saved[-1][1]))
        globalLogPublisher.addObserver(self.twisted)
        eliot.add_destinations(self.eliot)
        logging.getLogger().addHandler(handler)
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                yield
        finally:
            for cls, f in saved:
                setattr(cls, f.__name__, f)
            globalLogPublisher.removeObserver(self.twisted)
            eliot.remove_destination(self.eliot)
            logging.getLogger().removeHandler(handler)
            for name, f in (("stdout", out), ("stderr", err)):
                if f.getvalue():
                    self.put(name, f.getvalue())

    def naming(self, registry, make):
        @wraps(make)
        def named(*a):
            cap = make(*a)
            registry.add("capability", cap.split(":")[2])
            return cap

        return named

    def telling(self, registry, make):
        @wraps(make)
        def told(*a, **kw):
            secret = make(*a, **kw)
            registry.add_binary("lease secret", secret)
            return secret

        return told

    def registering(self, registry, cls, init, field):
        def registered(self, *a, **kw):
            init(self, *a, **kw)
            if field is None:
                registry.add("pass", self.preimage)
                registry.add("pass", self.signature)
            elif field == "number":
                registry.public.add(self.number.decode("ascii"))
            else:
                registry.add("token", getattr(self, field))

        return registered


def observe(rng, mon, run, registry=None):
    registry = registry or Registry()
    log = Log()
    with log.watching(registry):
        run(registry)
    for source, n in log.sources.items():
        mon.event("lines-of-" + source, n)
    mon.event("secrets", registry.count)
    mon.event("watched" if log.lines else "silent")
    text = "\n".join(log.lines)
    mon.event("characters", len(text))
    kinds = sorted({t for t in re.findall(r'"(?:action|message)_type": "([^"]*)"', text)})
    mon.sig(kinds, sorted(log.sources), registry.count)
    mon.note("logged", {k: v for k, v in log.sources.items()}, "kinds", kinds, "secrets", registry.count)
    found = registry.find(text)
    mon.check(found is None, "a secret is written to a log", found)


# The workloads of other checks


WORKLOADS = {
    "spending": [("c05", "network"), ("c05", "schedule"), ("c05", "stubborn"), ("c25", "chain")],
    "redeeming": [("c06", "history"), ("c06", "immediate"), ("c07", "history"), ("c08", "history"), ("c14", "history")],
    "replicating": [("c10", "operations"), ("c11", "stormy"), ("c11", "prompt"), ("c09", "quiet"), ("c09", "stormy")],
    "recovering": [("c12", "observers"), ("c12", "damaged"), ("c12", "interrupted"), ("c12", "flipped")],
    "configuring": [("c21", "requests"), ("c24", "client"), ("c24", "server"), ("c24", "refused"), ("c13", "fuzz"), ("c13", "authorized")],
    "storing": [("c22", "well"), ("c22", "faulty"), ("c22", "together"), ("c16", "maintain"), ("c16", "faulty")],
    "serving": [("c01", None), ("c02", None), ("c03", None), ("c04", None), ("c19", None), ("c18", "upgrade")],
}


def borrowed(group):
    def scenario(rng, mon):
        name, wanted = rng.choice(WORKLOADS[group])
        module = import_module(name)
        s = rng.choice([s for s in module.SCENARIOS if wanted in (None, s.name)])
        other = Monitor(module.PROPERTY, s.name, mon.index, Everything())
        mon.note("workload", name, s.name)
        mon.sig(name, s.name)

        def run(registry):
            for kind, value in KNOWN.items():
                registry.add(kind, value)
            try:
                s.fn(rng, other)
            except Violated:
                # That is for the other check to say.
                mon.event("workload-ended-early")
            mon.event("workload-" + name)

        observe(rng, mon, run)

    return scenario


class Everything:
    def __contains__(self, x):
        return True


KNOWN = {"API token": "token-for-tests"}


# A workload with secrets of its own


def letters(rng, n=32):
    return "".join(rng.choice(string.ascii_letters + string.digits) for _ in range(n)).encode()


def operations(rng, mon):
    """A client and a server, their secrets, and what goes wrong between them."""

    def run(registry):
        w = netcli.NetWorld(rng)
        try:
            registry.add("signing key", w.server.key.encode_base64())
            w.server.secrets = [letters(rng) for _ in range(3)]
            enabler = letters(rng)
            for s in w.server.secrets + [enabler]:
                registry.add_binary("lease secret", s)
            w.buy(60, rng.choice([0, 0, 2]))
            for _ in range(rng.randrange(6, 18)):
                one(w, enabler)
        finally:
            w.close()

    def one(w, enabler):
        si = rng.choice(w.server.sis)
        renew, cancel = rng.choice(w.server.secrets), rng.choice(w.server.secrets)
        size = rng.choice([0, 1, w.pv, w.pv + 1, 2 * w.pv])
        nums = set(rng.sample(range(6), rng.randrange(1, 4)))
        content = letters(rng, max(1, min(size, 200)))
        c = w.client
        op = rng.choice(["allocate", "allocate", "lease", "write", "write", "broken-write", "stat", "advise", "read", "get", "version"])
        canary = netcli_canary()
        if op == "allocate":
            o = w.run(c.allocate_buckets, si, renew, cancel, nums, size, canary)
        elif op == "lease":
            o = w.run(c.add_lease, si, renew, cancel)
        elif op == "write":
            o = w.run(c.slot_testv_and_readv_and_writev, si, (rng.choice([enabler, renew]), renew, cancel), {n: (rng.choice([[], [(0, 1, b"x")]]), [(0, content)], None) for n in nums}, [(0, 10)])
        elif op == "broken-write":
            o = w.run(c.slot_testv_and_readv_and_writev, si, (enabler, renew, cancel), {0: ([], [(0, content)], 5)}, [])
        elif op == "stat":
            o = w.run(c.stat_shares, [si])
        elif op == "advise":
            o = w.run(c.advise_corrupt_share, b"immutable", si, 0, b"broken")
        elif op == "read":
            o = w.run(c.slot_readv, si, [], [(0, 10)])
        elif op == "get":
            o = w.run(c.get_buckets, si)
        else:
            o = w.run(c.get_version)
        mon.event(("failed-" if o.failure is not None else "done-") + op)
        if o.failure is not None:
            # The caller writes the failure to its log.
            text = o.failure.getTraceback()
            mon.event("failures-seen")

    observe(rng, mon, run)


def netcli_canary():
    from foolscap.referenceable import Referenceable

    return Referenceable()


# Recovery and replication with the real Tahoe-LAFS client


STORM = ("ok", "ok", "ok", "fail", "fail", "lost", "hold")


def replica(rng, mon):
    """Replication to and recovery from a grid which answers badly."""

    def run(registry):
        registry.add("API token", KNOWN["API token"])
        life = repl.Life(rng, mon, storm=STORM, wire=rng.random() < 0.8)
        for _ in range(rng.randrange(0, 4)):
            life.step()
        if rng.random() < 0.5:
            troubled_setup(rng, mon, life)
        life.setup()
        life.storming = True
        for _ in range(rng.randrange(3, 12)):
            pending = life.node.pending
            if pending and rng.random() < 0.5:
                rng.choice(pending).finish(rng.choice(["ok", "fail", "lost"]))
            if rng.random() < 0.2:
                life.node.reactor.advance(rng.choice([61, 300, 7200]))
            life.step(fault=rng.randrange(6) if rng.random() < 0.1 else None)
        if rng.random() < 0.5:
            life.calm()
        mon.event("replicated")
        mon.sig(len(life.history), len(life.states))
        life.node.crash()
        other = node.Node(life.grid, wire=rng if rng.random() < 0.8 else None)
        for _ in range(rng.randrange(1, 5)):
            how = rng.choice(["ok", "fail", "fail", "fail"])
            at = [rng.randrange(3)]

            def policy(op):
                at[0] -= 1
                return how if at[0] < 0 else "ok"

            other.policy = policy
            ws = node.Websocket(other).recover(life.replica)
            mon.event("recovery-" + (ws.stages or ["none"])[-1])
            if "succeeded" in ws.stages:
                break
        other.crash()

    observe(rng, mon, run)


def troubled_setup(rng, mon, life):
    """Attempts to set replication up which fail."""
    policy = life.node.policy
    life.node.policy = lambda op: rng.choice(["fail", "lost"]) if op.name == "mkdir" else "ok"
    for _ in range(rng.randrange(1, 3)):
        r = life.node.replicate()
        mon.event("failed-setup-%d" % (r.code,))
    life.node.policy = policy


def requests(rng, mon):
    """Recovery requests which are not understood, with real capabilities inside."""

    def run(registry):
        registry.add("API token", KNOWN["API token"])
        grid = node.Grid()
        n = node.Node(grid, wire=rng if rng.random() < 0.3 else None)
        for _ in range(rng.randrange(2, 7)):
            rw = grid.make_dir()
            ro = next(r for r, w in grid.ro.items() if w == rw)
            cap = rng.choice([ro, ro, rw, grid.put_file(b"x")])
            good = json.dumps({"recovery-capability": cap})
            how = rng.choice(["cut", "cut", "longer", "shape", "changed", "twice", "good", "post", "path"])
            payload = good
            if how == "cut":
                payload = good[: rng.randrange(len(good) - 20, len(good))]
            elif how == "longer":
                payload = good + rng.choice(["x", "}", good, ","])
            elif how == "shape":
                payload = json.dumps(rng.choice([cap, [cap], {cap: cap}, {"recovery-capability": [cap]}, {"recovery-capability": {cap: 1}}, {"recovery_capability": cap}, {"recovery-capability": cap, "x": cap}]))
            elif how == "changed":
                i = rng.randrange(len(cap))
                payload = json.dumps({"recovery-capability": cap[:i] + rng.choice(["", ":", "1", "é", "A", " ", "\n"]) + cap[i + rng.randrange(2) :]})
            elif how == "twice":
                payload = '{"recovery-capability": "%s", "recovery-capability": "%s"}' % (cap, cap[:-3])
            if how == "post":
                n.call(rng.choice([b"POST", b"PUT", b"GET"]), rng.choice([b"/replicate", b"/recover", b"/voucher", b"/calculate-price"]), payload.encode("utf-8"), [(b"Content-Type", b"application/json")])
            elif how == "path":
                n.call(b"GET", b"/recover/" + cap.encode())
            else:
                ws = node.Websocket(n)
                ws.send(payload.encode("utf-8"), binary=rng.random() < 0.3)
                ws.read()
                mon.event("closed-%s" % ((ws.closed or [None])[0],))
            mon.event("request-" + how)
            mon.sig(how)
        n.crash()

    observe(rng, mon, run)


SCENARIOS = [Scenario(g, borrowed(g), 40, 1500, needs=["watched", "secrets"] + ["workload-" + n for n in sorted({n for n, _ in WORKLOADS[g]})]) for g in WORKLOADS] + [
    Scenario("replica", replica, 40, 1500, needs=["watched", "on-the-wire", "replicated", "recovery-succeeded", "recovery-download_failed", "failed-setup-500"]),
    Scenario("requests", requests, 40, 1500, needs=["watched", "closed-4000", "request-cut", "request-shape", "request-changed"]),
    Scenario("operations", operations, 40, 1500, needs=["watched", "done-allocate", "done-lease", "done-write", "failed-write", "failed-broken-write"]),
]
