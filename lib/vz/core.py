"""
Check runner: seeds, worker processes, verdicts, replays and evidence.

A check module (checks/cNN.py) defines

    PROPERTY   = "C05"
    LEVEL      = "exploration" | "fault_enumeration"
    RULE       = text for the evidence file
    ASSUMPTIONS= [..]
    SCENARIOS  = [Scenario(name, fn, quick=N, thorough=M, needs=[event names])]

and each scenario function takes (rng, mon), drives the real code with inputs
drawn from ``rng`` only and reports what it saw to the monitor ``mon``.

Verdicts are three-valued: violated (exit 1 and a VIOLATION line), held on
what was explored (exit 0), inconclusive (exit 3: a monitor was never reached,
the harness itself failed, or a watchdog fired).
"""

import faulthandler
import json
import os
import pickle
import random
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = os.path.join(SRC, "_zkapauthorizer") + os.sep
FINDINGS = os.path.join(VERIF, "known-findings.txt")


class Violated(BaseException):
    """Raised by the monitor to end a case whose property does not hold."""


class CaseTimeout(BaseException):
    """The wall clock watchdog of one case fired: inconclusive."""


class Scenario:
    def __init__(self, name, fn, quick, thorough=None, needs=(), weight=1, timeout=240):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 10
        self.needs = tuple(needs)
        self.weight = weight
        self.timeout = timeout


class Monitor:
    """
    What one case reports to: event counts, signatures of distinct behaviour,
    samples, known findings, violations.
    """

    def __init__(self, prop, scenario, index, findings):
        self.prop = prop
        self.scenario = scenario
        self.index = index
        self.events = Counter()
        self.signature = []
        self.trace = []
        self.known = []
        self._findings = findings
        self.sample = None
        self.nontrivial = False
        self.first = None

    def event(self, name, n=1):
        self.events[name] += n

    def note(self, *what):
        """Append to the (bounded) trace written in a replay file."""
        if len(self.trace) < 4000:
            self.trace.append(" ".join(_short(w) for w in what))

    def sig(self, *what):
        """Something which makes this execution distinct from others."""
        self.signature.append(tuple(_short(w) for w in what))

    def check(self, ok, message, *detail):
        self.events["oracle-evaluations"] += 1
        if not ok:
            self.violate(message, *detail)

    def equal(self, got, expected, message):
        self.events["oracle-evaluations"] += 1
        if got != expected:
            if isinstance(got, (set, frozenset)) and isinstance(expected, (set, frozenset)):
                self.violate(
                    message,
                    "unexpected (%d)" % len(got - expected), sorted(got - expected, key=repr)[:3],
                    "missing (%d)" % len(expected - got), sorted(expected - got, key=repr)[:3],
                )
            self.violate(message, "got", got, "expected", expected)

    def violate(self, message, *detail):
        text = message + ("" if not detail else ": " + " ".join(_short(d, 600) for d in detail))
        if self.first is None:
            # The code under observation may swallow the exception.
            self.first = text
        raise Violated(text)

    def finding(self, key, message):
        """
        A defect recorded in known-findings.txt under this property and key.
        If it is not recorded there, it is a violation.
        """
        if (self.prop, key) in self._findings:
            self.known.append((key, message))
            self.events["known-finding:" + key] += 1
        else:
            self.violate(message, "(mechanism %s)" % (key,))


def _short(x, n=400):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[: n - 20] + "...[%d chars]" % len(s)


def load_findings():
    found = set()
    try:
        lines = open(FINDINGS).read().splitlines()
    except FileNotFoundError:
        return found
    for line in lines:
        if line.startswith("finding:"):
            m = re.match(r"finding: property=(\S+) key=(\S+) ", line)
            if m is None:
                raise ValueError("unreadable line in known-findings.txt: %r" % (line,))
            found.add((m.group(1), m.group(2)))
    return found


def repo_frames(tb):
    """Does the traceback pass through the code under test?"""
    return [
        f
        for f in traceback.extract_tb(tb)
        if f.filename.startswith(PKG) and (os.sep + "tests" + os.sep) not in f.filename
    ]


def failure_frames(e):
    """The same for an exception which went through a Twisted Failure."""
    f = getattr(e, "_vz_failure", None)
    if f is None:
        return []
    return [
        x[0]
        for x in f.frames
        if str(x[1]).startswith(PKG) and (os.sep + "tests" + os.sep) not in str(x[1])
    ]


def case_rng(prop, seed, scenario, index):
    return random.Random("%s|%s|%s|%d" % (prop, seed, scenario, index))


# Nothing the project promises depends on where its machine stands.
ZONES = ["UTC", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "CET-1CEST,M3.5.0,M10.5.0/3", "<+14>-14", "NST3:30NDT,M3.2.0,M11.1.0", "<-12>12"]


def set_zone(name):
    os.environ["TZ"] = name
    time.tzset()


SCRATCH = None


def scratch_root():
    for d in ("/dev/shm", None):
        try:
            return tempfile.mkdtemp(prefix="vz-", dir=d)
        except OSError:
            if d is None:
                raise


def scratch_dir():
    """A fresh directory under this worker's own scratch root."""
    return tempfile.mkdtemp(dir=SCRATCH)


class Hang:
    """Step budget for fakes: too many calls of one kind is unbounded work."""

    def __init__(self, mon, limit, message):
        self.mon, self.limit, self.message, self.n = mon, limit, message, 0

    def tick(self):
        self.n += 1
        if self.n > self.limit:
            raise Violated("%s (more than %d steps)" % (self.message, self.limit))


def run_case(module, scenario, index, seed, findings):
    mon = Monitor(module.PROPERTY, scenario.name, index, findings)
    rng = case_rng(module.PROPERTY, seed, scenario.name, index)
    outcome = {"kind": "held"}
    set_zone(random.Random("zone%s%d" % (seed, index)).choice(ZONES))

    def on_alarm(signum, frame):
        raise CaseTimeout("case ran for more than %d s" % scenario.timeout)

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(scenario.timeout)
    try:
        scenario.fn(rng, mon)
    except Violated as e:
        outcome = {"kind": "violated", "message": str(e), "trace": traceback.format_exc()}
    except CaseTimeout as e:
        outcome = {"kind": "inconclusive", "message": str(e), "trace": traceback.format_exc()}
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        frames = repo_frames(e.__traceback__) or failure_frames(e)
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__))
        v = _find_violated(e)
        if v is not None:
            outcome = {"kind": "violated", "message": str(v), "trace": text}
        elif frames:
            last = frames[-1]
            outcome = {
                "kind": "violated",
                "message": "unexpected %s from the code under test: %s (in %s)"
                % (type(e).__name__, _short(str(e)), getattr(last, "name", last)),
                "trace": text,
            }
        else:
            outcome = {"kind": "inconclusive", "message": "harness error: %r" % (e,), "trace": text}
    else:
        if mon.first is not None:
            outcome = {"kind": "violated", "message": mon.first, "trace": ""}
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        if mon.first is not None and outcome["kind"] != "held":
            outcome = {"kind": "violated", "message": mon.first, "trace": outcome.get("trace", "")}
        for name in os.listdir(SCRATCH):
            shutil.rmtree(os.path.join(SCRATCH, name), ignore_errors=True)
    return mon, outcome


def _find_violated(e):
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        if isinstance(e, Violated):
            return e
        e = e.__cause__ or e.__context__
    return None


def worker(module, cases, seed, findings, deadline, out):
    """Run this worker's cases and write one pickle of results."""
    global SCRATCH
    SCRATCH = scratch_root()
    results = []
    try:
        quiet_twisted()
        for scenario, index in cases:
            if time.time() > deadline:
                results.append((scenario.name, index, None, {"kind": "skipped"}))
                continue
            mon, outcome = run_case(module, scenario, index, seed, findings)
            results.append(
                (
                    scenario.name,
                    index,
                    {
                        "events": dict(mon.events),
                        "sig": hash_sig(mon.signature),
                        "trace": mon.trace if outcome["kind"] != "held" or index == 0 else [],
                        "known": mon.known,
                        "sample": mon.sample,
                        "nontrivial": mon.nontrivial or bool(mon.signature),
                    },
                    outcome,
                )
            )
            if outcome["kind"] == "violated" and not os.environ.get("VERIF_KEEP_GOING"):
                break
    finally:
        with open(out, "wb") as f:
            pickle.dump(results, f)
        shutil.rmtree(SCRATCH, ignore_errors=True)


def hash_sig(sig):
    import hashlib

    return hashlib.sha1(repr(sig).encode("utf-8", "replace")).hexdigest()


def quiet_twisted():
    """Discard Twisted's log output; count nothing from it."""
    import warnings

    warnings.simplefilter("ignore")
    from twisted.logger import globalLogBeginner

    try:
        globalLogBeginner.beginLoggingTo([], redirectStandardIO=False, discardBuffer=True)
    except Exception:
        pass


def main(module, argv):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    findings = load_findings()
    prop = module.PROPERTY
    if argv[:1] == ["--replay"]:
        return replay(module, argv[1], findings)
    only = argv[argv.index("--scenario") + 1] if "--scenario" in argv else None

    budget = float(os.environ.get("VERIF_BUDGET", "240" if tier == "quick" else "780"))
    nworkers = int(os.environ.get("VERIF_WORKERS", str(min(8, os.cpu_count() or 4))))
    cases = []
    for s in module.SCENARIOS:
        if only and s.name != only:
            continue
        n = s.quick if tier == "quick" else s.thorough
        scale = float(os.environ.get("VERIF_SCALE", "1"))
        n = max(1, int(n * scale)) if n else 0
        cases.extend((s, i) for i in range(n))
    # Interleave the scenarios so that a deadline cuts every one of them.
    cases.sort(key=lambda c: (c[1] / max(1, (c[0].quick if tier == "quick" else c[0].thorough)), c[0].name))
    nworkers = max(1, min(nworkers, len(cases)))
    tmp = tempfile.mkdtemp(prefix="vzout-")
    pids = []
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(nworkers):
        out = os.path.join(tmp, "%d.pickle" % w)
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                devnull = os.open(os.devnull, os.O_WRONLY)
                if not os.environ.get("VERIF_DEBUG"):
                    os.dup2(devnull, 2)
                    os.dup2(devnull, 1)
                faulthandler.enable()
                worker(module, cases[w::nworkers], seed, findings, t0 + budget, out)
            except BaseException:
                traceback.print_exc()
                code = 9
            finally:
                os._exit(code)
        pids.append((pid, out))
    results = []
    problems = []
    hard = t0 + budget + 60
    for pid, out in pids:
        while True:
            got, status = os.waitpid(pid, os.WNOHANG)
            if got:
                break
            if time.time() > hard:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                status = -1
                break
            time.sleep(0.05)
        if status != 0:
            problems.append("worker ended with status %r" % (status,))
        try:
            with open(out, "rb") as f:
                results.extend(pickle.load(f))
        except Exception as e:
            problems.append("worker left no results: %r" % (e,))
    shutil.rmtree(tmp, ignore_errors=True)
    return report(module, tier, seed, results, problems, t0, only)


def report(module, tier, seed, results, problems, t0, only):
    prop = module.PROPERTY
    events = Counter()
    per = {}
    sigs = set()
    known = Counter()
    known_text = {}
    violations = []
    inconclusive = list(problems)
    samples = []
    evaluations = skipped = 0
    for name, index, data, outcome in results:
        p = per.setdefault(name, Counter())
        if outcome["kind"] == "skipped":
            skipped += 1
            p["skipped"] += 1
            continue
        evaluations += 1
        p["cases"] += 1
        for k, v in data["events"].items():
            events[k] += v
            p[k] += v
        if data["nontrivial"]:
            sigs.add((name, data["sig"]))
        for key, message in data["known"]:
            known[key] += 1
            known_text.setdefault(key, message)
        if data["sample"] is not None and sum(1 for s in samples if s["scenario"] == name) < 2:
            samples.append({"scenario": name, "case": index, "what": data["sample"]})
        elif index == 0 and data["trace"] and not any(s["scenario"] == name for s in samples):
            samples.append({"scenario": name, "case": index, "trace": data["trace"][:25]})
        if outcome["kind"] == "violated":
            violations.append((name, index, outcome, data))
        elif outcome["kind"] == "inconclusive":
            inconclusive.append("%s[%d]: %s" % (name, index, outcome["message"]))
            if len(inconclusive) < 4:
                sys.stderr.write(outcome.get("trace", "") + "\n")
    for s in module.SCENARIOS:
        if only and s.name != only:
            continue
        p = per.get(s.name, Counter())
        n = s.quick if tier == "quick" else s.thorough
        if n and not p["cases"]:
            inconclusive.append("scenario %s was never run" % s.name)
        for need in s.needs:
            if n and not p[need]:
                inconclusive.append("scenario %s never observed %r" % (s.name, need))

    replay_path = None
    replays = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(replays, exist_ok=True)
    for old in os.listdir(replays):
        if old.startswith(prop + "-"):
            os.remove(os.path.join(replays, old))
    for name, index, outcome, data in violations[:5]:
        path = os.path.join(VERIF, "evidence", "replays", "%s-%s-%d.json" % (prop, name, index))
        with open(path, "w") as f:
            json.dump(
                {
                    "property": prop,
                    "scenario": name,
                    "case": index,
                    "seed": seed,
                    "tier": tier,
                    "message": outcome["message"],
                    "traceback": outcome["trace"].splitlines(),
                    "history": data["trace"],
                    "how": "/verif/check %s --replay %s" % (prop, path),
                },
                f,
                indent=1,
            )
        if replay_path is None:
            replay_path = path

    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": module.LEVEL,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(sigs),
            "rule": module.RULE,
            "samples": samples[:12] or [{"note": "no sample"}],
            "events": dict(sorted(events.items())),
            "per_scenario": {k: dict(sorted(v.items())) for k, v in sorted(per.items())},
            "skipped_for_time": skipped,
            "known_findings_seen": dict(known),
            "inconclusive": inconclusive[:10],
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, default=repr)

    for key in sorted(known):
        print("KNOWN-FINDING: property=%s %s: %s (%d times)" % (prop, key, known_text[key], known[key]))
    print(
        "%s %s seed=%d: %d executions, %d distinct, %d oracle evaluations, %.1f s%s"
        % (
            prop,
            tier,
            seed,
            evaluations,
            len(sigs),
            events["oracle-evaluations"],
            time.time() - t0,
            "" if not skipped else ", %d cases skipped for time" % skipped,
        )
    )
    if violations:
        for name, index, outcome, data in violations[:5]:
            print("  %s[%d]: %s" % (name, index, _short(outcome["message"], 500)))
        print("VIOLATION property=%s replay=%s" % (prop, replay_path))
        return 1
    if inconclusive:
        for line in inconclusive[:10]:
            print("INCONCLUSIVE: " + line)
        return 3
    return 0


def replay(module, path, findings):
    global SCRATCH
    with open(path) as f:
        r = json.load(f)
    SCRATCH = scratch_root()
    try:
        quiet_twisted()
        [s] = [s for s in module.SCENARIOS if s.name == r["scenario"]]
        mon, outcome = run_case(module, s, r["case"], r["seed"], findings)
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)
    for line in mon.trace:
        print("  " + line)
    print(outcome.get("trace", ""))
    print(outcome["kind"], outcome.get("message", ""))
    if outcome["kind"] == "violated":
        print("VIOLATION property=%s replay=%s" % (module.PROPERTY, path))
        return 1
    return 0 if outcome["kind"] == "held" else 3
