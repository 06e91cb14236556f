"""Replica storage operations act on exactly the addressed object or fail."""

import io
import json
import os
import traceback

from allmydata.client import config_from_string
from tahoe_capabilities import (
    danger_real_capability_string,
    readable_from_string,
    readonly_directory_from_string,
    writeable_directory_from_string,
    writeable_from_string,
)
from twisted.internet import task
from twisted.internet.defer import Deferred
from twisted.internet.error import ConnectionDone, ConnectionLost
from twisted.python.filepath import FilePath

from _zkapauthorizer.tahoe import DirectoryNode, FileNode, NotADirectoryError, NotWriteableError, TahoeAPIError, download_child, get_tahoe_client
from vz import cli, webapi
from vz.core import Scenario, scratch_dir

PROPERTY = "C22"
LEVEL = "fault_enumeration"
RULE = (
    "The client as get_tahoe_client makes it runs histories of operations against a model of the web interface which parses the raw requests itself. "
    "Answers are sent in pieces of random sizes, plain or chunked, in any order for concurrent operations. In the second scenario every request may be "
    "refused, answered with any status, cut short at any byte before or after it took effect, or answered with nonsense. After every operation the whole "
    "of what the model stores is compared with a reference and the outcome with what the server did. Distinct by operation, name class, fault and outcome."
)
ASSUMPTIONS = ["the reactor is virtual: time passes only when nothing is under way", "the model of the web interface is a reading of Tahoe-LAFS's documentation and code",
    "the library which parses capabilities does not know immutable directories and misreads those of MDMF files, so neither is generated (the replica has neither)"]

NAMES = [
    "snapshot", "event-stream-17", "a/b", "..", ".", "../x", "a%2fb", "%", "%25", "%2e%2e", "a?b", "?t=delete", "a#b", "a b", " ", "+", "a+b", "&t=x", "a=b",
    "é", "日本", "\U0001f600", "\n", "\\", "'", '"', "<x>", ":", ";", "URI:DIR2:x", "uri", "~", "*", "a" * 300, "@", "%E9", "//", "0", "\x7f", "|", "[x]", "{", "^", "`",
]


class World:
    def __init__(self, rng, mon):
        self.rng, self.mon = rng, mon
        self.net = webapi.Net(rng)
        self.net.received = self.received
        self.model = webapi.Model(rng)
        self.base = scratch_dir()
        os.makedirs(os.path.join(self.base, "private"))
        self.secrets = set()
        self.faults = []  # one per request still to come
        self.connect_faults = []
        self.log = []
        self.pending = []
        self.hold = False
        self.root(rng.choice([3456, 8123, 80]))
        self.config = config_from_string(self.base, "tub.port", "[client]\nshares.needed = 2\nshares.total = 5\n")
        self.client = get_tahoe_client(self.net, self.config)
        self.net.connecting = self.connecting
        self.real_cooperator = task._theCooperator
        task._theCooperator = task.Cooperator(scheduler=lambda f: self.net.callLater(0.0001, f))

    def close(self):
        task._theCooperator = self.real_cooperator

    def root(self, port):
        self.port = port
        with open(os.path.join(self.base, "node.url"), "w") as f:
            f.write("http://127.0.0.1:%d/" % (port,) + self.rng.choice(["", "\n"]))

    def connecting(self, host, port):
        self.mon.check((host, port) == ("127.0.0.1", self.port), "a connection to something other than the node", host, port)
        if self.connect_faults:
            f = self.connect_faults.pop(0)
            if f is not None:
                self.log.append(("connection", f))
                return f()
        return None

    def received(self, request):
        self.mon.event("request")
        self.log.append(request)
        self.mon.note("request", request)
        host = request.headers.get(b"host")
        self.mon.check(host in (b"127.0.0.1:%d" % self.port, b"127.0.0.1"), "the host of a request", host)
        if self.hold:
            self.pending.append(request)
        else:
            self.answer(request)

    def answer(self, request):
        fault = self.faults.pop(0) if self.faults else None
        if fault is None:
            code, kind, body = self.model.handle(request.method, request.path, request.query, request.body)
            request.conn.reply(webapi.response(self.rng, code, kind, body))
        else:
            fault(self, request)

    def do(self, coro):
        """Start an operation."""
        return cli.Outcome(Deferred.fromCoroutine(coro))

    def run(self, coro, what, steps=20000):
        o = self.do(coro)
        self.net.spin(lambda: o.done, steps)
        self.mon.check(o.done, what + " never ends", self.log[-3:])
        return o

    def idle(self):
        self.net.spin(lambda: False, 3000)

    # expectations

    def state(self):
        return self.model.state()


def failed_cleanly(w, o, what, *detail):
    """The operation failed with an ordinary exception which gives no secret away."""
    w.mon.check(not o.ok, what + " is reported as a success", o.value, *detail)
    e = o.failure.value
    w.mon.check(isinstance(e, Exception), what + " ends with something which is not an error", repr(e))
    if isinstance(e, TahoeAPIError):
        texts = [str(e), repr(e), "".join(traceback.format_exception_only(type(e), e)), o.failure.getErrorMessage()]
        for s in w.secrets:
            key = s.split(":")[2]
            for t in texts:
                w.mon.check(key not in t and s.replace(":", "%3A") not in t, "the error of %s gives the capability away" % (what,), t)
    return e


def content(rng):
    n = rng.choice([0, 1, 10, 55, 56, 1000, 4096, 65535, 65536, 65537, 200000]) if rng.random() < 0.5 else rng.randrange(3000)
    return bytes(rng.getrandbits(8) for _ in range(min(n, 3000))) * (1 + n // 3000) if n > 3000 else bytes(rng.getrandbits(8) for _ in range(n))


def name_of(rng, d=None):
    if d is not None and d.children and rng.random() < 0.5:
        return rng.choice(sorted(d.children))
    k = rng.random()
    if k < 0.8:
        return rng.choice(NAMES)
    return "".join(chr(rng.choice([rng.randrange(1, 128), rng.randrange(0xA1, 0x2FF)])) for _ in range(rng.randrange(1, 6))) or "x"


def nfc(name):
    import unicodedata

    return unicodedata.normalize("NFC", name)


def klass(name):
    if name.isalnum():
        return "plain"
    return "".join(sorted(set(c if ord(c) < 128 else "U" for c in name if not c.isalnum())))[:4]


class Provider:
    """Data which may be asked for several times."""

    def __init__(self, data):
        self.data, self.n = data, 0

    def __call__(self):
        self.n += 1
        return io.BytesIO(self.data)


def populated(w, rng):
    """Some directories and files."""
    m = w.model
    dirs = [m.add_dir(rng.choice(["DIR2", "DIR2", "DIR2-MDMF"])) for _ in range(rng.randrange(1, 4))]
    files = [m.add_file(content(rng), rng.choice(["chk", "chk", "lit", "ssk"])) for _ in range(rng.randrange(1, 4))]
    for f in files:
        if len(f.content) > 55 and f.ro.startswith("URI:LIT:"):
            del m.objects[f.ro]
            f2 = m.add_file(f.content, "chk")
            files[files.index(f)] = f2
    for d in dirs:
        for _ in range(rng.randrange(4)):
            o = rng.choice(files + dirs)
            d.children[nfc(name_of(rng))] = rng.choice([o.ro, o.rw or o.ro])
    w.secrets |= {d.rw for d in dirs} | {d.ro for d in dirs} | {f.ro for f in files if ":LIT:" not in f.ro}
    return dirs, files


def parse_any(cap):
    for p in (writeable_directory_from_string, readonly_directory_from_string, writeable_from_string, readable_from_string):
        try:
            return p(cap)
        except Exception:
            continue
    raise ValueError(cap)


def expect_listing(w, got, d):
    model = w.model
    want = {}
    for name, cap in d.children.items():
        o = model.objects[cap]
        want[name] = ("dir", o.ro) if isinstance(o, webapi.Dir) else ("file", o.ro, o.size)
    seen = {}
    for name, e in got.items():
        if isinstance(e, DirectoryNode):
            seen[name] = ("dir", danger_real_capability_string(e.ro_uri))
        else:
            w.mon.check(isinstance(e, FileNode), "an entry of a listing is neither file nor directory", e)
            seen[name] = ("file", danger_real_capability_string(e.ro_uri), e.size)
    w.mon.equal(seen, want, "the listing of a directory")


def one(w, rng, dirs, files, op):
    """
    Prepare one operation: (coroutine, what, apply to reference, verify value)
    """
    client = w.client
    d = rng.choice(dirs)
    if op == "upload":
        p = Provider(content(rng))

        def verify(v):
            cap = danger_real_capability_string(v)
            o = w.model.objects.get(cap)
            w.mon.check(isinstance(o, webapi.File), "an upload returns a capability which the server did not issue", cap)
            w.mon.check(o.content == p.data, "the uploaded bytes are not the given ones", len(o.content), len(p.data))
            w.mon.check(o not in files, "an upload returns the capability of something else")
            files.append(o)

        return lambda: client.upload(p), None, verify, len(p.data)
    if op == "mkdir":

        def verify(v):
            cap = danger_real_capability_string(v)
            o = w.model.objects.get(cap)
            w.mon.check(isinstance(o, webapi.Dir) and o.rw == cap and o not in dirs and o.children == {}, "a new directory is not new", cap)
            dirs.append(o)
            w.secrets.add(cap)

        return lambda: client.make_directory(), None, verify, 0
    if op == "link":
        o = rng.choice(files + dirs)
        cap = rng.choice([o.ro, o.rw or o.ro])
        name = nfc(name_of(rng, d))
        return (
            lambda: client.link(writeable_directory_from_string(d.rw), name, parse_any(cap)),
            lambda st: st.__setitem__(d.ro, ("dir", tuple(sorted(list((k, c) for k, c in st[d.ro][1] if k != name) + [(name, cap)])))),
            lambda v: w.mon.equal(v, None, "the result of a link"),
            klass(name),
        )
    if op == "unlink":
        name = nfc(name_of(rng, d))

        def apply(st):
            st[d.ro] = ("dir", tuple((k, c) for k, c in st[d.ro][1] if k != name))

        return lambda: client.unlink(writeable_directory_from_string(d.rw), name), apply, lambda v: w.mon.equal(v, None, "the result of an unlink"), (name, d)
    if op == "list":
        cap = rng.choice([readonly_directory_from_string(d.ro), writeable_directory_from_string(d.rw)])
        return lambda: client.list_directory(cap), None, lambda v: expect_listing(w, v, d), len(d.children)
    if op == "download":
        f = rng.choice(files)
        path = FilePath(os.path.join(w.base, "private", "out%d" % rng.randrange(10**9)))
        old = None
        if rng.random() < 0.5:
            old = b"what was there before"
            path.setContent(old)

        def verify(v):
            w.mon.check(path.isfile() and path.getContent() == f.content, "a downloaded file does not hold the bytes of the object", len(f.content))
            path.remove()

        def unchanged():
            now = path.getContent() if path.exists() else None
            w.mon.check(now in (old, f.content), "a failed download leaves a part of the object", None if now is None else len(now), len(f.content))

        verify.unchanged = unchanged
        verify.file = f
        return lambda: client.download(path, readable_from_string(f.ro)), None, verify, len(f.content)
    raise ValueError(op)


OPS = ["upload", "mkdir", "link", "link", "unlink", "unlink", "list", "list", "download", "download"]


def well(rng, mon):
    w = World(rng, mon)
    try:
        dirs, files = populated(w, rng)
        for _ in range(rng.randrange(4, 12)):
            op = rng.choice(OPS + ["wrong", "child"])
            if rng.random() < 0.1:
                w.root(rng.choice([3456, 8124]))
            before = w.state()
            if op == "wrong":
                wrong(w, rng, dirs, files, before)
                continue
            if op == "child":
                child(w, rng, dirs, files)
                mon.equal(w.state(), before, "what is stored after reading")
                continue
            start, apply, verify, info = one(w, rng, dirs, files, op)
            missing = op == "unlink" and info[0] not in info[1].children
            n = len(w.log)
            o = w.run(start(), op)
            if missing:
                e = failed_cleanly(w, o, "unlinking what is not there")
                mon.check(isinstance(e, TahoeAPIError) and e.status == 404 and "No such child" in e.body, "the details of a refused unlink", e)
                mon.equal(w.state(), before, "what is stored after a refused unlink")
                mon.event("unlink-missing")
                continue
            if not o.ok:
                mon.violate("%s fails although the server is well" % (op,), o.failure.value, w.log[-2:])
            verify(o.value)
            want = dict(before)
            if apply is not None:
                apply(want)
            got = w.state()
            if op in ("upload", "mkdir"):
                new = set(got) - set(want)
                mon.equal(len(new), 1, "the number of objects created by one " + op)
                want.update((k, got[k]) for k in new)
            mon.equal(got, want, "what is stored after " + op)
            mon.equal(len(w.log) - n, 1, "the number of requests for one " + op)
            mon.event("op-" + op)
            mon.sig(op, info if not isinstance(info, tuple) else klass(info[0]))
        mon.equal(w.net.extra, 0, "bytes sent beyond a request")
    finally:
        w.close()


def wrong(w, rng, dirs, files, before):
    """Operations which the server refuses for what they address."""
    mon, d, f = w.mon, rng.choice(dirs), rng.choice(files)
    name = nfc(name_of(rng, d))
    kind = rng.choice(["link-ro", "unlink-ro", "unlink-file", "list-file", "gone"])
    if kind == "link-ro":
        e = failed_cleanly(w, w.run(w.client.link(readonly_directory_from_string(d.ro), name, readable_from_string(f.ro)), kind), "linking into a read-only directory")
        mon.check(isinstance(e, NotWriteableError), "the error of linking into a read-only directory", e)
    elif kind == "unlink-ro":
        e = failed_cleanly(w, w.run(w.client.unlink(readonly_directory_from_string(d.ro), name), kind), "unlinking from a read-only directory")
        mon.check(isinstance(e, NotWriteableError), "the error of unlinking from a read-only directory", e)
    elif kind == "unlink-file":
        e = failed_cleanly(w, w.run(w.client.unlink(parse_any(f.ro), name), kind), "unlinking from a file")
        mon.check(isinstance(e, NotADirectoryError), "the error of unlinking from a file", e)
    elif kind == "list-file":
        failed_cleanly(w, w.run(w.client.list_directory(readable_from_string(f.ro)), kind), "listing a file")
    else:
        rw, ro = w.model.caps.pair("DIR2")
        w.secrets |= {rw, ro}
        e = failed_cleanly(w, w.run(w.client.list_directory(readonly_directory_from_string(ro)), kind), "listing what does not exist")
        mon.check(isinstance(e, TahoeAPIError) and e.status == 410 and "NoSharesError" in e.body, "the details of a refused listing", e)
    mon.equal(w.state(), before, "what is stored after a refused operation")
    mon.event("wrong-" + kind)
    mon.sig("wrong", kind)


def child(w, rng, dirs, files):
    """Download by a path of names."""
    mon = w.mon
    path, d = [], rng.choice(dirs)
    top = d
    o = d
    while isinstance(o, webapi.Dir) and o.children and len(path) < 5:
        name = rng.choice(sorted(o.children))
        path.append(name)
        o = w.model.objects[o.children[name]]
    if isinstance(o, webapi.File) and rng.random() < 0.2:
        path.append("x")
        expected = "fails"
    elif not isinstance(o, webapi.File) or rng.random() < 0.2:
        path = path + [nfc(name_of(rng))] if isinstance(o, webapi.Dir) else path[:-1] + ["not there \u1234"]
        expected = "fails"
        p = top
        for name in path:
            cap = p.children.get(name) if isinstance(p, webapi.Dir) else None
            p = w.model.objects[cap] if cap is not None else None
        if isinstance(p, webapi.File):
            expected, o = "works", p
    else:
        expected = "works"
    out = FilePath(os.path.join(w.base, "private", "child"))
    r = w.run(download_child(out, w.client, readonly_directory_from_string(top.ro), path), "download by path")
    if expected == "works":
        mon.check(r.ok, "a download by path fails", path, r.failure)
        mon.check(out.getContent() == o.content, "a download by path fetches something else", path)
        out.remove()
        mon.event("child")
    else:
        failed_cleanly(w, r, "downloading by a path which does not lead to a file")
        mon.check(not out.exists(), "a failed download by path leaves a file")
        mon.event("child-missing")
    mon.sig("child", len(path), expected)


# Faults

UNAVAILABLE = [
    (503, b"allmydata.interfaces.NoServersError: No server connections"),
    (500, b"Traceback (most recent call last):\nallmydata.interfaces.NoServersError: ran out"),
    (503, b"allmydata.mutable.common.NotEnoughServersError: ('Publish ran out of good servers',)"),
    (500, b"<html>allmydata.mutable.common.NotEnoughServersError</html>"),
]
STATUSES = [202, 204, 206, 400, 401, 403, 404, 409, 410, 413, 500, 500, 501, 502, 503, 507]


def unavailable(rng):
    code, body = rng.choice(UNAVAILABLE)
    return lambda w, r: r.conn.reply(webapi.response(rng, code, "text/plain", body))


def status(rng, code, body, applied):
    def fault(w, r):
        if applied:
            w.model.handle(r.method, r.path, r.query, r.body)
        r.conn.reply(webapi.response(rng, code, "text/plain", body))

    return fault


def cut(rng, applied, where):
    """The connection is lost."""

    def fault(w, r):
        if not applied:
            r.conn.reply(b"", close=rng.choice([ConnectionLost, ConnectionDone]))
            return
        code, kind, body = w.model.handle(r.method, r.path, r.query, r.body)
        raw = webapi.response(rng, code, kind, body)
        n = {"before": 0, "head": rng.randrange(len(raw) - len(body)), "body": None}[where]
        if n is None:
            n = rng.randrange(raw.index(b"\r\n\r\n") + 3, len(raw))
        r.conn.reply(raw[:n], close=rng.choice([ConnectionLost, ConnectionDone]))

    return fault


def nonsense(rng, body):
    def fault(w, r):
        w.model.handle(r.method, r.path, r.query, r.body)
        r.conn.reply(webapi.response(rng, 200, "text/plain", body))

    return fault


NONSENSE = {
    "upload": [b"", b"no", b"URI:", b"\xff\xfe", b"URI:CHK:x", b"http://x/", b"URI:CHK-Verifier:a:b:1:1:1"],
    "mkdir": [b"", b"no", b"URI:", b"\xff\xfe", b"URI:DIR2:x", b"<html></html>"],
    "list": [b"", b"no", b"{}", b"[]", b"[1]", b'["dirnode", {}]', b'["dirnode", {"children": 7}]', b'["dirnode", {"children": {"a": 3}}]', b'["dirnode", {"children": {"a": ["filenode", {}]}}]', b"\xff", b'["dirnode", {"children": {"a": ["filenode", {"size": 3, "ro_uri": "x"}]}}]', b'["dirnode", {"chil'],
}


def faulty(rng, mon):
    w = World(rng, mon)
    try:
        dirs, files = populated(w, rng)
        for _ in range(rng.randrange(3, 8)):
            op = rng.choice(OPS)
            before = w.state()
            start, apply, verify, info = one(w, rng, dirs, files, op)
            if op == "unlink" and info[0] not in info[1].children:
                continue
            kind = rng.choice(["unavailable", "unavailable", "refused", "status", "status", "cut", "cut", "nonsense", "timeout"])
            applied = False
            n = len(w.log)
            if kind in ("unavailable", "refused"):
                tries = rng.choice([1, 1, 2, 5])
                for _ in range(tries):
                    if kind == "refused" or rng.random() < 0.2:
                        w.connect_faults.append(webapi.REFUSED)
                    else:
                        w.connect_faults.append(None)
                        w.faults.append(unavailable(rng))
            elif kind == "timeout":
                w.connect_faults.append(webapi.TIMEOUT)
            elif kind == "status":
                code = rng.choice(STATUSES)
                body = b"" if code == 204 else rng.choice([b"", b"Error: something", b"\xc3\xa9 text", b"x" * 5000])
                w.faults.append(status(rng, code, body, False))
            elif kind == "cut":
                applied = rng.random() < 0.6
                w.faults.append(cut(rng, applied, rng.choice(["before", "head", "body"])))
            else:
                if op not in NONSENSE:
                    continue
                applied = True
                w.faults.append(nonsense(rng, rng.choice(NONSENSE[op])))
            mon.note("fault", op, kind)
            o = w.run(start(), op + " with a fault")
            requests = len(w.log) - n
            after = w.state()
            want = dict(before)
            if apply is not None:
                apply(want)
            created = set(after) - set(before)
            mon.event("fault-" + kind)
            mon.sig(op, kind, o.ok, requests)
            if kind in ("unavailable", "refused"):
                if op == "download" and not o.ok:
                    # Not every version tries again to read.
                    verify.unchanged()
                    w.faults, w.connect_faults = [], []
                    continue
                mon.check(o.ok, "%s fails although the server was only unavailable for a time" % (op,), o.failure and o.failure.value)
                mon.equal(requests, tries + 1, "the number of attempts of a %s" % (op,))
                verify(o.value)
                mon.event("retried")
            else:
                # A loss in the middle of the answer may be after all that matters.
                e = None
                if kind == "cut" and o.ok:
                    mon.violate("%s succeeds although its answer was lost" % (op,), o.value)
                e = failed_cleanly(w, o, "%s which failed (%s)" % (op, kind))
                mon.equal(requests, 1, "the number of attempts of a %s which failed for good (%s)" % (op, kind))
                if kind == "status":
                    mon.check(isinstance(e, TahoeAPIError), "the error of a refused request", e)
                    mon.equal((e.status, e.body), (code, body.decode("utf-8")), "the details of the error")
                if op == "download":
                    verify.unchanged()
            if op in ("upload", "mkdir"):
                mon.check(len(created) == (1 if (o.ok or applied) else 0), "the number of objects created by a %s" % (op,), len(created), kind)
                for c in created:
                    want[c] = after[c]
            if o.ok or applied:
                mon.equal(after, want, "what is stored after %s with a fault" % (op,))
            else:
                mon.equal(after, before, "what is stored after a failed %s" % (op,))
            mon.equal((w.faults, w.connect_faults), ([], []), "faults which no request met")
    finally:
        w.close()


def partial(rng, mon):
    """The connection is lost while the request is still being sent."""
    w = World(rng, mon)
    try:
        dirs, files = populated(w, rng)
        before = w.state()
        data = content(rng) + b"x" * 100000
        left = [rng.choice([0, 1, 3])]

        def on_partial(conn, method, target, have, want):
            if left[0] == 0:
                conn._lost(ConnectionLost())
                mon.event("cut-request")
            left[0] -= 1

        w.net.on_partial = on_partial
        o = w.run(w.client.upload(Provider(data)), "an upload cut short")
        if o.ok:
            verify = w.model.objects[danger_real_capability_string(o.value)]
            mon.check(verify.content == data, "the uploaded bytes are not the given ones")
        else:
            failed_cleanly(w, o, "an upload cut short")
            mon.equal(w.state(), before, "what is stored after an upload cut short")
        mon.sig("partial", o.ok, left[0])
    finally:
        w.close()


def together(rng, mon):
    """Several operations at once, answered in any order."""
    w = World(rng, mon)
    try:
        dirs, files = populated(w, rng)
        for _ in range(rng.randrange(1, 4)):
            before = w.state()
            w.hold = True
            running = []
            used = set()
            for _ in range(rng.randrange(2, 6)):
                op = rng.choice(["upload", "link", "download", "mkdir", "list"])
                start, apply, verify, info = one(w, rng, list(dirs), list(files), op)
                running.append([op, w.do(start()), verify])
            w.idle()
            mon.equal(len(w.pending), len(running), "the number of requests of concurrent operations")
            order = list(w.pending)
            w.pending = []
            rng.shuffle(order)
            listed = [r for r in order if r.query.get("t") == "json"]
            linked = [r for r in order if r.method == "PUT" and r.query.get("t") == "uri"]
            # Listings first: they are compared with what is there now.
            for r in listed:
                w.answer(r)
            w.idle()
            for op, o, verify in running:
                if op == "list":
                    mon.check(o.ok, "a concurrent list fails", o.failure)
                    verify(o.value)
            for r in order:
                if r not in listed:
                    w.answer(r)
                    if rng.random() < 0.5:
                        w.idle()
            w.idle()
            w.hold = False
            for op, o, verify in running:
                mon.check(o.done, "a concurrent %s never ends" % (op,))
                mon.check(o.ok, "a concurrent %s fails" % (op,), o.failure)
                if op in ("upload", "download", "mkdir"):
                    verify(o.value)
            uploads = [danger_real_capability_string(o.value) for op, o, _ in running if op in ("upload", "mkdir")]
            mon.equal(len(set(uploads)), len(uploads), "the number of distinct objects made by concurrent operations")
            want = dict(before)
            for r in linked:
                pass
            mon.event("concurrent", len(running))
            mon.sig("together", sorted(op for op, _, _ in running))
    finally:
        w.close()


SCENARIOS = [
    Scenario("well", well, quick=160, thorough=2500, needs=["op-upload", "op-mkdir", "op-link", "op-unlink", "op-list", "op-download", "unlink-missing", "child", "child-missing"] + ["wrong-" + k for k in ("link-ro", "unlink-ro", "unlink-file", "list-file", "gone")]),
    Scenario("faulty", faulty, quick=240, thorough=4000, needs=["fault-unavailable", "fault-refused", "fault-status", "fault-cut", "fault-nonsense", "fault-timeout", "retried"]),
    Scenario("partial", partial, quick=20, thorough=200, needs=["cut-request"]),
    Scenario("together", together, quick=60, thorough=800, needs=["concurrent"]),
]
