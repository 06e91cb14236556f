"""
An independent model of the parts of the Tahoe-LAFS web interface which the
client uses, behind in-memory connections.

It parses the requests itself, from the raw bytes.
"""

import hashlib
import json
from base64 import b32encode
from urllib.parse import unquote_to_bytes

from tahoe_capabilities import danger_real_capability_string, writeable_directory_from_string, writeable_from_string
from twisted.internet.address import IPv4Address
from twisted.internet.error import ConnectionDone, ConnectionLost, ConnectionRefusedError, TimeoutError
from twisted.internet.interfaces import IReactorPluggableNameResolver, IReactorTCP, IReactorTime, ITransport, IConsumer, IPushProducer, ITCPTransport
from twisted.internet.task import Clock
from twisted.python.failure import Failure
from zope.interface import implementer


def _b32(data, n):
    return b32encode(data).decode("ascii").lower().rstrip("=")[:n]


class Caps:
    """Fresh capability strings."""

    def __init__(self, rng):
        self.rng = rng

    def key(self, n):
        return _b32(bytes(self.rng.randrange(256) for _ in range(n)), 1000)

    def chk(self, size, needed=3, total=10):
        return "URI:CHK:%s:%s:%d:%d:%d" % (self.key(16), self.key(32), needed, total, size)

    def lit(self, content):
        return "URI:LIT:%s" % (_b32(content, 1000),)

    def pair(self, prefix):
        """(writeable, read-only) of one mutable object; "" prefix for a file"""
        rw = "URI:%s:%s:%s" % (prefix, self.key(16), self.key(32))
        parse = writeable_directory_from_string if prefix.startswith("DIR2") else writeable_from_string
        ro = danger_real_capability_string(parse(rw).reader)
        return rw, ro


class File:
    def __init__(self, content, ro, rw=None, size=None):
        self.content, self.ro, self.rw = content, ro, rw
        self.size = len(content) if size is None else size


class Dir:
    def __init__(self, rw, ro):
        self.rw, self.ro = rw, ro
        self.children = {}  # name -> capability as linked


class Model:
    def __init__(self, rng):
        self.caps = Caps(rng)
        self.rng = rng
        self.objects = {}

    def add_file(self, content, kind="chk"):
        if kind == "chk":
            f = File(content, self.caps.chk(len(content)))
        elif kind == "lit":
            f = File(content, self.caps.lit(content))
        else:
            rw, ro = self.caps.pair({"ssk": "SSK", "mdmf": "MDMF"}[kind])
            f = File(content, ro, rw)
            if self.rng.random() < 0.3:
                f.size = None
            self.objects[rw] = f
        self.objects[f.ro] = f
        return f

    def add_dir(self, prefix="DIR2"):
        rw, ro = self.caps.pair(prefix)
        d = Dir(rw, ro)
        self.objects[rw] = self.objects[ro] = d
        return d

    def state(self):
        """Everything there is, for comparison."""
        out = {}
        for o in set(self.objects.values()):
            if isinstance(o, Dir):
                out[o.ro] = ("dir", tuple(sorted(o.children.items())))
            else:
                out[o.ro] = ("file", hashlib.sha256(o.content).hexdigest())
        return out

    # The web interface

    def handle(self, method, path, query, body):
        """(code, content type, body)"""
        segments = path.split(b"/")
        if segments[0] != b"" or len(segments) < 2 or segments[1] != b"uri":
            return 404, "text/plain", b"No such resource"
        names = []
        for s in segments[2:]:
            try:
                names.append(unquote_to_bytes(s).decode("utf-8"))
            except UnicodeDecodeError:
                return 400, "text/plain", b"bad name"
        t = query.get("t", "")
        if names == [] or (names == [""] and method == "POST"):
            if method == "PUT" and t == "":
                kind = "lit" if len(body) < 56 and self.rng.random() < 0.5 and self.caps.lit(body) not in self.objects else "chk"
                f = self.add_file(body, kind)
                return self.rng.choice([200, 201]), "text/plain", f.ro.encode("ascii")
            if method == "POST" and t == "mkdir":
                d = self.add_dir()
                return 200, "text/plain", d.rw.encode("ascii")
            return 400, "text/plain", b"GET /uri requires uri="
        target = self.objects.get(names[0])
        if target is None:
            return 410, "text/plain", b"NoSharesError: no shares could be found."
        rest = names[1:]
        if method == "GET":
            if rest == [] and isinstance(target, File):
                return 200, "application/octet-stream", target.content
            if isinstance(target, Dir) and rest in ([], [""]):
                if t == "json":
                    return 200, "application/json", self.listing(target, names[0])
                return 200, "text/html", b"<html>directory</html>"
            return 400, "text/html", b"Files have no children named"
        if len(rest) != 1:
            return 400, "text/plain", b"unexpected depth"
        if isinstance(target, File):
            return 400, "text/html", b"<html><h1>Files have no children named %s</h1></html>" % (rest[0].encode("utf-8"),)
        if names[0] != target.rw:
            return 500, "text/plain", b"Traceback (most recent call last):\nallmydata.mutable.common.NotWriteableError: \n"
        if method == "PUT" and t == "uri":
            cap = body.decode("ascii")
            target.children[rest[0]] = cap
            return 200, "text/plain", body
        if method == "DELETE" and t == "":
            if rest[0] not in target.children:
                return 404, "text/plain", ("No such child: %s" % (rest[0],)).encode("utf-8")
            del target.children[rest[0]]
            return 200, "text/plain", b""
        return 400, "text/plain", b"bad request"

    def listing(self, d, used):
        children = {}
        for name, cap in d.children.items():
            o = self.objects[cap]
            info = {"ro_uri": o.ro, "verify_uri": "URI:verify", "metadata": {"tahoe": {"linkcrtime": 1.5}}, "mutable": o.rw is not None}
            if o.rw is not None and cap == o.rw and used == d.rw:
                info["rw_uri"] = o.rw
            if isinstance(o, Dir):
                children[name] = ["dirnode", info]
            else:
                info["size"] = o.size
                if o.rw is not None:
                    info["format"] = "SDMF"
                children[name] = ["filenode", info]
        top = {"ro_uri": d.ro, "children": children, "mutable": True}
        if used == d.rw:
            top["rw_uri"] = d.rw
        return json.dumps(["dirnode", top]).encode("utf-8")


REASONS = {200: b"OK", 201: b"Created"}


class Request:
    """One request as received, and the way to answer it."""

    def __init__(self, conn, method, target, headers, body):
        self.conn, self.method, self.target, self.headers, self.body = conn, method, target, headers, body
        path, _, query = target.partition(b"?")
        self.path = path
        self.query = {}
        for part in query.split(b"&") if query else []:
            k, _, v = part.partition(b"=")
            self.query[unquote_to_bytes(k).decode("utf-8")] = unquote_to_bytes(v).decode("utf-8")

    def __repr__(self):
        return "%s %s [%d]" % (self.method, self.target.decode("ascii", "replace"), len(self.body))


@implementer(ITransport, IConsumer, IPushProducer, ITCPTransport)
class Connection:
    """The client's end of a connection; the server is on the other side of ``net``."""

    disconnecting = False

    def __init__(self, net, host, port):
        self.net, self.host, self.port = net, host, port
        self.client = None
        self.inbox = b""
        self.closed = False
        self.producer = None
        self.streaming = False
        self.answered = False
        self.expected = None

    # transport

    def write(self, data):
        if self.closed:
            return
        assert isinstance(data, bytes)
        self.inbox += data
        self.net.callLater(0, self._parse)

    def writeSequence(self, seq):
        self.write(b"".join(seq))

    def loseConnection(self):
        self._lost(ConnectionDone())

    def abortConnection(self):
        self._lost(ConnectionLost())

    def _lost(self, why):
        if self.closed:
            return
        self.closed = True
        self.net.callLater(0, self.client.connectionLost, Failure(why))

    def getPeer(self):
        return IPv4Address("TCP", self.host, self.port)

    def getHost(self):
        return IPv4Address("TCP", "127.0.0.1", 40000)

    def registerProducer(self, producer, streaming):
        self.producer, self.streaming = producer, streaming
        if not streaming:
            producer.resumeProducing()

    def unregisterProducer(self):
        self.producer = None

    def pauseProducing(self):
        pass

    resumeProducing = pauseProducing

    def stopProducing(self):
        self.loseConnection()

    def setTcpNoDelay(self, on):
        pass

    setTcpKeepAlive = setTcpNoDelay

    def getTcpNoDelay(self):
        return True

    getTcpKeepAlive = getTcpNoDelay

    def loseWriteConnection(self):
        pass

    # the server's side

    def _parse(self):
        if self.answered or self.closed:
            return
        head, sep, body = self.inbox.partition(b"\r\n\r\n")
        if not sep:
            return
        lines = head.split(b"\r\n")
        method, target, _ = lines[0].split(b" ")
        headers = {}
        for l in lines[1:]:
            k, _, v = l.partition(b":")
            headers[k.strip().lower()] = v.strip()
        if headers.get(b"transfer-encoding") == b"chunked":
            out, rest = b"", body
            while True:
                n, sep, rest = rest.partition(b"\r\n")
                if not sep:
                    return
                n = int(n, 16)
                if len(rest) < n + 2:
                    return
                if n == 0:
                    break
                out, rest = out + rest[:n], rest[n + 2 :]
            body = out
        else:
            n = int(headers.get(b"content-length", b"0"))
            if len(body) < n:
                if self.net.on_partial is not None:
                    self.net.on_partial(self, method, target, len(body), n)
                return
            self.net.extra += len(body) - n
            body = body[:n]
        self.answered = True
        self.net.received(Request(self, method.decode("ascii"), target, headers, body))

    def reply(self, raw, close=ConnectionDone, sizes=None):
        """Deliver these bytes in pieces, then close."""
        rng = self.net.rng
        at = 0
        while at < len(raw):
            n = rng.choice([1, 7, 100, 1000, 100000]) if len(raw) < 4000 else rng.choice([1000, 4096, 100000])
            self.net.callLater(0, self._deliver, raw[at : at + n])
            at += n
        if close is not None:
            self.net.callLater(0, self._lost, close())

    def _deliver(self, data):
        if not self.closed:
            self.client.dataReceived(data)


def response(rng, code, kind, body, reason=None):
    reason = reason or REASONS.get(code, b"Error")
    head = b"HTTP/1.1 %d %s\r\nServer: model\r\n" % (code, reason)
    if kind:
        head += b"Content-Type: %s\r\n" % (kind.encode("ascii"),)
    if rng.random() < 0.25:
        out, at = b"", 0
        while at < len(body):
            n = rng.choice([1, 10, 1000, 10000])
            piece = body[at : at + n]
            out += b"%x\r\n%s\r\n" % (len(piece), piece)
            at += n
        return head + b"Transfer-Encoding: chunked\r\n\r\n" + out + b"0\r\n\r\n"
    return head + b"Content-Length: %d\r\n\r\n" % (len(body),) + body


@implementer(IReactorTCP, IReactorTime, IReactorPluggableNameResolver)
class Net(Clock):
    """A reactor whose connections lead to ``received``."""

    def __init__(self, rng):
        Clock.__init__(self)
        self.rng = rng
        self.received = None
        self.connecting = lambda host, port: None  # or a reason to refuse
        self.on_partial = None
        self.extra = 0
        self.attempts = 0
        self.connections = []

    @property
    def nameResolver(self):
        return self

    def resolveHostName(self, receiver, hostName, portNumber=0, addressTypes=None, transportSemantics="TCP"):
        receiver.resolutionBegan(self)
        receiver.addressResolved(IPv4Address("TCP", "127.0.0.1", portNumber))
        receiver.resolutionComplete()
        return self

    def installNameResolver(self, resolver):
        raise NotImplementedError()

    def cancel(self):
        pass

    def callWhenRunning(self, f, *a, **kw):
        f(*a, **kw)

    def addSystemEventTrigger(self, *a, **kw):
        pass

    def listenTCP(self, *a, **kw):
        raise NotImplementedError()

    def connectTCP(self, host, port, factory, timeout=30, bindAddress=None):
        self.attempts += 1
        conn = Connection(self, host, port)
        factory.doStart()
        factory.startedConnecting(conn)

        def connect():
            why = self.connecting(host, port)
            if why is not None:
                conn.closed = True
                factory.clientConnectionFailed(conn, Failure(why))
                return
            conn.client = factory.buildProtocol(conn.getPeer())
            self.connections.append(conn)
            conn.client.makeConnection(conn)

        self.callLater(0, connect)
        return conn

    def disconnect(self):
        pass

    def spin(self, until, limit=20000):
        """Run what is due until ``until()``; the number of steps it took."""
        n = 0
        while not until() and n < limit:
            if not self.calls:
                break
            self.advance(max(0, self.calls[0].getTime() - self.seconds()))
            n += 1
        return n


REFUSED = ConnectionRefusedError
TIMEOUT = TimeoutError
