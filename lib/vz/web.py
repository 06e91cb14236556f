"""
The client's HTTP interface: raw requests through Twisted's real HTTP server
over an in-memory transport.
"""

import json
import os

from allmydata.client import config_from_string
from twisted.internet.address import IPv4Address
from twisted.internet.defer import Deferred
from twisted.internet.task import Clock
from twisted.internet.testing import StringTransport
from twisted.python.failure import Failure
from twisted.internet.error import ConnectionDone
from twisted.web.resource import Resource
from twisted.web.server import Site

from _zkapauthorizer import NAME
from _zkapauthorizer.model import VoucherStore
from _zkapauthorizer.replicate import with_replication
from _zkapauthorizer.resource import from_configuration

from . import cli
from .core import Violated, scratch_dir

PREFIX = b"/storage-plugins/" + NAME.encode("ascii")
SECTION = "storageclient.plugins." + NAME


def node_config(basedir, client=(), plugin=(), extra="", token="token-for-tests"):
    """A Tahoe-LAFS client node configuration with the given options."""
    os.makedirs(os.path.join(basedir, "private"), exist_ok=True)
    if token is not None:
        with open(os.path.join(basedir, "private", "api_auth_token"), "wb") as f:
            f.write(token.encode("utf-8"))
    text = "[client]\n" + "".join("%s = %s\n" % kv for kv in dict(client).items())
    text += "[%s]\n" % (SECTION,) + "".join("%s = %s\n" % kv for kv in dict(plugin).items())
    return config_from_string(basedir, "tub.port", text + extra)


class Response:
    def __init__(self, raw):
        self.raw = raw
        head, _, body = raw.partition(b"\r\n\r\n")
        lines = head.split(b"\r\n")
        self.code = int(lines[0].split(b" ")[1])
        self.status = lines[0]
        self.headers = {}
        for l in lines[1:]:
            k, _, v = l.partition(b":")
            self.headers.setdefault(k.strip().lower(), []).append(v.strip())
        if self.headers.get(b"transfer-encoding") == [b"chunked"]:
            out = b""
            rest = body
            while rest:
                n, _, rest = rest.partition(b"\r\n")
                n = int(n, 16)
                if n == 0:
                    break
                out, rest = out + rest[:n], rest[n + 2 :]
            body = out
        self.body = body

    def json(self):
        return json.loads(self.body)

    @property
    def type(self):
        return (self.headers.get(b"content-type") or [b""])[0]


class Transport(StringTransport):
    def __init__(self):
        StringTransport.__init__(self, peerAddress=IPv4Address("TCP", "127.0.0.1", 4321))
        self.closed = False
        self.protocol = None

    def loseConnection(self):
        if not self.closed:
            self.closed = True
            self.protocol.connectionLost(Failure(ConnectionDone()))

    def loseWriteConnection(self):
        self.loseConnection()

    def setTcpNoDelay(self, flag):
        pass

    setTcpKeepAlive = setTcpNoDelay

    def abortConnection(self):
        self.loseConnection()


class Server:
    """A web server whose resource tree holds the plugin where Tahoe-LAFS puts it."""

    def __init__(self, plugin_root, clock):
        root = Resource()
        plugins = Resource()
        root.putChild(b"storage-plugins", plugins)
        plugins.putChild(NAME.encode("ascii"), plugin_root)
        self.site = Site(root, reactor=clock)
        self.site.startFactory()

    def open(self):
        p = self.site.buildProtocol(IPv4Address("TCP", "127.0.0.1", 4321))
        t = Transport()
        t.protocol = p
        p.makeConnection(t)
        return p, t

    def send(self, raw):
        p, t = self.open()
        p.dataReceived(raw)
        return p, t

    def start(self, method, uri, headers=(), body=b"", token=None, keep=False):
        """Send a request; the transport collects whatever comes back."""
        lines = [method + b" " + uri + b" HTTP/1.1", b"Host: localhost"]
        if not keep:
            lines.append(b"Connection: close")
        if token is not None:
            lines.append(b"Authorization: tahoe-lafs " + token)
        lines += [k + b": " + v for k, v in headers]
        if body or method in (b"POST", b"PUT"):
            lines.append(b"Content-Length: %d" % len(body))
        return self.send(b"\r\n".join(lines) + b"\r\n\r\n" + body)

    def request(self, *args, **kwargs):
        p, t = self.start(*args, **kwargs)
        raw = t.value()
        if not raw or not t.closed:
            raise Violated("an HTTP request is never answered: %r" % (args[:2],))
        return Response(raw)


class ClientNode:
    """One client process of one node directory, with its HTTP interface."""

    def __init__(self, basedir, redeemer, clock, now, plugin=(), client=(), token="token-for-tests", raw=None, get_downloader=None, setup_replication=None):
        self.basedir = basedir
        self.token = token
        self.clock = clock
        self.config = node_config(basedir, client, dict({"ristretto-issuer-root-url": "https://issuer.invalid/", "allowed-public-keys": "A" * 43 + "="}, **dict(plugin)), token=token)
        self.path = os.path.join(basedir, "private", "db.sqlite3")
        self.raw = raw if raw is not None else cli.connect(self.path)
        self.rep = with_replication(self.raw, False)
        self.calls = []

        def no_downloader(cap):
            self.calls.append("downloader")
            raise Exception("no downloader")

        async def no_setup():
            self.calls.append("setup")
            raise Exception("no setup")

        self.store = VoucherStore.from_connection(1, now, self.rep)
        self.root = from_configuration(
            self.config, self.store, get_downloader or no_downloader, setup_replication or no_setup, redeemer, clock
        )
        self.server = Server(self.root, clock)
        self.db = cli.Reader(self.path)

    def call(self, method, path, body=b"", headers=(), token=True):
        return self.server.request(
            method, PREFIX + path, headers=headers, body=body, token=self.token.encode("utf-8") if token is True else token
        )

    def post_json(self, method, path, value, type_=b"application/json"):
        return self.call(method, path, json.dumps(value).encode("utf-8"), [(b"Content-Type", type_)])

    def close(self):
        self.raw.close()


class NeverRedeemer:
    """Answers nothing; records what it is asked."""

    def __init__(self, rng):
        self.rng = rng
        self.asked = []
        self.waiting = []

    def random_tokens_for_voucher(self, voucher, counter, count):
        return [cli.fake_random_token(self.rng) for _ in range(count)]

    def redeemWithCounter(self, voucher, counter, random_tokens):
        self.asked.append((voucher.number, counter, random_tokens))
        d = Deferred()
        self.waiting.append((voucher.number, counter, random_tokens, d))
        return d

    def tokens_to_passes(self, message, tokens):
        raise NotImplementedError()
