"""
Whole client nodes - plugin, database, HTTP and websocket interfaces,
replication - on a model grid whose operations can be delayed, fail before or
after taking effect, and outlive the process that started them.
"""

import json
import os
import sqlite3
import struct
from base64 import b64encode

from allmydata.util.base32 import b2a
from hashlib import sha256
from tahoe_capabilities import danger_real_capability_string, readable_from_string, writeable_directory_from_string
from twisted.internet.defer import Deferred
from twisted.internet.testing import MemoryReactorClock
from twisted.python.filepath import FilePath
from zope.interface import implementer

from _zkapauthorizer import NAME
from _zkapauthorizer._plugin import ZKAPAuthorizer
from _zkapauthorizer.tahoe import DirectoryNode, FileNode, ITahoeClient, ShareEncoding, TahoeConfig

from . import cli, redeem, web
from .core import Violated, scratch_dir


class GridError(Exception):
    pass


class Grid:
    """The objects stored on the grid."""

    def __init__(self):
        self.n = 0
        self.files = {}  # read capability string -> bytes
        self.dirs = {}  # write capability string -> {name: capability string}
        self.ro = {}  # read-only capability string -> write capability string
        self.log = []  # what took effect, in order

    def put_file(self, data):
        self.n += 1
        k = sha256(b"file%d" % self.n).digest()
        cap = "URI:CHK:%s:%s:3:10:%d" % (b2a(k[:16]).decode(), b2a(sha256(k).digest()).decode(), len(data))
        self.files[cap] = bytes(data)
        return cap

    def make_dir(self):
        self.n += 1
        k = sha256(b"dir%d" % self.n).digest()
        cap = "URI:DIR2:%s:%s" % (b2a(k[:16]).decode(), b2a(sha256(k).digest()).decode())
        obj = writeable_directory_from_string(cap)
        cap = danger_real_capability_string(obj)
        self.dirs[cap] = {}
        self.ro[danger_real_capability_string(obj.reader)] = cap
        return cap

    def entries(self, cap):
        return self.dirs[self.ro.get(cap, cap)]


class Op:
    """One operation of one process on the grid."""

    def __init__(self, tahoe, name, args, apply):
        self.tahoe, self.name, self.args, self.apply = tahoe, name, args, apply
        self.d = Deferred()
        self.over = False

    def finish(self, how="ok"):
        """
        ok: takes effect and is answered; fail: no effect, an error;
        lost: takes effect but an error is answered; silent: takes effect,
        nothing is ever answered; gone: nothing at all.
        """
        self.over = True
        if self in self.tahoe.pending:
            self.tahoe.pending.remove(self)
        error = result = None
        if how in ("ok", "lost", "silent"):
            try:
                result = self.apply()
            except Exception as e:
                error = e
        if how in ("fail", "lost"):
            error = self.tahoe.node.grid_error(self)
        self.tahoe.node.finished(self, how, result, error)
        if how in ("silent", "gone") or not self.tahoe.live:
            return
        if error is not None:
            self.d.errback(error)
        else:
            self.d.callback(result)


@implementer(ITahoeClient)
class FakeTahoe:
    def __init__(self, node, grid):
        self.node, self.grid = node, grid
        self.live = True
        self.pending = []

    def get_config(self):
        return TahoeConfig(ShareEncoding(3, 10))

    def get_private_path(self, name):
        return FilePath(os.path.join(self.node.private, name))

    def _op(self, name, args, apply):
        if not self.live:
            return Deferred()
        op = Op(self, name, args, apply)
        self.node.started(op)
        how = self.node.policy(op)
        if how is None:
            self.pending.append(op)
        else:
            op.finish(how)
        return op.d

    async def download(self, outpath, cap):
        cap = danger_real_capability_string(cap)

        def apply():
            data = self.grid.files[cap]
            outpath.setContent(data)
            self.grid.log.append(("download", cap))

        return await self._op("download", (cap,), apply)

    async def upload(self, data_provider):
        # The data is read when the request is sent.
        with data_provider() as f:
            data = f.read()

        def apply():
            cap = self.grid.put_file(data)
            self.grid.log.append(("upload", cap))
            return readable_from_string(cap)

        return await self._op("upload", (data,), apply)

    async def make_directory(self):
        def apply():
            cap = self.grid.make_dir()
            self.grid.log.append(("mkdir", cap))
            return writeable_directory_from_string(cap)

        return await self._op("mkdir", (), apply)

    async def link(self, dir_cap, entry_name, entry_cap):
        d, e = danger_real_capability_string(dir_cap), danger_real_capability_string(entry_cap)

        def apply():
            self.grid.dirs[d][entry_name] = e
            self.grid.log.append(("link", d, entry_name, e))

        return await self._op("link", (d, entry_name, e), apply)

    async def unlink(self, dir_cap, entry_name):
        d = danger_real_capability_string(dir_cap)

        def apply():
            if entry_name not in self.grid.dirs[d]:
                raise GridError("404 not found")
            del self.grid.dirs[d][entry_name]
            self.grid.log.append(("unlink", d, entry_name))

        return await self._op("unlink", (d, entry_name), apply)

    async def list_directory(self, dir_cap):
        d = danger_real_capability_string(dir_cap)

        def apply():
            r = {}
            if self.grid.ro.get(d, d) not in self.grid.dirs:
                raise GridError("410 gone")
            for name, cap in self.grid.entries(d).items():
                if cap in self.grid.files:
                    r[name] = FileNode(len(self.grid.files[cap]), readable_from_string(cap))
                else:
                    r[name] = DirectoryNode(writeable_directory_from_string(cap).reader)
            self.grid.log.append(("list", d))
            return r

        return await self._op("list", (d,), apply)


class Node:
    """A client node directory and the process that is running on it."""

    OPTIONS = {"redeemer": "non", "ristretto-issuer-root-url": "https://issuer.invalid/", "allowed-public-keys": "allowed-key", "default-token-count": "32"}

    def __init__(self, grid, options=(), basedir=None, boot=True, wire=None):
        self.grid = grid
        self.wire = wire  # random numbers: use the real Tahoe client
        self.basedir = basedir or scratch_dir()
        self.private = os.path.join(self.basedir, "private")
        os.makedirs(self.private, exist_ok=True)
        self.path = os.path.join(self.private, "privatestorageio-zkapauthz-v1.sqlite3")
        self.options = dict(self.OPTIONS, **dict(options))
        self.db = cli.Reader(self.path)
        self.hold = False  # let grid operations wait?
        self.kept = []
        self.tahoe = None
        self.boots = 0
        self.token = "token-for-tests"
        self.errors = [GridError("500 internal server error")]
        self.on_started = None
        if boot:
            self.boot()

    # -- the grid side --

    def policy(self, op):
        return None if self.hold else "ok"

    def started(self, op):
        if self.on_started is not None:
            self.on_started(op)

    def finished(self, op, how, result, error):
        """An operation took effect, or not, but its caller does not know yet."""

    def grid_error(self, op):
        return self.errors[0]

    @property
    def pending(self):
        return self.tahoe.pending if self.tahoe is not None and self.tahoe.live else []

    def settle(self, limit=400):
        """Let everything outstanding on the grid complete."""
        n = 0
        while self.pending:
            n += 1
            if n > limit:
                raise Violated("replication or recovery never comes to rest (%d grid operations)" % n)
            self.pending[0].finish()

    # -- the process --

    def connect(self, path, isolation_level=None):
        self.raw = sqlite3.connect(path, isolation_level=isolation_level, factory=redeem.FaultyConnection)
        self.raw.execute("PRAGMA synchronous = OFF")
        return self.raw

    def make_tahoe(self, reactor, config):
        if self.wire is not None:
            self.tahoe.configured(config)
        return self.tahoe

    def boot(self):
        self.boots += 1
        if self.wire is None:
            self.tahoe = FakeTahoe(self, self.grid)
        else:
            from .wire import WireTahoe

            self.tahoe = WireTahoe(self, self.grid, self.wire)
        self.reactor = MemoryReactorClock()
        self.config = web.node_config(self.basedir, {}, self.options, token=self.token)
        self.plugin = ZKAPAuthorizer(name=NAME, reactor=self.reactor, get_tahoe_client=self.make_tahoe, connect=self.connect)
        self.root = self.plugin.get_client_resource(self.config)
        self.store = self.root.store
        self.server = web.Server(self.root, self.reactor)
        self.reactor.running = True
        for f, a, k in list(self.reactor.whenRunningHooks):
            f(*a, **k)
        self.reactor.callWhenRunning = lambda f, *a, **k: f(*a, **k)

    def crash(self):
        """The process ends without doing anything more."""
        if self.tahoe is None:
            return []
        self.tahoe.live = False
        left, self.tahoe.pending = self.tahoe.pending, []
        self.kept.append((self.plugin, self.root, self.store))
        self.raw.vz_plan = self.raw.vz_on_statement = None
        self.raw.close()
        self.tahoe = None
        return left

    def restart(self):
        left = self.crash()
        self.boot()
        return left

    # -- HTTP --

    def call(self, method, path, body=b"", headers=()):
        return self.server.request(method, web.PREFIX + path, headers=headers, body=body, token=self.token.encode())

    def start_call(self, method, path, body=b"", headers=()):
        return self.server.start(method, web.PREFIX + path, headers=headers, body=body, token=self.token.encode())

    def replicate(self):
        return web.Response(self.start_call(b"POST", b"/replicate")[1].value())


class Websocket:
    """A websocket client of a node's recovery endpoint."""

    def __init__(self, node):
        self.node = node
        self.messages = []
        self.closed = None  # (code, reason)
        self.seen = 0
        self.handshake = None
        self.p, self.t = node.server.start(
            b"GET", web.PREFIX + b"/recover",
            [(b"Upgrade", b"websocket"), (b"Connection", b"Upgrade"), (b"Sec-WebSocket-Key", b64encode(b"k" * 16)), (b"Sec-WebSocket-Version", b"13")],
            token=node.token.encode(), keep=True,
        )
        self.read()
        if self.handshake is None or b" 101 " not in self.handshake.split(b"\r\n")[0]:
            raise Violated("the recovery endpoint does not speak websocket: %r" % (self.t.value()[:200],))

    def _frame(self, opcode, payload):
        head = bytes([0x80 | opcode])
        if len(payload) < 126:
            head += bytes([0x80 | len(payload)])
        else:
            head += bytes([0x80 | 126]) + struct.pack(">H", len(payload))
        return head + b"\0\0\0\0" + payload

    def send(self, payload, binary=False):
        self.t.protocol.dataReceived(self._frame(2 if binary else 1, payload))
        self.read()

    def recover(self, cap):
        self.send(json.dumps({"recovery-capability": cap}).encode())
        return self

    def disconnect(self):
        self.t.loseConnection()

    def read(self):
        raw = self.t.value()[self.seen :]
        if self.handshake is None:
            head, sep, rest = raw.partition(b"\r\n\r\n")
            if not sep:
                return
            self.handshake = head
            self.seen += len(head) + 4
            raw = rest
        while len(raw) >= 2:
            n, off = raw[1] & 0x7F, 2
            if n == 126:
                n, off = struct.unpack(">H", raw[2:4])[0], 4
            elif n == 127:
                n, off = struct.unpack(">Q", raw[2:10])[0], 10
            op, payload = raw[0] & 0x0F, raw[off : off + n]
            if len(payload) < n:
                return
            raw = raw[off + n :]
            self.seen += off + n
            if op in (1, 2):
                self.messages.append(json.loads(payload))
            elif op == 8:
                code = struct.unpack(">H", payload[:2])[0] if len(payload) >= 2 else None
                if self.closed is None:
                    self.closed = (code, payload[2:].decode("utf-8", "replace"))
                    if not self.t.closed:
                        self.t.protocol.dataReceived(self._frame(8, payload[:2]))
                        return self.read()

    @property
    def stages(self):
        self.read()
        return [m["stage"] for m in self.messages]


FINAL = ("succeeded", "download_failed", "import_failed")

TABLES = [
    ("vouchers", "SELECT * FROM [vouchers]"),
    ("tokens", "SELECT * FROM [tokens]"),
    ("unblinded-tokens", "SELECT T.[token], G.[voucher], G.[public-key], G.[spendable] FROM [unblinded-tokens] AS T LEFT JOIN [redemption-groups] AS G ON T.[redemption-group] = G.[rowid]"),
    ("invalid-unblinded-tokens", "SELECT * FROM [invalid-unblinded-tokens]"),
    ("redemption-groups", "SELECT [voucher], [public-key], [spendable] FROM [redemption-groups]"),
    ("lease-maintenance-spending", "SELECT * FROM [lease-maintenance-spending]"),
    ("version", "SELECT * FROM [version]"),
]


def logical(db):
    """The client's data, as read by another program."""
    conn = sqlite3.connect("file:%s?mode=ro" % (db.path,), uri=True)
    try:
        conn.execute("BEGIN")
        return {name: sorted(conn.execute(sql).fetchall(), key=repr) for name, sql in TABLES}
    finally:
        conn.close()


def differences(a, b):
    out = []
    for k in a:
        x, y = set(a[k]), set(b[k])
        if a[k] != b[k]:
            out.append((k, "only in first: %d" % len(x - y), sorted(x - y, key=repr)[:2], "only in second: %d" % len(y - x), sorted(y - x, key=repr)[:2]))
    return out
