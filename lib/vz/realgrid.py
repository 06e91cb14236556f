"""
Real Tahoe-LAFS processes on the loopback network, with the plugin: storage
servers, a client, and an issuer with real keys.  If such a thing cannot be
had here and now (``Unavailable``) nothing is judged.
"""

import http.client
import json
import os
import signal
import socket
import sqlite3
import struct
import subprocess
import sys
import threading
import time
from base64 import b64encode
from contextlib import contextmanager
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from urllib.parse import quote

from allmydata.storage.immutable import ShareFile
from allmydata.storage.mutable import MutableShareFile

from _zkapauthorizer import NAME

from . import cli, issuer, ppass
from .core import scratch_dir

PATIENCE = 75
MONTH = 31 * 24 * 3600


class Unavailable(Exception):
    """The machine does not let this be tried in time."""


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    port = s.getsockname()[1]
    s.close()
    return port


deadline = 0


def patience():
    left = deadline - time.time()
    if left <= 0:
        raise Unavailable("the time is up")
    return min(PATIENCE, left)


def wait_for(what, predicate):
    end = time.time() + patience()
    while time.time() < end:
        r = predicate()
        if r:
            return r
        time.sleep(0.2)
    raise Unavailable(what)


class Issuer:
    """Grants each part of a voucher, and again if it is asked with the same tokens."""

    def __init__(self, rng, key):
        self.key, self.rng = key, rng
        self.asked = {}  # (voucher, counter): tokens
        self.again = 0
        self.troubled = False
        self.slow = 0
        self.lock = threading.Lock()
        parent = self

        class Handler(BaseHTTPRequestHandler):
            def do_POST(self):
                body = json.loads(self.rfile.read(int(self.headers["content-length"])))
                code, reply = parent.answer(body)
                data = json.dumps(reply).encode()
                self.send_response(code)
                self.send_header("Content-Type", "application/json")
                self.send_header("Content-Length", str(len(data)))
                self.end_headers()
                self.wfile.write(data)

            def log_message(self, *args):
                pass

        self.server = ThreadingHTTPServer(("127.0.0.1", 0), Handler)
        self.server.daemon_threads = True
        self.url = "http://127.0.0.1:%d/" % self.server.server_address[1]
        threading.Thread(target=self.server.serve_forever, daemon=True).start()

    def answer(self, request):
        tokens = request["redeemTokens"]
        k = (request["redeemVoucher"], request["redeemCounter"])
        time.sleep(self.slow)
        with self.lock:
            self.again += k in self.asked
            if self.asked.setdefault(k, tokens) != tokens:
                return 400, {"success": False, "reason": "double-spend"}
            if self.troubled and self.rng.random() < 0.1:
                return 500, {"success": False, "reason": "internal"}
        return 200, issuer.grant(self.key, tokens)

    def granted(self):
        return sum(len(tokens) for tokens in self.asked.values())

    def stop(self):
        self.server.shutdown()
        self.server.server_close()


class Process:
    """One node directory and, now and then, the process that runs it."""

    def __init__(self, name):
        self.dir = os.path.join(scratch_dir(), name)
        self.private = os.path.join(self.dir, "private")
        os.makedirs(self.private)
        self.p = None
        with open(os.path.join(self.dir, "tahoe-client.tac"), "w") as f:
            f.write("\n# dummy\n")

    def configure(self, text):
        with open(os.path.join(self.dir, "tahoe.cfg"), "w") as f:
            f.write(text)

    def file(self, *path):
        p = os.path.join(self.dir, *path)
        if os.path.exists(p):
            with open(p) as f:
                return f.read().strip()

    def launch(self):
        with open(os.path.join(self.dir, "exit_trigger"), "w"):
            pass
        # It also ends when its standard input does.
        self.out = open(os.path.join(self.dir, "output"), "ab")
        self.p = subprocess.Popen([sys.executable, "-m", "allmydata", "run", self.dir], stdin=subprocess.PIPE, stdout=self.out, stderr=self.out)

    def touch(self):
        os.utime(os.path.join(self.dir, "exit_trigger"))

    def kill(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.out.close()
            self.p = None

    def stop(self):
        """Ask it to stop, and wait until it has."""
        if self.p is None:
            return
        self.p.send_signal(signal.SIGTERM)
        try:
            self.p.wait(patience())
        except subprocess.TimeoutExpired:
            raise Unavailable("a node takes long to stop")
        self.kill()


class Server(Process):
    def __init__(self, grid, n):
        Process.__init__(self, "server%d" % n)
        self.grid = grid
        self.port = free_port()
        self.sharedir = os.path.join(self.dir, "storage", "shares")
        key_path = os.path.join(self.private, "signing.key")
        with open(key_path, "wb") as f:
            f.write(grid.key.encode_base64() + b"\n")
        self.metrics = os.path.join(self.dir, "metrics", "zkap.prom")
        self.configure(
            """[node]
nickname = server%d
web.port =
tub.port = tcp:%d:interface=127.0.0.1
tub.location = tcp:127.0.0.1:%d
[client]
[storage]
enabled = true
plugins = %s
[storageserver.plugins.%s]
ristretto-issuer-root-url = %s
ristretto-signing-key-path = %s
pass-value = %d
prometheus-metrics-path = %s
prometheus-metrics-interval = 1
"""
            % (n, self.port, self.port, NAME, NAME, grid.issuer.url, key_path, grid.pv, self.metrics)
        )

    def announcement(self):
        furl = wait_for("a storage server", lambda: self.file("private", "storage-plugin.%s.furl" % NAME))
        pub = wait_for("a storage server", lambda: self.file("node.pubkey"))
        return pub[len("pub-") :], {
            "ann": {
                "anonymous-storage-FURL": "pb://@tcp:/",
                "nickname": os.path.basename(self.dir),
                "storage-options": [{"name": NAME, "storage-server-FURL": furl, "ristretto-issuer-root-url": self.grid.issuer.url, "ristretto-public-keys": [ppass.public_key_text(self.grid.key)]}],
            }
        }

    def shares(self, skip=None):
        for _ in range(5):
            try:
                return self._shares(skip)
            except Exception as e:
                # It is just being written.
                error = e
                time.sleep(0.3)
        raise Unavailable("shares cannot be read: %r" % (error,))

    def _shares(self, skip):
        """{(storage index, share number): (kind, size, [lease expirations])}"""
        out = {}
        for top, dirs, files in os.walk(self.sharedir):
            if "incoming" in dirs and top == self.sharedir:
                dirs.remove("incoming")
            for name in files:
                if os.path.basename(top) == skip:
                    continue
                path = os.path.join(top, name)
                with open(path, "rb") as f:
                    head = f.read(32)
                if MutableShareFile.is_valid_header(head):
                    sf = MutableShareFile(path)
                    kind, size = "mutable", sf.get_length()
                    leases = list(sf.get_leases())
                else:
                    sf = ShareFile(path)
                    leases = list(sf.get_leases())
                    kind, size = "immutable", os.path.getsize(path) - 12 - 72 * len(leases)
                out[(os.path.basename(top), int(name))] = (kind, size, sorted(l.get_expiration_time() for l in leases))
        return out

    def path(self, share):
        si, num = share
        return os.path.join(self.sharedir, si[:2], si, str(num))

    def age(self, share, expires):
        """Let all leases of a share end then."""
        path = self.path(share)
        with open(path, "rb") as f:
            head = f.read(32)
        sf = (MutableShareFile if MutableShareFile.is_valid_header(head) else ShareFile)(path)
        leases = list(sf.get_leases())
        with open(path, "rb+") as f:
            for i, lease in enumerate(leases):
                sf._write_lease_record(f, i, lease.renew(expires))

    def spent(self):
        """How many passes the server says it was paid, by its metrics file."""
        for line in (self.file("metrics", "zkap.prom") or "").splitlines():
            if line.startswith("zkapauthorizer_server_spending_successes_sum"):
                return float(line.split(" ")[-1])
        return None


class Client(Process):
    def __init__(self, grid, options=(), rootcap=None):
        Process.__init__(self, "client%d" % len(grid.clients))
        self.grid = grid
        grid.clients.append(self)
        self.port = free_port()
        self.tub_port = free_port()
        self.options(options)
        with open(os.path.join(self.private, "servers.yaml"), "w") as f:
            json.dump({"storage": dict(s.announcement() for s in grid.servers)}, f)
        self.set_rootcap(rootcap)
        self.path = os.path.join(self.private, "privatestorageio-zkapauthz-v1.sqlite3")
        self.db = cli.Reader(self.path)

    def options(self, options):
        grid = self.grid
        options = dict(
            {
                "redeemer": "ristretto",
                "ristretto-issuer-root-url": grid.issuer.url,
                "allowed-public-keys": ppass.public_key_text(grid.key),
                "default-token-count": str(grid.tokens),
                "pass-value": str(grid.pv),
            },
            **dict(options)
        )
        n = len(grid.servers)
        self.configure(
            """[node]
nickname = client
web.port = tcp:%d:interface=127.0.0.1
tub.port = tcp:%d:interface=127.0.0.1
tub.location = tcp:127.0.0.1:%d
[client]
shares.needed = 1
shares.happy = 1
shares.total = %d
storage.plugins = %s
[storage]
enabled = false
[storageclient.plugins.%s]
"""
            % (self.port, self.tub_port, self.tub_port, n, NAME, NAME)
            + "".join("%s = %s\n" % kv for kv in sorted(options.items()))
        )

    def set_rootcap(self, cap):
        if cap is not None:
            with open(os.path.join(self.private, "rootcap"), "w") as f:
                f.write(cap)

    def start(self):
        self.launch()
        wait_for("connections to the servers", self.connected)
        self.token = self.file("private", "api_auth_token")
        return self

    def connected(self):
        """Is it connected to all the servers that run?"""
        if self.p.poll() is not None:
            raise Unavailable("the client ended: " + (self.file("output") or "")[-300:])
        try:
            code, body = self.web("GET", "/?t=json")
        except OSError:
            return False
        connected = sum(1 for s in json.loads(body)["servers"] if s["connection_status"].startswith("Connected")) if code == 200 else 0
        return connected == sum(1 for s in self.grid.servers if s.p is not None)

    def web(self, method, path, body=None, headers=()):
        conn = http.client.HTTPConnection("127.0.0.1", self.port, timeout=patience())
        try:
            conn.request(method, path, body, dict(headers))
            r = conn.getresponse()
            return r.status, r.read()
        except socket.timeout:
            raise Unavailable("no answer in time")
        finally:
            conn.close()

    def must(self, mon, method, path, body=None, what="a request"):
        """The body of a successful answer, and whether it came at once."""
        failures = []
        for _ in range(3):
            start = time.time()
            code, answer = self.web(method, path, body)
            took = time.time() - start
            if 200 <= code < 300:
                return answer, took < 5 and not failures
            if took > 4:
                # Tahoe-LAFS gives up on slow servers.
                raise Unavailable("%s answered %d after %d s" % (what, code, took))
            if not self.connected():
                raise Unavailable("%s answered %d without a server" % (what, code))
            failures.append((code, answer[:300]))
            time.sleep(4)
        mon.violate("%s fails on a grid where all is well" % (what,), failures[-1])

    def plugin(self, method, path, value=None):
        headers = {"Authorization": "tahoe-lafs " + self.token}
        body = None
        if value is not None:
            body = json.dumps(value).encode()
            headers["Content-Type"] = "application/json"
        return self.web(method, "/storage-plugins/" + NAME + path, body, headers)

    def report(self):
        """(spendable tokens, last maintenance run or None)"""
        code, body = self.plugin("GET", "/lease-maintenance")
        value = json.loads(body)
        return value.get("total", value.get("spendable")), value.get("spending", value.get("lease-maintenance-spending"))

    def buy(self, voucher):
        code, body = self.plugin("PUT", "/voucher", {"voucher": voucher})
        if code != 200:
            return code

        wait_for("redemption", lambda: self.state(voucher) == "redeemed")
        return 200

    def state(self, voucher):
        code, body = self.plugin("GET", "/voucher/" + quote(voucher))
        return json.loads(body)["state"]["name"] if code == 200 else code

    # -- recovery, over a websocket --

    def recover(self, cap):
        """The stages of a recovery, and how the connection was closed."""
        s = socket.create_connection(("127.0.0.1", self.port), patience())
        try:
            s.sendall(
                (
                    "GET /storage-plugins/%s/recover HTTP/1.1\r\nHost: 127.0.0.1\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n"
                    "Sec-WebSocket-Key: %s\r\nSec-WebSocket-Version: 13\r\nAuthorization: tahoe-lafs %s\r\n\r\n" % (NAME, b64encode(b"k" * 16).decode(), self.token)
                ).encode()
            )
            payload = json.dumps({"recovery-capability": cap}).encode()
            data = b""
            while b"\r\n\r\n" not in data:
                more = s.recv(65536)
                if not more:
                    raise Unavailable("no websocket: %r" % (data,))
                data += more
            head, _, data = data.partition(b"\r\n\r\n")
            n = len(payload)
            s.sendall(bytes([0x81]) + (bytes([0x80 | n]) if n < 126 else bytes([0x80 | 126]) + struct.pack(">H", n)) + b"\0\0\0\0" + payload)
            messages = []
            while True:
                while len(data) >= 2:
                    n, off = data[1] & 0x7F, 2
                    if n == 126:
                        n, off = struct.unpack(">H", data[2:4])[0], 4
                    if len(data) < off + n:
                        break
                    op, text, data = data[0] & 15, data[off : off + n], data[off + n :]
                    if op == 8:
                        return messages, struct.unpack(">H", text[:2])[0] if len(text) >= 2 else None
                    if op in (1, 2):
                        messages.append(json.loads(text))
                more = s.recv(65536)
                if not more:
                    return messages, None
                data += more
        except socket.timeout:
            raise Unavailable("recovery takes too long")
        finally:
            s.close()


@contextmanager
def session(rng, mon, servers, pv, tokens):
    """A running grid, for as long as it can be had."""
    global deadline
    deadline = time.time() + 170
    grid = None
    try:
        grid = Grid(rng, servers, pv, tokens)
        yield grid
    except (Unavailable, OSError, http.client.HTTPException, sqlite3.OperationalError) as e:
        mon.note("not judged further:", repr(e)[:300])
        mon.event("grids-unavailable")
    finally:
        if grid is not None:
            grid.close()


class Grid:
    def __init__(self, rng, servers, pv, tokens):
        self.rng, self.pv, self.tokens = rng, pv, tokens
        self.key = ppass.signing_key()
        self.issuer = Issuer(rng, self.key)
        self.clients = []
        self.servers = []
        for n in range(servers):
            self.servers.append(Server(self, n))
            self.servers[-1].launch()

    def look(self):
        return [s.shares() for s in self.servers]

    def touch(self):
        for p in self.servers + self.clients:
            if p.p is not None:
                p.touch()

    def close(self):
        for p in self.clients + self.servers:
            try:
                p.kill()
            except Exception:
                pass
        self.issuer.stop()


def price(pv, before, after):
    """What going from these shares to those costs on one server."""
    total = 0
    for (si, num), (kind, size, leases) in after.items():
        old = before.get((si, num))
        total += -(-size // pv) - (-(-old[1] // pv) if old else 0) if not old or size > old[1] else 0
    return total
