"""The real Tahoe-LAFS client of a node, on a virtual network which leads to the model grid."""

import json

from twisted.internet import task
from twisted.internet.defer import Deferred
from twisted.internet.error import ConnectionLost
from zope.interface import implementer

from _zkapauthorizer.tahoe import ITahoeClient, get_tahoe_client

from urllib.parse import unquote_to_bytes

from . import node as nodes
from . import webapi
from .core import Violated

PORT = 3456


class WireOp(nodes.Op):
    """One request of one process, to be answered."""

    def __init__(self, tahoe, request, name, args, apply, render):
        nodes.Op.__init__(self, tahoe, name, args, apply)
        self.request, self.render = request, render

    def finish(self, how="ok"):
        t, rng = self.tahoe, self.tahoe.rng
        self.over = True
        if self in t.pending:
            t.pending.remove(self)
        error = result = None
        if how in ("ok", "lost", "silent"):
            try:
                result = self.apply()
            except KeyError as e:
                error = (404, "No such child: %r" % (e,))
            except nodes.GridError as e:
                error = (int(str(e)[:3]), str(e))
        failure = None
        if how in ("fail", "lost"):
            failure = self.trouble(how)
        t.node.finished(self, how, result, failure or error)
        if how in ("silent", "gone") or not t.live:
            return
        conn = self.request.conn
        if failure is not None:
            failure(conn)
        elif error is not None:
            conn.reply(webapi.response(rng, error[0], "text/plain", error[1].encode("utf-8")))
        else:
            code, body = self.render(result)
            conn.reply(webapi.response(rng, code, "text/plain", body))
        t.pump()

    def trouble(self, how):
        """One way for the request to fail."""
        rng = self.tahoe.rng

        def status(conn):
            code = rng.choice([400, 404, 410, 500, 500, 502, 503])
            body = rng.choice(["Traceback (most recent call last):\nfoo", "", "<html>x</html>", "NoSharesError: no shares could be found"])
            conn.reply(webapi.response(rng, code, rng.choice(["text/plain", "text/html"]), body.encode("utf-8")))

        def dropped(conn):
            conn.reply(b"", close=ConnectionLost)

        def cut(conn):
            raw = webapi.response(rng, 200, "text/plain", b"x" * rng.randrange(1, 2000))
            conn.reply(raw[: rng.randrange(1, len(raw))], close=ConnectionLost)

        def nonsense(conn):
            bodies = [b"", b"nonsense", b"URI:", b"\xff\xfe", b"null", b"{}", b"[]", b'["filenode", {}]']
            if self.name == "list" and how == "fail":
                entries = self.tahoe.grid.ro.get(self.args[0], self.args[0]) in self.tahoe.grid.dirs and self.tahoe.listing(self.args[0])
                if entries:
                    bodies = [entries[: rng.randrange(1, len(entries))]] * 4 + bodies
            elif self.args == () or self.name == "upload":
                cap = self.tahoe.some_cap()
                bodies += [cap[: rng.randrange(4, 10)].encode(), b"<html>" + cap.encode()]
            conn.reply(webapi.response(rng, 200, "text/plain", rng.choice(bodies)))

        kinds = [status, status, dropped, cut]
        if self.name in ("upload", "mkdir", "list"):
            kinds += [nonsense, nonsense]
        return rng.choice(kinds)


@implementer(ITahoeClient)
class WireTahoe:
    def __init__(self, node, grid, rng):
        self.node, self.grid, self.rng = node, grid, rng
        self.live = True
        self.pending = []
        self.requests = 0
        self.net = webapi.Net(rng)
        self.net.received = self.received
        self.cooperator = task.Cooperator(scheduler=lambda f: self.net.callLater(0.0001, f))
        self.pumping = False
        self.real = None

    def configured(self, config):
        with open("%s/node.url" % (self.node.basedir,), "w") as f:
            f.write("http://127.0.0.1:%d/\n" % (PORT,))
        self.real = get_tahoe_client(self.net, config)

    # the interface

    def get_config(self):
        return self.real.get_config()

    def get_private_path(self, name):
        return self.real.get_private_path(name)

    async def download(self, outpath, cap):
        return await self.start(lambda: self.real.download(outpath, cap))

    async def upload(self, data_provider):
        return await self.start(lambda: self.real.upload(data_provider))

    async def make_directory(self):
        return await self.start(lambda: self.real.make_directory())

    async def link(self, dir_cap, entry_name, entry_cap):
        return await self.start(lambda: self.real.link(dir_cap, entry_name, entry_cap))

    async def unlink(self, dir_cap, entry_name):
        return await self.start(lambda: self.real.unlink(dir_cap, entry_name))

    async def list_directory(self, dir_cap):
        return await self.start(lambda: self.real.list_directory(dir_cap))

    def start(self, operation):
        if not self.live:
            return Deferred()
        d = Deferred.fromCoroutine(operation())
        self.pump()
        if not self.live:
            return Deferred()
        return d

    # the network

    def pump(self):
        """Let everything happen which takes no time."""
        if self.pumping:
            return
        self.pumping = True
        saved, task._theCooperator = task._theCooperator, self.cooperator
        try:
            n = 0
            net = self.net
            while self.live and net.calls and net.calls[0].getTime() - net.seconds() < 0.01:
                net.advance(max(0, net.calls[0].getTime() - net.seconds()))
                n += 1
                if n > 2000000:
                    raise Violated("the Tahoe client never comes to rest")
        finally:
            self.pumping = False
            task._theCooperator = saved

    def some_cap(self):
        return self.rng.choice(sorted(self.grid.dirs) + sorted(self.grid.files) + ["URI:DIR2:a:b"])

    def listing(self, d):
        children = {}
        for name, cap in self.grid.entries(d).items():
            if cap in self.grid.files:
                children[name] = ["filenode", {"ro_uri": cap, "size": len(self.grid.files[cap]), "mutable": False, "verify_uri": "URI:CHK-Verifier:x"}]
            else:
                ro = next((r for r, w in self.grid.ro.items() if w == cap), cap)
                children[name] = ["dirnode", {"ro_uri": ro, "mutable": True}]
        return json.dumps(["dirnode", {"ro_uri": d, "mutable": True, "children": children}]).encode("utf-8")

    def received(self, request):
        self.requests += 1
        op = self.parse(request)
        if op is None:
            raise Violated("the client asks its node for something else: %r" % (request,))
        if op.name != "download" and self.rng.random() < 0.04:
            # Which is no reason to give up.
            text = self.rng.choice(["allmydata.interfaces.NoServersError: no servers", "allmydata.mutable.common.NotEnoughServersError: 1 < 3"])
            request.conn.reply(webapi.response(self.rng, self.rng.choice([500, 410, 503]), "text/plain", text.encode()))
            return
        self.node.started(op)
        how = self.node.policy(op)
        if how is None:
            self.pending.append(op)
        else:
            op.finish(how)

    def parse(self, request):
        g = self.grid
        names = [unquote_to_bytes(s).decode("utf-8") for s in request.path.split(b"/")]
        if names[:2] != ["", "uri"]:
            return None
        names, method, t, body = names[2:], request.method, request.query.get("t"), request.body

        def op(name, args, apply, render):
            return WireOp(self, request, name, args, apply, render)

        if (method, names, t) == ("PUT", [], None):

            def upload():
                cap = g.put_file(body)
                g.log.append(("upload", cap))
                return cap

            return op("upload", (body,), upload, lambda cap: (self.rng.choice([200, 201]), cap.encode()))
        if (method, names, t) == ("POST", [], "mkdir"):

            def mkdir():
                cap = g.make_dir()
                g.log.append(("mkdir", cap))
                return cap

            return op("mkdir", (), mkdir, lambda cap: (200, cap.encode()))
        if (method, names[1:], t) == ("GET", [""], "json"):

            def listing():
                if g.ro.get(names[0], names[0]) not in g.dirs:
                    raise nodes.GridError("410 gone")
                g.log.append(("list", names[0]))
                return self.listing(names[0])

            return op("list", (names[0],), listing, lambda raw: (200, raw))
        if (method, names[1:], t) == ("GET", [], None):

            def download():
                g.log.append(("download", names[0]))
                return g.files[names[0]]

            return op("download", (names[0],), download, lambda data: (200, data))
        if method == "PUT" and len(names) == 2 and t == "uri":
            d, name, cap = names[0], names[1], body.decode("ascii")

            def link():
                g.dirs[d][name] = cap
                g.log.append(("link", d, name, cap))

            return op("link", (d, name, cap), link, lambda _: (200, body))
        if method == "DELETE" and len(names) == 2 and t is None:
            d, name = names

            def unlink():
                if name not in g.dirs[d]:
                    raise nodes.GridError("404 not found")
                del g.dirs[d][name]
                g.log.append(("unlink", d, name))

            return op("unlink", (d, name), unlink, lambda _: (200, b""))
        return None
