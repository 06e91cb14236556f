"""
The real storage client talking to the real storage server over a real Foolscap
connection (see foolnet), with a real token database.
"""

import os

from twisted.internet.defer import maybeDeferred

from _zkapauthorizer._storage_client import ZKAPAuthorizerStorageClient
from _zkapauthorizer.model import UnblindedToken

from . import cli, foolnet, srv

INTERFACE = "RIPrivacyPassAuthorizedStorageServer.tahoe.privatestorage.io"


class Seen:
    """One request as it reached the server."""

    def __init__(self, name, args, kwargs):
        self.name, self.args, self.kwargs = name, args, kwargs
        self.result = self.error = None


class NetWorld:
    def __init__(self, rng, now=None, key=None, pass_value=None):
        self.rng = rng
        self.server = srv.World(rng, pass_value=pass_value, now=now, key=key, litter=False)
        self.pv = self.server.pass_value
        self.seen = []
        self._serve = self.server.server.doRemoteCall
        self.server.server.doRemoteCall = self._observe
        self.path = os.path.join(self.server.dir, "client.sqlite3")
        self.raw, _, self.store = cli.open_client_store(self.path, cli.when(self.server.clock), self.pv)
        self.db = cli.Reader(self.path)
        self.link = None
        self.rref = None
        self.genuine, self.fake = set(), set()
        self.sent = {}  # pass -> token text
        redeemer = cli.redeemer()

        def make(message, tokens):
            passes = redeemer.tokens_to_passes(message, tokens)
            for t, p in zip(tokens, passes):
                self.sent[p.pass_bytes] = t.unblinded_token.decode("ascii")
            return passes

        self.client = ZKAPAuthorizerStorageClient(
            self.pv, get_rref=lambda: self.rref, get_passes=cli.spending(self.store, make).get, clock=self.server.clock
        )
        self.connect()

    def _observe(self, name, args, kwargs):
        s = Seen(name, args, kwargs)
        self.seen.append(s)
        try:
            s.result = self._serve(name, args, kwargs)
        except Exception as e:
            s.error = e
            raise
        return s.result

    def connect(self):
        if self.link is not None:
            self.link.drop()
            self.link.settle()
            self.link.close()
        self.link = foolnet.Link(self.rng, server_tub="abcd" * 8)
        self.rref = self.link.reference(self.server.server, INTERFACE, "pb://" + "abcd" * 8 + "@127.0.0.1:1/x")

    def close(self):
        self.link.close()

    def buy(self, good, bad=0):
        """Tokens which the server's issuer made and ones which it did not."""
        tokens = [(t, self.genuine) for t in self.server.pool.take(good)] + [(t, self.fake) for t in self.server.other_pool.take(bad)]
        self.rng.shuffle(tokens)
        out = []
        for t, where in tokens:
            u = UnblindedToken(t.encode_base64())
            where.add(u.unblinded_token.decode("ascii"))
            out.append(u)
        cli.stock(self.store, self.rng, out, groups=self.rng.randrange(1, 3))

    def run(self, f, *args, **kwargs):
        """An operation of the client, until the connection is quiet."""
        o = cli.Outcome(maybeDeferred(f, *args, **kwargs))
        self.link.settle()
        return o

    def remote(self, ref, name, *args, **kwargs):
        return self.run(ref.callRemote, name, *args, **kwargs)
