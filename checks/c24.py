"""Configuration takes effect as documented and bad configuration is refused."""

import json
import os
import random
import sys

import twisted.internet.reactor
from allmydata.client import config_from_string, create_client_from_config
from allmydata.interfaces import IFilesystemNode
from foolscap.ipb import IRemoteReference
from twisted.internet.defer import Deferred, fail, maybeDeferred, succeed
from twisted.internet.task import Clock
from zope.interface import implementer

import _zkapauthorizer._plugin  # with the real reactor
from _zkapauthorizer import NAME
from _zkapauthorizer._plugin import ZKAPAuthorizer
from _zkapauthorizer._storage_client import ShareStat
from _zkapauthorizer.controller import IssuerConfigurationMismatch
from vz import cli, issuer, ppass, srv, web, webapi
from vz.core import Scenario, Violated, scratch_dir
from vz.plug import Net, cooperating, make_plugin

PROPERTY = "C24"
LEVEL = "exploration"
RULE = (
    "Generated node configurations - every subset of the documented settings, written with the variations of spacing that users write - are loaded "
    "through the plugin's entry points and by a whole Tahoe-LAFS client; each setting is judged by what the node then does: prices and passes asked "
    "for, the connection and the request to the issuer, voucher states, spendable tokens, renewed leases and the times of runs, the server's demands, "
    "announcement and metrics file. One setting of a good configuration is then spoilt or left out and the node must refuse to start. Announcements of "
    "storage servers with the configured issuer and with others are presented. Distinct by the settings present and their values' classes."
)
ASSUMPTIONS = [
    "a metrics path without an interval or the reverse, a metrics interval of zero, an interval range above twice the mean and an empty list of permitted keys are not judged",
]

MONTH = 31 * 86400
SERVER_INTERFACE = "RIPrivacyPassAuthorizedStorageServer.tahoe.privatestorage.io"


# Client configurations

HOSTS = ["issuer.example", "a.b.c.example", "10.1.2.3", "issuer-2.example"]


def some_url(rng, schemes=("http", "http", "https")):
    """(text, scheme, host, port, path segments)"""
    scheme = rng.choice(schemes)
    host = rng.choice(HOSTS)
    port = rng.choice([None, None, 8080, 80, 443, rng.randrange(1, 65536)])
    path = rng.choice([[], [], ["a"], ["a", "b-c"], ["v1"], ["redeem"]])
    text = "%s://%s" % (scheme, host)
    if port is not None:
        text += ":%d" % (port,)
    if path or rng.random() < 0.6:
        text += "/" + "".join(p + "/" for p in path)
        if path and rng.random() < 0.5:
            text = text[:-1]
    return text, scheme, host, port or (80 if scheme == "http" else 443), path


class Setup:
    """A good client configuration and what it means."""

    def __init__(self, rng, keys, redeemer=None):
        self.rng = rng
        self.options = {}
        self.client = {}
        self.needed, self.total = 3, 10
        if rng.random() < 0.3:
            self.needed = rng.randrange(1, 6)
            self.client["shares.needed"] = str(self.needed)
            self.total = rng.randrange(self.needed, 12)
            self.client["shares.total"] = str(self.total)
        self.pass_value = self.setting("pass-value", 2 ** 20, lambda: rng.choice([1, 2, 1000, 10 ** 6, 2 ** 20, 2 ** 40, rng.randrange(1, 10 ** 5)]), 0.25)
        self.count = self.setting("default-token-count", 2 ** 15, lambda: rng.choice([16, 17, 31, 32, 33, 100, rng.randrange(16, 300)]), 0.06)
        self.mean = self.setting("lease.crawl-interval.mean", 26 * 86400, lambda: rng.choice([1, 60, 86400, rng.randrange(1, 10 ** 7)]))
        self.range = self.setting("lease.crawl-interval.range", 4 * 86400, lambda: rng.choice([0, 1, self.mean, 2 * self.mean]))
        self.remaining = self.setting("lease.min-time-remaining", 0, lambda: rng.choice([0, 1, 86400, MONTH, MONTH - 1, rng.randrange(MONTH)]))
        self.redeemer = redeemer or rng.choice(["ristretto"] * 4 + ["dummy"] * 4 + ["error", "unpaid", "double-spend", "non"])
        if self.redeemer != "ristretto" or rng.random() < 0.5:
            self.options["redeemer"] = self.redeemer
        self.url = some_url(rng)
        if self.redeemer == "ristretto" or rng.random() < 0.3:
            self.options["ristretto-issuer-root-url"] = self.url[0]
        self.issuer_key = rng.choice(keys)
        if self.redeemer == "dummy" or rng.random() < 0.2:
            self.options["issuer-public-key"] = self.issuer_key
        self.details = rng.choice(["it broke", "x", "a longer text: with, some = signs"])
        if self.redeemer == "error":
            self.options["details"] = self.details
        # Permitted keys are written with and without spaces.
        self.allowed = rng.sample(keys, rng.randrange(1, len(keys) + 1))
        sep = rng.choice([",", ",", ", ", " , ", ",  "])
        text = sep.join(self.allowed)
        self.options["allowed-public-keys"] = text
        order = list(self.options.items())
        rng.shuffle(order)
        self.options = dict(order)

    def setting(self, name, default, value, absent=0.4):
        if self.rng.random() < absent:
            return default
        v = value()
        self.options[name] = str(v)
        return v

    def config(self, basedir):
        return web.node_config(basedir, self.client, self.options)

    def announcement(self):
        return {"ristretto-issuer-root-url": self.url[0]}


def start_client(basedir, setup, net):
    plugin = make_plugin(net)
    config = setup.config(basedir)
    root = plugin.get_client_resource(config)
    return plugin, config, web.Server(root, net)


def call(server, method, path, value=None):
    body = b"" if value is None else json.dumps(value).encode("utf-8")
    headers = [] if value is None else [(b"Content-Type", b"application/json")]
    return server.request(method, web.PREFIX + path, headers=headers, body=body, token=b"token-for-tests")


def judge_price(rng, mon, s, server):
    sizes = [rng.choice([0, 1, s.pass_value * s.needed, s.pass_value * s.needed + 1, rng.randrange(1, 10 ** 7), 3 * s.pass_value]) for _ in range(rng.randrange(4))]
    r = call(server, b"POST", b"/calculate-price", {"version": 1, "sizes": sizes})
    expected = sum(s.total * -(-(-(-size // s.needed)) // s.pass_value) for size in sizes)
    mon.equal(r.json(), {"price": expected, "period": MONTH - s.remaining}, "the price calculator does not use the configured values: %r" % (s.options,))
    mon.event("prices")


def judge_redemption(rng, mon, s, server, net, db, keys):
    """The state which a voucher gets, and which keys and tokens come of it."""
    voucher = cli.voucher_number(rng).decode("ascii")
    r = call(server, b"PUT", b"/voucher", {"voucher": voucher})
    mon.check(r.code == 200, "a voucher is not accepted", r.raw[:300])

    def state():
        v = call(server, b"GET", b"/voucher/" + voucher.encode("ascii")).json()
        mon.equal(v["expected-tokens"], s.count, "the voucher is not expected to be worth the configured number of tokens")
        return v["state"]

    mon.event("vouchers-" + s.redeemer)
    if s.redeemer == "ristretto":
        return judge_ristretto(rng, mon, s, voucher, net, db, keys, state)
    got = state()
    names = {"dummy": "redeemed", "error": "error", "unpaid": "unpaid", "double-spend": "double-spend", "non": "redeeming"}
    mon.equal(got["name"], names[s.redeemer], "a voucher's state does not show the configured redeemer %r" % (s.redeemer,))
    mon.equal(net.attempts, 0, "a client configured not to talk to an issuer connects to one")
    if s.redeemer == "error":
        mon.equal(got["details"], s.details, "the configured error is not reported")
    if s.redeemer != "dummy":
        return None
    if s.issuer_key in s.allowed:
        mon.equal(got["token-count"], s.count, "the wrong number of tokens")
    judge_key(mon, db, voucher, s.issuer_key, s.allowed, s.count)
    return s.issuer_key in s.allowed


def judge_key(mon, db, voucher, key, allowed, count):
    rows = db.rows(
        "SELECT G.[public-key], G.[spendable], COUNT(*) FROM [unblinded-tokens] AS T JOIN [redemption-groups] AS G ON T.[redemption-group] = G.[rowid] WHERE G.[voucher] = ? GROUP BY G.[public-key], G.[spendable]",
        (voucher,),
    )
    mon.equal(rows, [(key, 1 if key in allowed else 0, count)], "tokens are not recorded with the issuer's key, or the permission of the key was not honoured (permitted: %r)" % (allowed,))
    mon.event("tokens-of-permitted-keys" if key in allowed else "tokens-of-other-keys")


def judge_ristretto(rng, mon, s, voucher, net, db, keys, state):
    text, scheme, host, port, path = s.url
    signing = {ppass.public_key_text(k): k for k in keys["signing"]}
    public = rng.choice(sorted(signing))
    sizes = []
    for _ in range(16):
        net.spin(lambda: net.requests or (scheme == "https" and net.connections and net.connections[-1].inbox))
        conn = net.connections[-1] if net.connections else None
        mon.check(conn is not None, "no connection to the issuer is made", s.options)
        mon.equal(conn.port, port, "the issuer is contacted on another port than the configured one: %r" % (text,))
        if not host[0].isdigit():
            mon.check(all(n == (host, port) for n in net.names) and net.names, "another host than the configured issuer is looked up", net.names, text)
        else:
            mon.event("numeric-issuer-addresses")
        if scheme == "https":
            mon.check(conn.inbox[:1] == b"\x16", "the connection to a https issuer is not encrypted", conn.inbox[:40])
            if not host[0].isdigit():
                mon.check(host.encode("ascii") in conn.inbox, "the configured host is not the one asked for", text)
            mon.event("https-issuers")
            return None
        mon.check(net.requests, "no request reaches the issuer", conn.inbox[:300], state())
        request = net.requests.pop(0)
        mon.equal(request.method, "POST", "method")
        mon.equal(request.target.decode("ascii"), "/" + "/".join(path + ["v1", "redeem"]), "the configured issuer %r is asked for another path" % (text,))
        h = request.headers[b"host"].decode("ascii")
        mon.check(h in (host, "%s:%d" % (host, port)), "another Host", h, text)
        asked = json.loads(request.body)
        mon.equal(asked["redeemVoucher"], voucher, "voucher")
        mon.event("requests-to-issuer")
        sizes.append(len(asked["redeemTokens"]))
        if s.count == 2 ** 15:
            mon.equal(sizes, [2048], "the default number of tokens")
            return None
        reply = issuer.grant(signing[public], asked["redeemTokens"])
        request.conn.reply(webapi.response(rng, 200, "application/json", json.dumps(reply).encode("ascii")))
    mon.equal(sum(sizes), s.count, "not the configured number of tokens is asked for")
    net.spin(lambda: False, 2000) if state()["name"] != "redeemed" else None
    got = state()
    mon.equal((got["name"], got.get("token-count") if public in s.allowed else s.count), ("redeemed", s.count), "redemption with the configured issuer")
    judge_key(mon, db, voucher, public, s.allowed, s.count)
    return public in s.allowed


def judge_spending(rng, mon, s, plugin, config, db):
    """How many passes the client attaches, given its configured pass value."""
    have = len(db.spendable())
    seen = []

    def before(name, args, kwargs):
        seen.append((name, args, kwargs))
        return fail(Exception("enough seen"))

    wire = srv.Wire(None, before)
    client = plugin.get_storage_client(config, s.announcement(), lambda: wire)
    for _ in range(4):
        shares = rng.randrange(1, 4)
        per_share = rng.choice([0, 1, 2, rng.randrange(1, max(2, have // shares + 2))])
        size = max(0, per_share * s.pass_value - rng.choice([0, 0, 1, s.pass_value - 1]))
        price = srv.ceil_passes(s.pass_value, [size] * shares)
        del seen[:]
        out = cli.Outcome(maybeDeferred(client.allocate_buckets, b"s" * 16, b"r" * 32, b"c" * 32, set(range(shares)), size, srv.Canary()))
        mon.check(out.done, "an operation never ends")
        if price > have:
            mon.check(seen == [] and out.failure is not None, "the client sends a request which it cannot pay for", price, have, s.options)
            mon.event("unaffordable")
        else:
            mon.check(len(seen) == 1, "the client does not send a request which it can pay for", out.failure, price, have)
            name, args, kwargs = seen[0]
            passes = kwargs["passes"] if "passes" in kwargs else args[0]
            mon.equal(len(passes), price, "the configured value of a pass is not the one used for storage (%d shares of %d bytes, %r)" % (shares, size, s.options))
            mon.event("priced-by-client")


def client(rng, mon):
    """A client node, started once or twice with different settings."""
    basedir = scratch_dir()
    signing = [ppass.signing_key() for _ in range(2)]
    keys = [ppass.public_key_text(k) for k in signing] + ["A" * 43 + "="]
    db = cli.Reader(os.path.join(basedir, "private", "privatestorageio-zkapauthz-v1.sqlite3"))
    for boot in range(rng.choice([1, 1, 2])):
        s = Setup(rng, keys)
        if rng.random() < 0.3:
            # Only the first signing key could be permitted by accident.
            s.allowed = [k for k in s.allowed if k not in keys[:2]] or [keys[2]]
            s.options["allowed-public-keys"] = ",".join(s.allowed)
        mon.note("boot", boot, s.client, s.options)
        mon.sig(sorted(s.options), s.redeemer)
        net = Net(rng)
        plugin, config, server = start_client(basedir, s, net)
        judge_price(rng, mon, s, server)
        # What an earlier process left behind is redeemed first.
        if boot == 0:
            with cooperating(net):
                judge_redemption(rng, mon, s, server, net, db, {"signing": signing})
        judge_spending(rng, mon, s, plugin, config, db) if s.redeemer in ("dummy", "ristretto") else None
        for name in s.options:
            mon.event("set:" + name)


# Refusals

NUMBERS = ["x", "", "1.5", "12 GB", "1e6", "0x10", "ten", "--1", "1,000"]
BAD = {
    "pass-value": ["0", "-1", "-1048576"] + NUMBERS,
    "default-token-count": ["0", "-1", "15", "1", "-32768"] + NUMBERS,
    "redeemer": ["ristreto", "", "Ristretto", "none", "dummy,ristretto"],
    "lease.crawl-interval.mean": ["-1", "-2246400", "1" + "0" * 30, "26 days"] + NUMBERS,
    "lease.crawl-interval.range": ["-1", "-345600", "1" + "0" * 30] + NUMBERS,
    "lease.min-time-remaining": ["-1", "-604800", "1" + "0" * 30] + NUMBERS,
    "ristretto-issuer-root-url": ["issuer.example", "", "ftp://issuer.example/", "http:///", "/v1/", "issuer.example:8080", "https:issuer.example", "http://issuer.example:port/"],
}
REQUIRED = ["allowed-public-keys", "ristretto-issuer-root-url", "issuer-public-key", "details"]


def refuses(mon, what, f):
    try:
        r = f()
        if isinstance(r, Deferred):
            out = cli.Outcome(r)
            if out.failure is not None:
                mon.event("refusals")
                return
    except Exception:
        mon.event("refusals")
        return
    mon.violate("a setting which cannot be honoured is accepted", what)


def refused(rng, mon):
    """One setting of a good configuration is spoilt."""
    keys = [ppass.public_key_text(ppass.signing_key())]
    for _ in range(6):
        if rng.random() < 0.7:
            s = Setup(rng, keys, rng.choice(["ristretto", "ristretto", "dummy", "error", "unpaid", "non"]))
            # The good one is accepted.
            start_client(scratch_dir(), s, Net(rng))
            mon.event("accepted")
            if rng.random() < 0.25:
                names = [n for n in REQUIRED if n in s.options and not (n == "ristretto-issuer-root-url" and s.redeemer != "ristretto") and not (n == "issuer-public-key" and s.redeemer != "dummy")]
                name = rng.choice(names)
                del s.options[name]
                what = ("missing", name)
            else:
                name = rng.choice(sorted(BAD))
                if name == "ristretto-issuer-root-url" and s.redeemer != "ristretto":
                    name = "pass-value"
                s.options[name] = rng.choice(BAD[name])
                what = (name, s.options[name])
            mon.note(what, s.options)
            mon.sig(what)
            mon.event("client-" + name)
            refuses(mon, what, lambda: start_client(scratch_dir(), s, Net(rng)))
        else:
            w = srv.World(rng)
            good, _, _ = server_config(rng, w)
            good_server(mon, w, good)
            mon.event("accepted")
            bad = dict(good)
            name = rng.choice(["pass-value", "ristretto-issuer-root-url", "ristretto-signing-key-path", "prometheus-metrics-interval", "key"])
            if name == "pass-value":
                bad[name] = rng.choice(BAD[name])
            elif name == "ristretto-issuer-root-url":
                del bad[name]
            elif name == "ristretto-signing-key-path":
                if rng.random() < 0.5:
                    del bad[name]
                else:
                    bad[name] = os.path.join(w.dir, "no-such-key")
            elif name == "key":
                with open(good["ristretto-signing-key-path"], "rb") as f:
                    text = f.read()
                bad["ristretto-signing-key-path"] = os.path.join(w.dir, "bad.key")
                with open(bad["ristretto-signing-key-path"], "wb") as f:
                    f.write(rng.choice([b"", b"\n", text.strip()[:-5], b"!" + text.strip()[1:], b"x", text.strip() + b"\n" + text.strip(), b"\xff" * 32]))
            else:
                bad["prometheus-metrics-path"] = os.path.join(w.dir, "metrics")
                bad[name] = rng.choice(["-1", "-60"] + NUMBERS)
            mon.note(name, bad)
            mon.sig("server", name, bad.get(name))
            mon.event("server-" + name)
            refuses(mon, (name, bad.get(name)), lambda: make_server(w, bad))


# Servers


def server_config(rng, w):
    url = some_url(rng)[0]
    key_path = os.path.join(w.dir, "some signing.key")
    with open(key_path, "wb") as f:
        f.write(rng.choice([b"", b"\n", b" ", b"\r\n"]) + w.key.encode_base64() + rng.choice([b"", b"\n", b"\r\n", b" \n\n"]))
    config = {"ristretto-issuer-root-url": url, "ristretto-signing-key-path": key_path}
    if rng.random() < 0.7:
        value = rng.choice([1, 2, 100, 1000, 10 ** 6, 2 ** 20, rng.randrange(1, 10 ** 4)])
        config["pass-value"] = str(value)
    else:
        value = 2 ** 20
    return config, url, value


def make_server(w, config):
    plugin = ZKAPAuthorizer(NAME, w.clock, lambda *a: None)
    out = cli.Outcome(maybeDeferred(plugin.get_storage_server, config, lambda: w.backend))
    if out.failure is not None:
        out.failure.raiseException()
    return out.value


def good_server(mon, w, config):
    try:
        return make_server(w, config)
    except Exception as e:
        mon.violate("a good server configuration is refused", repr(e), {k: v for k, v in config.items()})


def server(rng, mon):
    """A storage server's configuration."""
    w = srv.World(rng)
    config, url, value = server_config(rng, w)
    metrics = os.path.join(w.dir, *(["metrics.prom"] if rng.random() < 0.5 else ["some", "where", "m.prom"]))
    interval = rng.choice([1, 15, 60, 3600, rng.randrange(1, 1000)])
    measured = rng.random() < 0.7
    if measured:
        config["prometheus-metrics-path"] = metrics
        config["prometheus-metrics-interval"] = str(interval)
    mon.sig(sorted(config), value, interval)
    mon.note(config)
    announceable = good_server(mon, w, config)
    a = announceable.announcement
    mon.equal(a["ristretto-issuer-root-url"], url, "the configured issuer is not the one announced")
    mon.equal(list(a["ristretto-public-keys"]), [ppass.public_key_text(w.key).encode("ascii")] if isinstance(a["ristretto-public-keys"][0], bytes) else [ppass.public_key_text(w.key)], "the announced key is not that of the configured signing key")
    mon.check(w.key.encode_base64().decode() not in repr(a), "the signing key is announced")
    s = announceable.storage_server
    judge_server_price(rng, mon, w, s, value)
    if not measured:
        mon.check(not os.path.exists(metrics), "metrics although none are configured")
        return
    mon.check(os.path.exists(metrics), "no metrics are written at start-up")
    mon.event("metrics-at-start")
    begin = w.clock.seconds()
    for i in range(1, 5):
        os.unlink(metrics)
        step = interval * rng.choice([0.5, 0.9, 0.99])
        w.clock.advance(begin + (i - 1) * interval + step - w.clock.seconds())
        mon.check(not os.path.exists(metrics), "metrics are written more often than configured", step, interval)
        judge_server_price(rng, mon, w, s, value)
        w.clock.advance(begin + i * interval - w.clock.seconds() + 1e-3)
        mon.check(os.path.exists(metrics), "metrics are not written at the configured interval", i, interval)
        mon.event("metrics-on-time")
        with open(metrics) as f:
            text = f.read()
        mon.check("zkapauthorizer" in text or "_count" in text, "the metrics file does not hold the metrics", text[:200])


def judge_server_price(rng, mon, w, s, value):
    si = bytes(rng.randrange(256) for _ in range(16))
    shares = rng.randrange(1, 4)
    size = max(1, rng.choice([1, 2, 3]) * value + rng.choice([-1, 0, 1]))
    if size * shares > 10 ** 7:
        shares = 1
    price = srv.ceil_passes(value, [size] * shares)
    message = b"allocate_buckets " + srv.b64encode(si)
    passes = [ppass.wire_pass(t, message) for t in w.pool.take(price)]

    def allocate(passes):
        wire = srv.Wire(s)
        return cli.Outcome(wire.callRemote("allocate_buckets", passes, si, b"r" * 32, b"c" * 32, set(range(shares)), size, w.canary))

    o = allocate(passes[:-1])
    mon.check(o.failure is not None and o.failure.type.__name__ == "MorePassesRequired" and o.failure.value.required_count == price, "the server does not demand what its configured pass value says", o, price, value, size)
    o = allocate([ppass.wire_pass(t, message) for t in w.other_pool.take(price)] if price <= 64 else [])
    mon.check(o.failure is not None, "the server accepts passes of another key than the configured one")
    o = allocate(passes)
    mon.check(o.failure is None and sorted(o.value[1]) == list(range(shares)), "the server refuses passes of the configured key to the amount that its configured pass value says", o, price, value)
    mon.event("priced-by-server")


# Issuers


def other_url(rng, url):
    text, scheme, host, port, path = url
    how = rng.randrange(6)
    default = 80 if scheme == "http" else 443
    at = host if port == default else "%s:%d" % (host, port)
    tail = "/" + "".join(p + "/" for p in path)
    if how == 0:
        return "%s://%s%s" % ("https" if scheme == "http" else "http", host + ":%d" % (port,), tail)
    if how == 1:
        return "%s://x%s%s" % (scheme, at, tail)
    if how == 2:
        return "%s://%s:%d%s" % (scheme, host, port % 65535 + 1, tail)
    if how == 3:
        return "%s://%s%sother/" % (scheme, at, tail)
    if how == 4:
        return "%s://%s.evil.example%s" % (scheme, host, tail)
    return rng.choice(["", "https://", text + "@evil.example/"])


def issuers(rng, mon):
    """Announcements of the configured issuer, and of others."""
    keys = [ppass.public_key_text(ppass.signing_key())]
    s = Setup(rng, keys, "ristretto")
    s.options["default-token-count"] = "16"
    net = Net(rng)
    plugin, config, server = start_client(scratch_dir(), s, net)
    asked = []

    def get_rref():
        asked.append(1)
        return srv.Wire(None, lambda *a: fail(Exception("no")))

    for _ in range(8):
        if rng.random() < 0.3:
            plugin.get_storage_client(config, dict(s.announcement(), **{"ristretto-public-keys": keys}), get_rref)
            mon.event("announcements-accepted")
            continue
        announced = other_url(rng, s.url)
        mon.note(s.url[0], announced)
        mon.sig(announced == "", announced[:5])
        try:
            plugin.get_storage_client(config, {"ristretto-issuer-root-url": announced, "ristretto-public-keys": keys}, get_rref)
        except IssuerConfigurationMismatch:
            mon.event("announcements-refused")
        else:
            mon.violate("a client uses a storage server which announces another issuer than the configured one", announced, s.url[0])
    mon.equal(asked, [], "a storage server is contacted before its issuer is known")


# Whole clients


@implementer(IFilesystemNode)
class Leaf:
    def __init__(self, si, began):
        self.si, self.began = si, began

    def get_storage_index(self):
        self.began()
        return self.si

    def get_uri(self):
        return b"URI:CHK:leaf"

    def is_unknown(self):
        return False


class StorageServer:
    """What the client's list of servers holds for one server."""

    def __init__(self, now, expiry):
        self.now, self.expiry = now, expiry
        self.renewed = []
        self.seen = 0

    def get_storage_server(self):
        return self

    def is_connected(self):
        return True

    def get_lease_seed(self):
        return b"s" * 20

    def get_serverid(self):
        return b"v0-server"

    get_name = get_longname = get_nickname = get_serverid

    async def stat_shares(self, sis):
        self.seen += 1
        return [{0: ShareStat(size=100, lease_expiration=int(self.expiry[si]))} for si in sis]

    async def add_lease(self, si, renew, cancel):
        self.renewed.append(si)
        self.expiry[si] = self.now() + MONTH


def maintenance(rng, mon):
    """Which leases a whole client renews, and when."""
    keys = [ppass.public_key_text(ppass.signing_key())]
    s = Setup(rng, keys, rng.choice(["ristretto", "dummy"]))
    s.options.setdefault("ristretto-issuer-root-url", s.url[0])
    if s.range > 2 * s.mean:
        s.range = 2 * s.mean
        s.options["lease.crawl-interval.range"] = str(s.range)
    lo, hi = s.mean - s.range / 2, s.mean + s.range / 2
    mon.note(s.options)
    mon.sig(sorted(s.options), s.mean, s.range, s.remaining)
    directory = scratch_dir()
    os.mkdir(os.path.join(directory, "private"))
    with open(os.path.join(directory, "private", "rootcap"), "wb") as f:
        f.write(b"URI:CHK:root")
    # Other plugins than ours may be enabled as well, or instead.
    enabled = rng.random() < 0.8
    others = rng.sample([NAME + "-other", "another-v1", NAME[:-1], "x" + NAME, NAME.upper()], rng.choice([0, 0, 1, 2])) or ([] if enabled else ["another-v1"])
    names = others + ([NAME] if enabled else [])
    rng.shuffle(names)
    plugins = rng.choice([",", ", "]).join(names)
    mon.note("plugins", plugins)
    text = "[node]\nnickname = check\n[client]\nintroducer.furl =\nstorage.plugins = %s\n[storageclient.plugins.%s]\n" % (plugins, NAME)
    text += "".join("%s = %s\n" % x for x in s.options.items())
    config = config_from_string(directory, "tub.port", text.encode())

    class Reactor(Clock):
        pass

    clock = Reactor()
    clock.advance(1_600_000_000 + rng.randrange(10 ** 7))
    seed = rng.random()
    real_random, real_reactor = random.Random, twisted.internet.reactor
    random.Random = lambda *a: real_random(seed)
    twisted.internet.reactor = sys.modules["twisted.internet.reactor"] = clock
    try:
        out = cli.Outcome(create_client_from_config(config))
    finally:
        random.Random = real_random
        twisted.internet.reactor = sys.modules["twisted.internet.reactor"] = real_reactor
    if out.failure is not None:
        out.failure.raiseException()
    node = out.value
    for c in clock.getDelayedCalls():
        c.cancel()
    if not enabled:
        mon.check(_zkapauthorizer._plugin.MAINTENANCE_SERVICE_NAME not in node.namedServices, "a node which does not use this plugin maintains leases with it", plugins)
        mon.event("not-enabled")
        return
    mon.check(_zkapauthorizer._plugin.MAINTENANCE_SERVICE_NAME in node.namedServices, "a node which uses this plugin does not maintain its leases", plugins)
    begun = []
    leaf = Leaf(b"i" * 16, lambda: begun.append(clock.seconds()))
    node.create_node_from_uri = lambda cap: leaf
    server = StorageServer(clock.seconds, {leaf.si: 0})
    node.get_storage_broker().servers[b"v0-server"] = server
    service = node.getServiceNamed(_zkapauthorizer._plugin.MAINTENANCE_SERVICE_NAME)
    service.startService()
    earliest, latest = clock.seconds(), clock.seconds() + hi
    for i in range(6):
        pending = [c.getTime() for c in clock.getDelayedCalls()]
        mon.check(pending, "no run is scheduled")
        when = min(pending)
        mon.check(earliest - 1e-3 <= when <= latest + 1e-3, "a run is not scheduled according to the configured interval", when - earliest, "expected up to", latest - earliest, s.mean, s.range)
        margin = rng.choice([-s.remaining - 10, -1, -10 ** 6, -2, 2, 1, 5, 86400, 10 ** 6])
        # How the lease's end compares with the configured remaining time
        # when the run is made.
        server.expiry[leaf.si] = int(when) + s.remaining + margin + (1 if margin > 0 else 0)
        del server.renewed[:], begun[:]
        clock.advance(max(0, when - clock.seconds()))
        mon.check(begun, "a run which is due is not made")
        mon.check(server.seen, "the storage server is not asked")
        mon.equal(server.renewed, [leaf.si] if margin < 0 else [], "a lease which ends %d seconds after the configured minimum remaining time %d" % (margin, s.remaining))
        mon.event("renewed" if margin < 0 else "left-alone")
        earliest, latest = clock.seconds() + lo, clock.seconds() + hi
    out = service.stopService()


SCENARIOS = [
    Scenario("client", client, 150, 3600, needs=["prices", "vouchers-ristretto", "vouchers-dummy", "priced-by-client", "requests-to-issuer", "https-issuers", "tokens-of-permitted-keys", "tokens-of-other-keys", "unaffordable"]),
    Scenario("refused", refused, 120, 3000, needs=["refusals", "accepted"]),
    Scenario("server", server, 40, 1500, needs=["metrics-at-start", "metrics-on-time", "priced-by-server"]),
    Scenario("issuers", issuers, 30, 1200, needs=["announcements-accepted", "announcements-refused"]),
    Scenario("maintenance", maintenance, 30, 1200, needs=["renewed", "left-alone", "not-enabled"]),
]
