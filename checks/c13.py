"""Every client HTTP endpoint requires the API token."""

import json
import os

from twisted.internet.task import Clock

from vz import cli, web
from vz.core import Scenario, scratch_dir

PROPERTY = "C13"
LEVEL = "exploration"
RULE = (
    "Random raw HTTP requests through Twisted's real server to the whole resource tree: 12 methods, existing and missing paths in many spellings, "
    "effective bodies, and absent, near-miss, misplaced, malformed and correct credentials. Without the token the answer must be 401 with the same "
    "content for every path, and database, redeemer, replica and recovery untouched; with it the request must get through. Distinct by "
    "(method, path, credential kind)."
)
ASSUMPTIONS = ["the token is the content of private/api_auth_token without surrounding white space"]

METHODS = [b"GET", b"PUT", b"POST", b"DELETE", b"HEAD", b"OPTIONS", b"PATCH", b"TRACE", b"PROPFIND", b"get", b"X", b"CONNECT"]

TOKEN_CHARS = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"


def world(rng, mon):
    clock = Clock()
    token = "".join(rng.choice(TOKEN_CHARS) for _ in range(43)) + "="
    r = web.NeverRedeemer(rng)
    n = web.ClientNode(scratch_dir(), r, clock, cli.when(clock), {"default-token-count": "16"}, token=token)
    n.redeemer = r
    v = cli.voucher_number(rng)
    assert n.post_json(b"PUT", b"/voucher", {"voucher": v.decode("ascii")}).code == 200
    n.voucher = v
    return n


def paths(rng, n):
    missing = cli.voucher_number(rng)
    base = rng.choice(
        [
            b"/", b"", b"/version", b"/voucher", b"/voucher/" + n.voucher, b"/voucher/" + missing, b"/voucher/short", b"/replicate",
            b"/recover", b"/lease-maintenance", b"/calculate-price", b"/nothing", b"/unblinded-token", b"/voucher/%ff%fe", b"/version/more",
            b"/voucher/" + n.voucher + b"/child", b"/recover/x",
        ]
    )
    how = rng.randrange(9)
    if how == 1:
        base = base + b"/"
    elif how == 2:
        base = base.replace(b"/", b"//", 1)
    elif how == 3 and len(base) > 2:
        i = rng.randrange(1, len(base))
        if base[i : i + 1] not in b"%/":
            base = base[:i] + b"%%%02x" % base[i] + base[i + 1 :]
    elif how == 4:
        base = base + b"?token=" + n.token.encode() + b"&authorization=tahoe-lafs%20" + n.token.encode()
    elif how == 5:
        base = b"/./" + base.lstrip(b"/")
    elif how == 6:
        base = b"/version/.." + base
    return base


def body_for(rng, path, n):
    if path.startswith(b"/voucher"):
        return json.dumps({"voucher": cli.voucher_number(rng).decode("ascii")}).encode()
    if path.startswith(b"/calc"):
        return b'{"version": 1, "sizes": [1, 2, 3]}'
    return rng.choice([b"", b"{}", b"x" * 50])


def b64(x):
    from base64 import b64encode

    return b64encode(x)


def bad_credentials(rng, n):
    """(kind, headers) which do not carry the right token."""
    t = n.token.encode("utf-8")
    A = b"Authorization"
    S = b"tahoe-lafs "
    i = rng.randrange(len(t))
    flip = t[:i] + (b"A" if t[i : i + 1] != b"A" else b"B") + t[i + 1 :]
    k = rng.randrange(8)
    fakes = [
        ("none", []),
        ("empty", [(A, b"")]),
        ("scheme-only", [(A, b"tahoe-lafs")]),
        ("empty-token", [(A, S)]),
        ("prefix", [(A, S + t[:-1])]),
        ("prefix1", [(A, S + t[: rng.randrange(len(t))])]),
        ("suffix", [(A, S + t[1:])]),
        ("longer", [(A, S + t + b"A")]),
        ("padded", [(A, S + t + b"=")]),
        ("doubled", [(A, S + t + t)]),
        ("flipped", [(A, S + flip)]),
        ("case", [(A, S + t.swapcase())]),
        ("last", [(A, S + t[:-2] + (b"A" if t[-2:-1] != b"A" else b"B") + t[-1:])]),
        ("first", [(A, S + (b"A" if t[:1] != b"A" else b"B") + t[1:])]),
        ("reversed", [(A, S + t[::-1])]),
        ("extra-word", [(A, S + t + b" x")]),
        ("before-word", [(A, S + b"x " + t)]),
        ("nul", [(A, S + t + b"\x00")]),
        ("high", [(A, S + t[:-1] + bytes([0x80 | t[-1]]))]),
        ("basic", [(A, b"Basic " + b64(b"tahoe-lafs:" + t))]),
        ("basic-user", [(A, b"Basic " + b64(t + b":"))]),
        ("bearer", [(A, b"Bearer " + t)]),
        ("scheme-prefix", [(A, b"tahoe " + t)]),
        ("scheme-longer", [(A, b"tahoe-lafs-x " + t)]),
        ("no-space", [(A, b"tahoe-lafs" + t)]),
        ("token-only", [(A, t)]),
        ("colon", [(A, b"tahoe-lafs:" + t)]),
        ("other-header", [(b"X-Authorization", S + t)]),
        ("proxy", [(b"Proxy-Authorization", S + t)]),
        ("cookie", [(b"Cookie", b"Authorization=tahoe-lafs " + t)]),
        ("base64", [(A, S + b64(t))]),
        ("filename", [(A, S + b"api_auth_token")]),
        ("None", [(A, S + b"None")]),
        ("two-wrong", [(A, S + flip), (A, S + t[:-1])]),
        ("digest", [(A, b'Digest username="tahoe-lafs", response="' + t + b'"')]),
        ("quoted", [(A, S + b'"' + t + b'"')]),
    ]
    return rng.choice(fakes)


def snapshot(n):
    return n.db.dump(), len(n.redeemer.asked), list(n.calls)


def fuzz(rng, mon):
    n = world(rng, mon)
    reference = {}
    for _ in range(60):
        method = rng.choice(METHODS[:6]) if rng.random() < 0.8 else rng.choice(METHODS)
        path = paths(rng, n)
        body = body_for(rng, path, n) if method in (b"PUT", b"POST", b"PATCH") else b""
        headers = [(b"Content-Type", b"application/json")]
        if path.startswith(b"/recover") or rng.random() < 0.1:
            headers += [
                (b"Upgrade", b"websocket"), (b"Sec-WebSocket-Key", b64(b"x" * 16)), (b"Sec-WebSocket-Version", b"13"),
            ]
        kind, creds = bad_credentials(rng, n)
        before = snapshot(n)
        p, t = n.server.start(method, web.PREFIX + path, headers + creds, body)
        raw = t.value()
        if not raw:
            mon.violate("a request without the token is not answered", method, path, kind)
        r = web.Response(raw)
        mon.event("unauthorized-requests")
        mon.sig(method, path, kind)
        mon.note(method, path, kind, r.status)
        if r.code == 400 and kind in ("nul",):
            pass
        else:
            mon.equal(r.code, 401, "a request without the token is not answered 401 (%s %s, credentials: %s)" % (method, path, kind))
            look = (r.code, {k: v for k, v in r.headers.items() if k not in (b"date",)}, r.body)
            ref = reference.setdefault(method, (path, look))
            mon.check(look == ref[1], "the answer without the token depends on the path", method, path, look, ref)
        mon.check(snapshot(n) == before, "a request without the token has an effect", method, path, kind)
        secrets = [n.token.encode(), n.voucher]
        mon.check(not any(s in raw and s not in path for s in secrets), "an answer without the token reveals something")


def authorized(rng, mon):
    """With the token every endpoint answers as documented."""
    n = world(rng, mon)
    v = cli.voucher_number(rng).decode("ascii")
    tries = [
        (b"GET", b"/version", None, 200),
        (b"GET", b"/voucher", None, 200),
        (b"GET", b"/voucher/" + n.voucher, None, 200),
        (b"GET", b"/voucher/" + cli.voucher_number(rng), None, 404),
        (b"PUT", b"/voucher", {"voucher": v}, 200),
        (b"GET", b"/lease-maintenance", None, 200),
        (b"POST", b"/calculate-price", {"version": 1, "sizes": [1]}, 200),
        (b"GET", b"/nothing", None, 404),
    ]
    rng.shuffle(tries)
    for method, path, value, code in tries:
        r = n.post_json(method, path, value) if value is not None else n.call(method, path)
        mon.equal(r.code, code, "an authorized %s %s is answered wrongly" % (method, path))
        mon.event("authorized-requests")
        mon.sig(method, path)
    n.call(b"POST", b"/replicate")
    mon.equal(n.calls, ["setup"], "an authorized replication request does not get through")


def replaced(rng, mon):
    """The token in the file is the one which counts, also when it is replaced."""
    n = world(rng, mon)
    path = os.path.join(n.basedir, "private", "api_auth_token")
    old = []
    for _ in range(rng.randrange(2, 6)):
        for _ in range(rng.randrange(3)):
            mon.equal(n.call(b"GET", b"/version").code, 200, "the right token is refused")
        for bad in rng.sample(old, min(2, len(old))):
            before = snapshot(n)
            body = json.dumps({"voucher": cli.voucher_number(rng).decode("ascii")}).encode()
            r = n.call(b"PUT", b"/voucher", body, [(b"Content-Type", b"application/json")], token=bad)
            mon.equal(r.code, 401, "a token is accepted after it was replaced by another")
            mon.check(snapshot(n) == before, "a request with a token which was replaced has an effect")
            mon.event("replaced-tokens")
        old.append(n.token.encode())
        n.token = "".join(rng.choice(TOKEN_CHARS) for _ in range(43)) + "="
        with open(path + ".new", "wb") as f:
            f.write(n.token.encode())
        os.rename(path + ".new", path)
        mon.sig(len(old))


def odd_token(rng, mon):
    """Tokens of every shape are compared in full."""
    token = rng.choice(
        [
            "x", "0", "None", "é" * 5, "\u2603", "a+b/c==", "".join(rng.choice(TOKEN_CHARS) for _ in range(200)), "tahoe-lafs",
            "".join(rng.choice(TOKEN_CHARS) for _ in range(rng.randrange(2, 30))),
        ]
    )
    clock = Clock()
    r = web.NeverRedeemer(rng)
    # The file may end in white space.
    n = web.ClientNode(scratch_dir(), r, clock, cli.when(clock), token=token + rng.choice(["", "\n"]))
    good = token.encode("utf-8")
    mon.equal(n.call(b"GET", b"/version", token=good).code, 200, "the right token is refused")
    for bad in {good[:-1], good + b"a", b"", good[1:], good + good, good.swapcase(), good.lower(), good.upper(), good[:1]} - {good}:
        mon.equal(n.call(b"GET", b"/version", token=bad).code, 401, "a wrong token is accepted")
        mon.event("near-misses")
    mon.sig(token)


SCENARIOS = [
    Scenario("fuzz", fuzz, quick=160, thorough=4000, needs=["unauthorized-requests"]),
    Scenario("authorized", authorized, quick=24, thorough=200, needs=["authorized-requests"]),
    Scenario("replaced", replaced, quick=24, thorough=400, needs=["replaced-tokens"]),
    Scenario("odd_token", odd_token, quick=40, thorough=400, needs=["near-misses"]),
]
