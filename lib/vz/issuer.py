"""
An issuer with real keys behind a real (in-memory) HTTP server, honest or not.
"""

import json
from base64 import b64decode, b64encode

import challenge_bypass_ristretto as cbr
from hyperlink import URL
from treq.testing import StubTreq
from twisted.web.resource import Resource

from _zkapauthorizer.controller import RistrettoRedeemer

from . import ppass


class Issuer(Resource):
    """Answers with whatever ``answer(request dict) -> (code, bytes)`` says."""

    isLeaf = True

    def __init__(self, answer):
        Resource.__init__(self)
        self.answer = answer
        self.seen = []

    def render(self, request):
        body = request.content.read()
        self.seen.append((request.method, request.uri, request.requestHeaders.getRawHeaders("content-type"), body))
        code, reply = self.answer(json.loads(body))
        request.setResponseCode(code)
        return reply


def redeemer(issuer, root="http://issuer.invalid/base/"):
    return RistrettoRedeemer(StubTreq(issuer), URL.from_text(root))


def grant(key, texts):
    """(reply dict, library objects) granting these blinded token texts."""
    blinded = [cbr.BlindedToken.decode_base64(t.encode("ascii")) for t in texts]
    signed = [key.sign(b) for b in blinded]
    proof = cbr.BatchDLEQProof.create(key, blinded, signed)
    return {
        "success": True,
        "public-key": ppass.public_key_text(key),
        "signatures": [s.encode_base64().decode("ascii") for s in signed],
        "proof": proof.encode_base64().decode("ascii"),
    }


def signed_by(key, token_text):
    """Was this unblinded token (text) made with this key?"""
    token = cbr.UnblindedToken.decode_base64(token_text.encode("ascii"))
    again = key.rederive_unblinded_token(token.preimage())
    return again.encode_base64().decode("ascii") == token_text


# Dishonest or broken replies.  Each takes (rng, key, other key, texts, earlier
# honest replies) and returns (code, body) or None when it does not apply.


def _j(d):
    return 200, json.dumps(d).encode("utf-8")


def wrong_key(rng, key, other, texts, past):
    d = grant(key, texts)
    d["public-key"] = ppass.public_key_text(other)
    return _j(d)


def foreign_proof(rng, key, other, texts, past):
    d = grant(key, texts)
    d["proof"] = grant(key, texts)["proof"] if rng.random() < 0 else grant(other, texts)["proof"]
    return _j(d)


def old_reply(rng, key, other, texts, past):
    if not past:
        return None
    return _j(rng.choice(past))


def old_proof(rng, key, other, texts, past):
    if not past:
        return None
    d = grant(key, texts)
    d["proof"] = rng.choice(past)["proof"]
    return _j(d)


def reordered(rng, key, other, texts, past):
    if len(set(texts)) < 2:
        return None
    d = grant(key, texts)
    s = d["signatures"]
    i, j = rng.sample(range(len(s)), 2)
    s[i], s[j] = s[j], s[i]
    return _j(d)


def permuted(rng, key, other, texts, past):
    if len(set(texts)) < 2:
        return None
    t = list(texts)
    i, j = rng.sample(range(len(t)), 2)
    t[i], t[j] = t[j], t[i]
    return _j(grant(key, t))


def missing(rng, key, other, texts, past):
    if len(texts) < 2:
        return None
    if rng.random() < 0.5:
        return _j(grant(key, texts[:-1]))
    d = grant(key, texts)
    del d["signatures"][rng.randrange(len(texts))]
    return _j(d)


def additional(rng, key, other, texts, past):
    extra = cbr.RandomToken.create().blind().encode_base64().decode("ascii")
    if rng.random() < 0.5:
        return _j(grant(key, list(texts) + [extra]))
    d = grant(key, texts)
    d["signatures"].append(rng.choice(d["signatures"]))
    return _j(d)


def repeated(rng, key, other, texts, past):
    if len(texts) < 2:
        return None
    return _j(grant(key, [texts[0]] * len(texts)))


def one_foreign(rng, key, other, texts, past):
    d = grant(key, texts)
    i = rng.randrange(len(texts))
    d["signatures"][i] = grant(other, texts)["signatures"][i]
    return _j(d)


def mixed_proof(rng, key, other, texts, past):
    """Signed by two keys, with a proof made over the mixture with one."""
    i = rng.randrange(len(texts))
    blinded = [cbr.BlindedToken.decode_base64(t.encode("ascii")) for t in texts]
    signed = [key.sign(b) for b in blinded]
    signed[i] = other.sign(blinded[i])
    try:
        proof = cbr.BatchDLEQProof.create(key, blinded, signed)
    except Exception:
        return None
    return _j(
        {
            "success": True,
            "public-key": ppass.public_key_text(key),
            "signatures": [s.encode_base64().decode("ascii") for s in signed],
            "proof": proof.encode_base64().decode("ascii"),
        }
    )


def corrupted(rng, key, other, texts, past):
    d = grant(key, texts)
    where = rng.choice(["public-key", "proof", "signatures"])
    text = d[where] if where != "signatures" else d[where][0]
    raw = bytearray(b64decode(text))
    raw[rng.randrange(len(raw))] ^= 1 << rng.randrange(8)
    new = b64encode(bytes(raw)).decode("ascii")
    if where == "signatures":
        d[where][0] = new
    else:
        d[where] = new
    return _j(d)


def misshapen(rng, key, other, texts, past):
    d = grant(key, texts)
    where = rng.choice(["public-key", "proof", "signatures"])
    how = rng.randrange(5)
    if how == 0:
        del d[where]
    elif how == 1:
        d[where] = rng.choice([None, 7, "", {}, [], "!!!", "\u2603"])
    elif how == 2 and where != "signatures":
        d[where] = d[where][:-5]
    elif how == 3 and where == "signatures":
        d[where] = [rng.choice([None, 7, "", "!!", "\u2603"])] * len(texts)
    else:
        d["success"] = rng.choice([False, None, 0, "", []])
    return _j(d)


def noise(rng, key, other, texts, past):
    return rng.choice(
        [
            (200, b""),
            (200, b"[]"),
            (200, b"null"),
            (200, b"true"),
            (200, b"\"text\""),
            (500, b"<html>no</html>"),
            (200, b"{"),
            (200, b"\xff\xfe\x00"),
            (404, b"{}"),
            (400, b'{"success": false}'),
            (400, b'{"success": false, "reason": 7}'),
            (400, b'{"success": false, "reason": "other"}'),
            (200, json.dumps({"success": True}).encode()),
        ]
    )


DISHONEST = [
    wrong_key, foreign_proof, old_reply, old_proof, reordered, permuted, missing, additional,
    repeated, one_foreign, mixed_proof, corrupted, misshapen, noise,
]
