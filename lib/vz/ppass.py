"""
Privacy Pass material made with the Ristretto library alone (the code under
test is not involved), so that the harness knows by construction which passes
are valid for which message.
"""

from base64 import b64decode, b64encode

import challenge_bypass_ristretto as cbr


def signing_key():
    return cbr.random_signing_key()


def public_key_text(key):
    return cbr.PublicKey.from_signing_key(key).encode_base64().decode("ascii")


def unblinded(key, n):
    """n fresh unblinded tokens (library objects) signed with key."""
    if n == 0:
        return []
    tokens = [cbr.RandomToken.create() for _ in range(n)]
    blinded = [t.blind() for t in tokens]
    signed = [key.sign(b) for b in blinded]
    proof = cbr.BatchDLEQProof.create(key, blinded, signed)
    return proof.invalid_or_unblind(tokens, blinded, signed, cbr.PublicKey.from_signing_key(key))


class Pool:
    """A supply of unblinded tokens: signing in batches is cheaper."""

    def __init__(self, key, batch=64):
        self.key, self.batch, self.have = key, batch, []

    def take(self, n):
        while len(self.have) < n:
            self.have.extend(unblinded(self.key, max(self.batch, n - len(self.have))))
        out, self.have = self.have[:n], self.have[n:]
        return out


def wire_pass(token, message):
    """The 177 byte wire form of the pass for this token and message."""
    sig = token.derive_verification_key_sha512().sign_sha512(message)
    return token.preimage().encode_base64() + b" " + sig.encode_base64()


def is_valid(key, wire, message):
    try:
        preimage, signature = wire.split(b" ")
        t = key.rederive_unblinded_token(cbr.TokenPreimage.decode_base64(preimage))
        s = cbr.VerificationSignature.decode_base64(signature)
        return not t.derive_verification_key_sha512().invalid_sha512(s, message)
    except Exception:
        return False


def corrupt(rng, wire):
    """Change one byte of the preimage or of the signature, keeping the shape."""
    pre, sig = wire.split(b" ")
    which = rng.randrange(2)
    raw = bytearray(b64decode(pre if which == 0 else sig))
    i = rng.randrange(len(raw))
    raw[i] ^= 1 << rng.randrange(8)
    text = b64encode(bytes(raw))
    return (text + b" " + sig) if which == 0 else (pre + b" " + text)


def garbage(rng):
    # 65 and 66 bytes also make 88 characters.
    a = b64encode(bytes(rng.randrange(256) for _ in range(rng.choice([64, 64, 65, 66]))))
    b = b64encode(bytes(rng.randrange(256) for _ in range(rng.choice([64, 64, 65, 66]))))
    return a + b" " + b
