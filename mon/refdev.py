"""Reference device: answers the requests the emulated device does not implement (recovery of transaction keys,
live refresh), computed with the reference crypto only."""

import hashlib

from cryptography.exceptions import InvalidTag
from cryptography.hazmat.primitives.ciphers.aead import ChaCha20Poly1305

from . import gen
from .ref import cn, ed, keccak
from .ref.ed import L
from .ref.keccak import keccak256


def M():
    from monero_glue import messages

    return messages


def hmac(key, msg):
    """HMAC over Keccak-256 (rate 136)"""
    if len(key) > 136:
        key = keccak256(key)
    key = key + bytes(136 - len(key))
    return keccak256(bytes(x ^ 0x5C for x in key) + keccak256(bytes(x ^ 0x36 for x in key) + msg))


def k2(x):
    return keccak256(keccak256(x))


def device_key(spend, prefix_hash, salt, rand_mult):
    r = (spend + int.from_bytes(rand_mult, "little")) % L
    return hmac(bytes(salt), k2(ed.scenc(r) + bytes(prefix_hash)))


def host_key(view, prefix, salt):
    return hmac(bytes(salt), k2(ed.scenc(view) + bytes(prefix)))


def unpack(key, blob):
    """plaintext or None"""
    blob = bytes(blob)
    if len(blob) < 28:
        return None
    try:
        return ChaCha20Poly1305(key).decrypt(blob[:12], blob[12:], None)
    except InvalidTag:
        return None


def pack(rng, key, plain):
    n = gen.rb(rng, 12)
    return n + ChaCha20Poly1305(key).encrypt(n, bytes(plain), None)


def ring_sig1(rng, ki, P, x):
    """single-member ring signature over the key image"""
    k = gen.rsc(rng)
    Pe = ed.enc(P)
    c = cn.hs(ki + ed.enc(ed.mulb(k)) + ed.enc(ed.mul(cn.hash_to_ec(Pe), k)))
    return c, (k - c * x) % L


class RefDevice:
    def __init__(self, rng, w):
        self.rng, self.w = rng, w
        self.log = []

    def failure(self, why):
        return M().Failure(message=why)

    async def get_tx_key(self, m):
        self.log.append(m)
        plain = unpack(device_key(self.w.b, m.tx_prefix_hash, m.salt1, m.salt2), m.tx_enc_keys)
        if plain is None:
            return self.failure("cannot open")
        salt = gen.rb(self.rng, 32)
        k = host_key(self.w.a, m.tx_prefix_hash, salt)
        if not m.reason:
            return M().MoneroGetTxKeyAck(salt=salt, tx_keys=pack(self.rng, k, plain))
        V = ed.dec(bytes(m.view_public_key))
        der = b"".join(ed.enc(ed.mul(V, int.from_bytes(plain[i : i + 32], "little"))) for i in range(0, len(plain), 32))
        return M().MoneroGetTxKeyAck(salt=salt, tx_derivations=pack(self.rng, k, der))

    def live_key_image(self, m, wrong=None):
        """(ki, c, r) for a live-refresh step; wrong: how to cheat"""
        w = self.w
        D = ed.dec(bytes(m.recv_deriv))
        x = cn.derive_sec(D, m.real_out_idx or 0, w.sub_secret(m.sub_addr_major or 0, m.sub_addr_minor or 0))
        P = ed.mulb(x)
        if ed.enc(P) != bytes(m.out_key):
            return None
        ki = ed.enc(cn.key_image(x, ed.enc(P)))
        c, r = ring_sig1(self.rng, ki, P, x)
        return ki, c, r

    def live_ack(self, m, t):
        ki, c, r = t
        salt = gen.rb(self.rng, 32)
        k = host_key(self.w.a, bytes(m.out_key), salt)
        return M().MoneroLiveRefreshStepAck(salt=salt, key_image=pack(self.rng, k, ki + ed.scenc(c) + ed.scenc(r)))

    async def live_refresh(self, m):
        self.log.append(m)
        n = m.__class__.__name__
        if n == "MoneroLiveRefreshStartRequest":
            return M().MoneroLiveRefreshStartAck()
        if n == "MoneroLiveRefreshFinalRequest":
            return M().MoneroLiveRefreshFinalAck()
        t = self.live_key_image(m)
        if t is None:
            return self.failure("not mine")
        return self.live_ack(m, t)
