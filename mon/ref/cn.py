"""CryptoNote / Monero derivations, written from the protocol definition."""

import struct

from . import ed
from .ed import L, P
from .keccak import keccak256

A = 486662


def varint(n):
    out = bytearray()
    while n >= 0x80:
        out.append((n & 0x7F) | 0x80)
        n >>= 7
    out.append(n)
    return bytes(out)


def hs(data):
    return int.from_bytes(keccak256(data), "little") % L


def _is_qr(x):
    x %= P
    return x == 0 or pow(x, (P - 1) // 2, P) == 1


def _sqrt(x):
    x %= P
    r = pow(x, (P + 3) // 8, P)
    if r * r % P != x:
        r = r * ed.SQRTM1 % P
    assert r * r % P == x
    return r


def ge_fromfe(b):
    """The (cofactor not cleared) map of a 32-byte string to the curve."""
    u = int.from_bytes(b, "little") % P
    v = 2 * u * u % P
    w = (v + 1) % P
    x = (w * w - A * A * v) % P
    q = w * pow(x, P - 2, P) % P
    if _is_qr(q):
        rx = _sqrt(A * (A + 2) % P * v % P * q)
        if rx & 1:
            rx = P - rx
        z = -A * v % P
    else:
        rx = _sqrt(A * (A + 2) % P * q)
        if rx & 1 == 0:
            rx = P - rx
        z = -A % P
    zz = (z + w) % P
    y = (z - w) * pow(zz, P - 2, P) % P
    return ed.from_affine(rx, y)


def hash_to_ec(b):
    return ed.mul8(ge_fromfe(keccak256(b)))


H = ed.dec(bytes.fromhex("8b655970153799af2aeadc9ff1add0ea6c7251d54154cfa92c173a0dd39c1f94"))


def _hp3(b):
    return hash_to_ec(b)


_GEN = {}


def bp_gen(i):
    """(G_i, H_i) vector commitment generators."""
    r = _GEN.get(i)
    if r is None:

        def e(j):
            return hash_to_ec(keccak256(ed.enc(H) + b"bulletproof" + varint(j)))

        r = _GEN[i] = (e(2 * i + 1), e(2 * i))
    return r


def derivation(pub, sec):
    return ed.mul8(ed.mul(pub, sec))


def deriv_scalar(d, i):
    return hs(ed.enc(d) + varint(i))


def derive_pub(d, i, base):
    return ed.add(ed.mulb(deriv_scalar(d, i)), base)


def derive_sec(d, i, base):
    return (base + deriv_scalar(d, i)) % L


def subaddr_m(view_sec, major, minor):
    return hs(b"SubAddr\0" + ed.scenc(view_sec) + struct.pack("<II", major, minor))


def subaddr_pub(view_sec, spend_pub, major, minor):
    """(D, C) of a subaddress; (0,0) is the main address."""
    if (major, minor) == (0, 0):
        return spend_pub, ed.mulb(view_sec)
    d = ed.add(spend_pub, ed.mulb(subaddr_m(view_sec, major, minor)))
    return d, ed.mul(d, view_sec)


def key_image(sec, pub=None):
    pub = ed.enc(ed.mulb(sec)) if pub is None else pub
    return ed.mul(hash_to_ec(pub), sec)


def commit(mask, amount):
    return ed.add(ed.mulb(mask), ed.mul(H, amount % L))


def commitment_mask(shared):
    """shared: 32-byte encoding of the output's shared scalar."""
    return hs(b"commitment_mask" + shared)


def amount_key(shared):
    return keccak256(b"amount" + shared)


def xor8(a, k):
    return bytes(x ^ y for x, y in zip(a[:8], k[:8]))


def pid8_key(deriv):
    return keccak256(ed.enc(deriv) + b"\x8d")


def kdf_h(d, i):
    return deriv_scalar(d, i)
