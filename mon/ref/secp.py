"""Independent secp256k1, BIP32 and SLIP-0010 (ed25519) derivation."""

import hashlib
import hmac

P = 2**256 - 2**32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)


def add(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0:
            return None
        l = 3 * a[0] * a[0] * pow(2 * a[1], P - 2, P) % P
    else:
        l = (b[1] - a[1]) * pow(b[0] - a[0], P - 2, P) % P
    x = (l * l - a[0] - b[0]) % P
    return x, (l * (a[0] - x) - a[1]) % P


def mul(p, k):
    r = None
    k %= N
    while k:
        if k & 1:
            r = add(r, p)
        p = add(p, p)
        k >>= 1
    return r


def ser(p):
    return bytes([2 + (p[1] & 1)]) + p[0].to_bytes(32, "big")


def unser(b):
    """compressed or uncompressed point or None."""
    if len(b) == 33 and b[0] in (2, 3):
        x = int.from_bytes(b[1:], "big")
        if x >= P:
            return None
        y2 = (x * x * x + 7) % P
        y = pow(y2, (P + 1) // 4, P)
        if y * y % P != y2:
            return None
        return x, y if (y & 1) == (b[0] & 1) else P - y
    return None


def hash160(b):
    return hashlib.new("ripemd160", hashlib.sha256(b).digest()).digest()


def hm(k, m):
    d = hmac.new(k, m, hashlib.sha512).digest()
    return d[:32], d[32:]


class Node:
    __slots__ = ("k", "pub", "cc", "depth", "fp", "num")

    def __init__(self, k, pub, cc, depth=0, fp=b"\0\0\0\0", num=0):
        self.k, self.pub, self.cc, self.depth, self.fp, self.num = k, pub, cc, depth, fp, num

    def neuter(self):
        return Node(None, self.pub, self.cc, self.depth, self.fp, self.num)

    def ser(self, version):
        key = b"\0" + self.k.to_bytes(32, "big") if self.k is not None else ser(self.pub)
        return version.to_bytes(4, "big") + bytes([self.depth]) + self.fp + self.num.to_bytes(4, "big") + self.cc + key


def master(seed):
    l, r = hm(b"Bitcoin seed", seed)
    k = int.from_bytes(l, "big")
    return Node(k, mul(G, k), r)


def ckd(n, i, hardened):
    num = i + (1 << 31 if hardened else 0)
    nb = num.to_bytes(4, "big")
    if hardened:
        if n.k is None:
            return None
        data = b"\0" + n.k.to_bytes(32, "big") + nb
    else:
        data = ser(n.pub) + nb
    l, r = hm(n.cc, data)
    v = int.from_bytes(l, "big")
    fp = hash160(ser(n.pub))[:4]
    if n.k is not None:
        k = (n.k + v) % N
        return Node(k, mul(G, k), r, n.depth + 1, fp, num)
    return Node(None, add(mul(G, v), n.pub), r, n.depth + 1, fp, num)


def slip_master(seed):
    return hm(b"ed25519 seed", seed)


def slip_ckd(kc, i):
    return hm(kc[1], b"\0" + kc[0] + (i + (1 << 31)).to_bytes(4, "big"))
