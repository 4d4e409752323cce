"""Independent Monero base58 block codec and address codec."""

from .keccak import keccak256

A = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
SZ = {1: 2, 2: 3, 3: 5, 4: 6, 5: 7, 6: 9, 7: 10, 8: 11}
INV = {v: k for k, v in SZ.items()}
IDX = {c: i for i, c in enumerate(A)}

# network -> (standard, integrated, subaddress)
TAGS = {0: (18, 19, 42), 1: (53, 54, 63), 2: (24, 25, 36)}
BYTAG = {t: (n, k) for n, ts in TAGS.items() for k, t in enumerate(ts)}


def enc_block_val(v, n):
    out = bytearray()
    for _ in range(n):
        v, r = divmod(v, 58)
        out.append(A[r])
    assert v == 0
    return bytes(reversed(out))


def encode(b):
    out = b""
    for i in range(0, len(b), 8):
        blk = b[i : i + 8]
        out += enc_block_val(int.from_bytes(blk, "big"), SZ[len(blk)])
    return out


def decode(s):
    """bytes or None."""
    out = b""
    for i in range(0, len(s), 11):
        blk = s[i : i + 11]
        n = INV.get(len(blk))
        if n is None:
            return None
        v = 0
        for ch in blk:
            if ch not in IDX:
                return None
            v = v * 58 + IDX[ch]
        if v >> (8 * n):
            return None
        out += v.to_bytes(n, "big")
    return out


def addr_encode(tag, payload):
    b = bytes([tag]) + payload
    return encode(b + keccak256(b)[:4])


def addr_decode(s):
    """(net, kind 0 standard 1 integrated 2 subaddress, spend, view, pid) or None."""
    b = decode(s)
    if b is None or len(b) < 5:
        return None
    if keccak256(b[:-4])[:4] != b[-4:]:
        return None
    if b[0] not in BYTAG:
        return None
    net, kind = BYTAG[b[0]]
    p = b[1:-4]
    if len(p) != (72 if kind == 1 else 64):
        return None
    return net, kind, p[:32], p[32:64], p[64:] if kind == 1 else None
