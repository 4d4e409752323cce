"""Keccak-f[1600] written from the specification; the original Keccak padding (0x01), not SHA-3."""

_M = (1 << 64) - 1
_RC = [
    0x0000000000000001, 0x0000000000008082, 0x800000000000808A, 0x8000000080008000,
    0x000000000000808B, 0x0000000080000001, 0x8000000080008081, 0x8000000000008009,
    0x000000000000008A, 0x0000000000000088, 0x0000000080008009, 0x000000008000000A,
    0x000000008000808B, 0x800000000000008B, 0x8000000000008089, 0x8000000000008003,
    0x8000000000008002, 0x8000000000000080, 0x000000000000800A, 0x800000008000000A,
    0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
]
_ROT = [[0, 36, 3, 41, 18], [1, 44, 10, 45, 2], [62, 6, 43, 15, 61], [28, 55, 25, 21, 56], [27, 20, 39, 8, 14]]


def _rol(x, n):
    return ((x << n) | (x >> (64 - n))) & _M if n else x


def keccak_f(a):
    for rc in _RC:
        c = [a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4] for x in range(5)]
        dd = [c[(x - 1) % 5] ^ _rol(c[(x + 1) % 5], 1) for x in range(5)]
        for x in range(5):
            for y in range(5):
                a[x][y] ^= dd[x]
        b = [[0] * 5 for _ in range(5)]
        for x in range(5):
            for y in range(5):
                b[y][(2 * x + 3 * y) % 5] = _rol(a[x][y], _ROT[x][y])
        for x in range(5):
            for y in range(5):
                a[x][y] = b[x][y] ^ ((~b[(x + 1) % 5][y]) & _M & b[(x + 2) % 5][y])
        a[0][0] ^= rc
    return a


def _sponge(data, rate, suffix, outlen):
    data = bytearray(data)
    data.append(suffix)
    while len(data) % rate:
        data.append(0)
    data[-1] |= 0x80
    a = [[0] * 5 for _ in range(5)]
    for off in range(0, len(data), rate):
        for i in range(rate // 8):
            a[i % 5][i // 5] ^= int.from_bytes(data[off + 8 * i : off + 8 * i + 8], "little")
        keccak_f(a)
    out = b""
    for i in range(rate // 8):
        out += a[i % 5][i // 5].to_bytes(8, "little")
    return out[:outlen]


def keccak256_pure(data):
    return _sponge(data, 136, 0x01, 32)


def sha3_256_pure(data):
    return _sponge(data, 136, 0x06, 32)


try:  # a faster implementation for bulk work, used only after it agreed with the one above
    from Crypto.Hash import keccak as _k

    def _fast(data):
        h = _k.new(digest_bits=256)
        h.update(bytes(data))
        return h.digest()

    for _n in (0, 1, 135, 136, 137, 272, 500):
        _d = bytes((7 * _i + _n) & 0xFF for _i in range(_n))
        assert _fast(_d) == keccak256_pure(_d)
    keccak256 = _fast
except ImportError:  # pragma: no cover
    keccak256 = keccak256_pure


def hmac_keccak256(key, msg):
    block = 136
    if len(key) > block:
        key = keccak256(key)
    key = bytes(key) + b"\0" * (block - len(key))
    return keccak256(bytes(x ^ 0x5C for x in key) + keccak256(bytes(x ^ 0x36 for x in key) + bytes(msg)))


def pbkdf2_keccak(pw, salt, dklen, count):
    out = b""
    i = 1
    while len(out) < dklen:
        u = hmac_keccak256(pw, salt + i.to_bytes(4, "big"))
        t = int.from_bytes(u, "big")
        for _ in range(count - 1):
            u = hmac_keccak256(pw, u)
            t ^= int.from_bytes(u, "big")
        out += t.to_bytes(32, "big")
        i += 1
    return out[:dklen]
