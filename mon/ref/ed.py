"""Edwards25519 reference arithmetic (extended coordinates, Python integers)."""

P = 2 ** 255 - 19
L = 2 ** 252 + 27742317777372353535851937790883648493
D = (-121665 * pow(121666, P - 2, P)) % P
D2 = 2 * D % P
SQRTM1 = pow(2, (P - 1) // 4, P)
ID = (0, 1, 1, 0)


def add(p, q):
    x1, y1, z1, t1 = p
    x2, y2, z2, t2 = q
    a = (y1 - x1) * (y2 - x2) % P
    b = (y1 + x1) * (y2 + x2) % P
    c = t1 * D2 * t2 % P
    d = 2 * z1 * z2 % P
    e = b - a
    f = d - c
    g = d + c
    h = b + a
    return (e * f % P, g * h % P, f * g % P, e * h % P)


def dbl(p):
    x1, y1, z1, _ = p
    a = x1 * x1 % P
    b = y1 * y1 % P
    c = 2 * z1 * z1 % P
    h = a + b
    e = h - (x1 + y1) * (x1 + y1) % P
    g = a - b
    f = c + g
    return (e * f % P, g * h % P, f * g % P, e * h % P)


def neg(p):
    return (P - p[0] if p[0] else 0, p[1], p[2], P - p[3] if p[3] else 0)


def sub(p, q):
    return add(p, neg(q))


def mul(p, k):
    """k*p for any non-negative integer k (never reduced: torsion matters)."""
    if k < 0:
        return mul(neg(p), -k)
    if k == 0:
        return ID
    tab = [ID, p]
    for _ in range(14):
        tab.append(add(tab[-1], p))
    r = ID
    for i in range((k.bit_length() + 3) // 4 * 4 - 4, -1, -4):
        if r is not ID:
            r = dbl(dbl(dbl(dbl(r))))
        w = (k >> i) & 15
        if w:
            r = add(r, tab[w])
    return r


def mul8(p):
    return dbl(dbl(dbl(p)))


def eq(p, q):
    return (p[0] * q[2] - q[0] * p[2]) % P == 0 and (p[1] * q[2] - q[1] * p[2]) % P == 0


def on_curve(p):
    x, y, z, t = (v % P for v in p)
    if z == 0:
        return False
    return (x * y - t * z) % P == 0 and ((y * y - x * x) * z * z - z * z * z * z - D * x * x * y * y) % P == 0


def is_id(p):
    return p[0] % P == 0 and (p[1] - p[2]) % P == 0


def enc(p):
    zi = pow(p[2], P - 2, P)
    x = p[0] * zi % P
    y = p[1] * zi % P
    return (y | ((x & 1) << 255)).to_bytes(32, "little")


def affine(p):
    zi = pow(p[2], P - 2, P)
    return p[0] * zi % P, p[1] * zi % P


def from_affine(x, y):
    return (x, y, 1, x * y % P)


def dec(b, canonical=True):
    """Point or None. canonical=True refuses y >= p and the encoding of -0."""
    if len(b) != 32:
        return None
    n = int.from_bytes(b, "little")
    sign = n >> 255
    y = n & ((1 << 255) - 1)
    if y >= P:
        if canonical:
            return None
        y %= P
    u = (y * y - 1) % P
    v = (D * y * y + 1) % P
    x = u * pow(v, 3, P) % P * pow(u * pow(v, 7, P) % P, (P - 5) // 8, P) % P
    vxx = v * x * x % P
    if vxx != u:
        if vxx != (-u) % P:
            return None
        x = x * SQRTM1 % P
    if x == 0 and sign:
        if canonical:
            return None
    if (x & 1) != sign:
        x = (-x) % P
    return (x, y, 1, x * y % P)


B = dec((4 * pow(5, P - 2, P) % P).to_bytes(32, "little"))
assert B and B[0] % 2 == 0

_BT = []


def _init_bt():
    q = B
    for _ in range(64):
        row = [ID]
        for _j in range(15):
            row.append(add(row[-1], q))
        _BT.append(row)
        q = mul(q, 16)


def mulb(k):
    """k*B with a fixed-base table."""
    if not _BT:
        _init_bt()
    k %= L
    r = ID
    i = 0
    while k:
        w = k & 15
        if w:
            r = add(r, _BT[i][w])
        k >>= 4
        i += 1
    return r


def in_prime_group(p):
    return is_id(mul(p, L))


def multiexp(pairs):
    """sum k_i * P_i (Straus for few, Pippenger for many)."""
    pairs = [(k, p) for k, p in pairs if k]
    if not pairs:
        return ID
    n = len(pairs)
    c = 4 if n < 32 else (6 if n < 200 else 8)
    bits = max(k.bit_length() for k, _ in pairs)
    r = ID
    mask = (1 << c) - 1
    for w in range((bits + c - 1) // c - 1, -1, -1):
        if r is not ID:
            for _ in range(c):
                r = dbl(r)
        buckets = {}
        sh = w * c
        for k, p in pairs:
            i = (k >> sh) & mask
            if i:
                q = buckets.get(i)
                buckets[i] = p if q is None else add(q, p)
        if not buckets:
            continue
        run = ID
        acc = ID
        for i in range(max(buckets), 0, -1):
            q = buckets.get(i)
            if q is not None:
                run = add(run, q)
            acc = add(acc, run)
        r = add(r, acc)
    return r


# the eight torsion points
def torsion_points():
    import hashlib

    i = 0
    out = None
    while True:
        h = hashlib.sha256(b"tors%d" % i).digest()
        i += 1
        q = dec(h[:31] + bytes([h[31] & 0x7F]))
        if q is None:
            continue
        t = mul(q, L)
        # order exactly 8?
        if not is_id(dbl(dbl(t))):
            out = t
            break
    res = [ID]
    for _ in range(7):
        res.append(add(res[-1], out))
    return res


def scenc(x):
    return (x % L).to_bytes(32, "little")


def scdec(b):
    return int.from_bytes(b, "little")


def inv(x):
    return pow(x, L - 2, L)
