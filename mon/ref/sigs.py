"""Reference verifiers: MLSAG, CLSAG, LSAG-style ring signature, Schnorr, Borromean, Bulletproofs."""

from . import cn, ed
from .ed import L
from .keccak import keccak256


def _sc(b):
    """Canonical scalar or None."""
    v = int.from_bytes(b, "little")
    return v if len(b) == 32 and v < L else None


def mlsag_verify(message, pk, II, ss, cc, ds_rows):
    """pk[col][row] points; II points (ds_rows); ss[col][row] ints; cc int."""
    cols = len(pk)
    if cols < 2:
        return False
    rows = len(pk[0])
    if len(II) != ds_rows or len(ss) != cols:
        return False
    if any(len(c) != rows for c in pk) or any(len(c) != rows for c in ss):
        return False
    if any(not 0 <= s < L for c in ss for s in c) or not 0 <= cc < L:
        return False
    c = cc
    for i in range(cols):
        buf = message
        for j in range(rows):
            m = pk[i][j]
            me = ed.enc(m)
            lp = ed.add(ed.mulb(ss[i][j]), ed.mul(m, c))
            buf += me + ed.enc(lp)
            if j < ds_rows:
                rp = ed.add(ed.mul(cn.hash_to_ec(me), ss[i][j]), ed.mul(II[j], c))
                buf += ed.enc(rp)
        c = cn.hs(buf)
        if c == 0:
            return False
    return c == cc


def mlsag_simple_verify(message, ring, pseudo, ki, ss, cc):
    """ring: [(dest point, commitment point)]"""
    pk = [[d, ed.sub(m, pseudo)] for d, m in ring]
    return mlsag_verify(message, pk, [ki], ss, cc, 1)


def _dom(s):
    return s.encode() + b"\0" * (32 - len(s))


def clsag_verify(message, ring, pseudo, ki, d8, s, c1):
    """ring: [(P, C)]; d8: D/8 as serialized (point)."""
    n = len(ring)
    if len(s) != n or n < 1:
        return False
    if any(not 0 <= x < L for x in s) or not 0 <= c1 < L:
        return False
    if ed.is_id(ki):
        return False
    dd = ed.mul8(d8)
    if ed.is_id(dd):
        return False
    pb = b"".join(ed.enc(p) for p, _ in ring)
    cb = b"".join(ed.enc(c) for _, c in ring)
    tail = ed.enc(ki) + ed.enc(d8) + ed.enc(pseudo)
    mu_p = cn.hs(_dom("CLSAG_agg_0") + pb + cb + tail)
    mu_c = cn.hs(_dom("CLSAG_agg_1") + pb + cb + tail)
    pre = _dom("CLSAG_round") + pb + cb + ed.enc(pseudo) + message
    c = c1
    for i in range(n):
        p, cm = ring[i]
        ci = ed.sub(cm, pseudo)
        cp = mu_p * c % L
        cc = mu_c * c % L
        lp = ed.multiexp([(s[i], ed.B), (cp, p), (cc, ci)])
        rp = ed.multiexp([(s[i], cn.hash_to_ec(ed.enc(p))), (cp, ki), (cc, dd)])
        c = cn.hs(pre + ed.enc(lp) + ed.enc(rp))
        if c == 0:
            return False
    return c == c1


def ring_sig_verify(prefix, ki, pubs, sig):
    """CryptoNote ring signature; sig [(c, r)] ints."""
    if len(pubs) != len(sig) or not pubs:
        return False
    if not ed.in_prime_group(ki):
        return False
    buf = prefix
    tot = 0
    for p, (c, r) in zip(pubs, sig):
        if not (0 <= c < L and 0 <= r < L):
            return False
        lp = ed.add(ed.mulb(r), ed.mul(p, c))
        rp = ed.add(ed.mul(cn.hash_to_ec(ed.enc(p)), r), ed.mul(ki, c))
        buf += ed.enc(lp) + ed.enc(rp)
        tot += c
    return (cn.hs(buf) - tot) % L == 0


def schnorr_verify(data, c, r, pub):
    if not (0 <= c < L and 0 <= r < L):
        return False
    t = ed.add(ed.mul(pub, c), ed.mulb(r))
    return cn.hs(data + ed.enc(pub) + ed.enc(t)) == c


def borromean_verify(s0, s1, ee, p1, p2):
    """64 two-key rings (ints / points); ee int."""
    buf = b""
    for i in range(64):
        ll = ed.add(ed.mulb(s0[i]), ed.mul(p1[i], ee))
        ch = cn.hs(ed.enc(ll))
        lv = ed.add(ed.mulb(s1[i]), ed.mul(p2[i], ch))
        buf += ed.enc(lv)
    return cn.hs(buf) == ee


def borromean_range_verify(C, s0, s1, ee, Ci):
    h2 = cn.H
    p2 = []
    tot = ed.ID
    for i in range(64):
        p2.append(ed.sub(Ci[i], h2))
        tot = ed.add(tot, Ci[i])
        h2 = ed.dbl(h2)
    if not ed.eq(tot, C):
        return False
    return borromean_verify(s0, s1, ee, Ci, p2)


class BP:
    __slots__ = ("V", "A", "S", "T1", "T2", "taux", "mu", "L", "R", "a", "b", "t")

    def __init__(self, **kw):
        for k in kw:
            setattr(self, k, kw[k])


def bp_verify(bp, N=64):
    """bp: fields are 32-byte strings as serialized; V already divided by 8. True/False."""
    M0 = len(bp.V)
    if M0 < 1 or len(bp.L) != len(bp.R):
        return False
    M = 1
    while M < M0:
        M *= 2
    MN = M * N
    lg = MN.bit_length() - 1
    if len(bp.L) != lg:
        return False
    sc = {}
    for k in ("taux", "mu", "a", "b", "t"):
        v = _sc(getattr(bp, k))
        if v is None:
            return False
        sc[k] = v
    pts = {}
    for k in ("A", "S", "T1", "T2"):
        p = ed.dec(getattr(bp, k))
        if p is None:
            return False
        pts[k] = ed.mul8(p)
    Ls, Rs, Vs = [], [], []
    for src, dst in ((bp.L, Ls), (bp.R, Rs), (bp.V, Vs)):
        for e in src:
            p = ed.dec(e)
            if p is None:
                return False
            dst.append(ed.mul8(p))

    def mash(*a):
        return cn.hs(b"".join(x if isinstance(x, (bytes, bytearray)) else ed.scenc(x) for x in a))

    h = mash(*bp.V)
    y = h = mash(h, bp.A, bp.S)
    z = h = mash(y)
    x = h = mash(h, z, bp.T1, bp.T2)
    xip = h = mash(h, x, bp.taux, bp.mu, bp.t)
    if 0 in (y, z, x, xip):
        return False
    w = []
    for i in range(lg):
        h = mash(h, bp.L[i], bp.R[i])
        if h == 0:
            return False
        w.append(h)
    # (1) polynomial identity
    ysum = 0
    yp = 1
    for _ in range(MN):
        ysum += yp
        yp = yp * y % L
    two = (1 << N) - 1
    delta = (z - z * z) * ysum
    zz = z * z % L
    terms = []
    zj = zz
    for j in range(M):
        if j < M0:
            terms.append((zj, Vs[j]))
        zj = zj * z % L
        delta -= zj * two
    lhs = cn.commit(sc["taux"], sc["t"])
    rhs = ed.multiexp(terms + [(delta % L, cn.H), (x, pts["T1"]), (x * x % L, pts["T2"])])
    if not ed.eq(lhs, rhs):
        return False
    # (2) inner product argument
    winv = [ed.inv(v) for v in w]
    yinv = ed.inv(y)
    terms = [(1, pts["A"]), (x, pts["S"]), ((-sc["mu"]) % L, ed.B), ((sc["t"] - sc["a"] * sc["b"]) * xip % L, cn.H)]
    for i in range(lg):
        terms.append((w[i] * w[i] % L, Ls[i]))
        terms.append((winv[i] * winv[i] % L, Rs[i]))
    s = [1]
    for i in range(lg):
        s = [v for q in s for v in (q * winv[i] % L, q * w[i] % L)]
    yip = 1
    for i in range(MN):
        g, hh = cn.bp_gen(i)
        j = i // N
        terms.append(((-z - sc["a"] * s[i]) % L, g))
        hv = z + pow(z, 2 + j, L) * (1 << (i % N)) * yip - sc["b"] * yip * s[MN - 1 - i]
        terms.append((hv % L, hh))
        yip = yip * yinv % L
    return ed.is_id(ed.multiexp(terms))
