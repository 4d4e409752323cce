"""Independent signers (honest and cheating), matching the verifiers in sigs.py."""

from . import cn, ed
from .ed import L
from .sigs import _dom


def _ord8(t):
    """order of a torsion point."""
    n, q = 1, t
    while not ed.is_id(q):
        q = ed.dbl(q)
        n *= 2
    return n


def mlsag_sign(rng, message, pk, xx, index, ds_rows, torsion=None):
    """torsion: low-order point added to the first key image; retries until the signature works out."""
    cols, rows = len(pk), len(pk[0])
    r = lambda: rng.randrange(1, L)
    hp = [[cn.hash_to_ec(ed.enc(pk[i][j])) for j in range(ds_rows)] for i in range(cols)]
    II = [ed.mul(hp[index][j], xx[j]) for j in range(ds_rows)]
    n = 1
    if torsion is not None:
        II[0] = ed.add(II[0], torsion)
        n = _ord8(torsion)
    while True:
        al = [r() for _ in range(rows)]
        ss = [[r() for _ in range(rows)] for _ in range(cols)]
        buf = message
        for j in range(rows):
            buf += ed.enc(pk[index][j]) + ed.enc(ed.mulb(al[j]))
            if j < ds_rows:
                buf += ed.enc(ed.mul(hp[index][j], al[j]))
        c = cn.hs(buf)
        cc = None
        i = (index + 1) % cols
        if i == 0:
            cc = c
        while i != index:
            buf = message
            for j in range(rows):
                e = ed.enc(pk[i][j])
                buf += e + ed.enc(ed.add(ed.mulb(ss[i][j]), ed.mul(pk[i][j], c)))
                if j < ds_rows:
                    buf += ed.enc(ed.add(ed.mul(hp[i][j], ss[i][j]), ed.mul(II[j], c)))
            c = cn.hs(buf)
            i = (i + 1) % cols
            if i == 0:
                cc = c
        if c % n:
            continue
        for j in range(rows):
            ss[index][j] = (al[j] - c * xx[j]) % L
        return II, ss, cc


def clsag_sign(rng, message, ring, pseudo, p, z, index, torsion=None, torsion_d=None):
    """-> (I, D/8, s, c1)"""
    n = len(ring)
    r = lambda: rng.randrange(1, L)
    hp = [cn.hash_to_ec(ed.enc(q)) for q, _ in ring]
    I = ed.mul(hp[index], p)
    D = ed.mul(hp[index], z)
    d8 = ed.mul(D, ed.inv(8))
    k = 1
    if torsion is not None:
        I = ed.add(I, torsion)
        k = _ord8(torsion)
    if torsion_d is not None:
        d8 = ed.add(d8, torsion_d)
    pb = b"".join(ed.enc(q) for q, _ in ring)
    cb = b"".join(ed.enc(c) for _, c in ring)
    tail = ed.enc(I) + ed.enc(d8) + ed.enc(pseudo)
    mu_p = cn.hs(_dom("CLSAG_agg_0") + pb + cb + tail)
    mu_c = cn.hs(_dom("CLSAG_agg_1") + pb + cb + tail)
    pre = _dom("CLSAG_round") + pb + cb + ed.enc(pseudo) + message
    while True:
        a = r()
        s = [r() for _ in range(n)]
        c = cn.hs(pre + ed.enc(ed.mulb(a)) + ed.enc(ed.mul(hp[index], a)))
        c1 = None
        i = (index + 1) % n
        if i == 0:
            c1 = c
        while i != index:
            cp, cc = mu_p * c % L, mu_c * c % L
            q, cm = ring[i]
            lp = ed.multiexp([(s[i], ed.B), (cp, q), (cc, ed.sub(cm, pseudo))])
            rp = ed.add(ed.multiexp([(s[i], hp[i]), (cc, D)]), ed.mul(I, cp))
            c = cn.hs(pre + ed.enc(lp) + ed.enc(rp))
            i = (i + 1) % n
            if i == 0:
                c1 = c
        if (mu_p * c % L) % k:
            continue
        s[index] = (a - c * (mu_p * p + mu_c * z)) % L
        return I, d8, s, c1


def ring_sign(rng, prefix, pubs, x, index, torsion=None):
    """CryptoNote ring signature -> (image, [(c, r)])"""
    hp = [cn.hash_to_ec(ed.enc(p)) for p in pubs]
    I = ed.mul(hp[index], x)
    k = 1
    if torsion is not None:
        I = ed.add(I, torsion)
        k = _ord8(torsion)
    while True:
        cs = [rng.randrange(L) for _ in pubs]
        rs = [rng.randrange(L) for _ in pubs]
        al = rng.randrange(1, L)
        buf = prefix
        tot = 0
        for i, p in enumerate(pubs):
            if i == index:
                buf += ed.enc(ed.mulb(al)) + ed.enc(ed.mul(hp[i], al))
            else:
                buf += ed.enc(ed.add(ed.mulb(rs[i]), ed.mul(p, cs[i])))
                buf += ed.enc(ed.add(ed.mul(hp[i], rs[i]), ed.mul(I, cs[i])))
                tot += cs[i]
        c = (cn.hs(buf) - tot) % L
        if c % k:
            continue
        cs[index] = c
        rs[index] = (al - c * x) % L
        return I, list(zip(cs, rs))


def schnorr_sign(rng, data, x):
    P = ed.mulb(x)
    k = rng.randrange(1, L)
    c = cn.hs(data + ed.enc(P) + ed.enc(ed.mulb(k)))
    return c, (k - c * x) % L, P


def borromean_range_sign(rng, amount, mask, bits=None):
    """-> (C, s0, s1, ee, Ci). bits: per position value put in the commitment (default: those of the amount)."""
    n = 64
    b = [(amount >> i) & 1 for i in range(n)]
    a = [rng.randrange(L) for _ in range(n - 1)]
    a.append((mask - sum(a)) % L)
    H2, h = [], cn.H
    for _ in range(n):
        H2.append(h)
        h = ed.dbl(h)
    val = bits or b
    Ci = [ed.add(ed.mulb(a[i]), ed.mul(H2[i], val[i] % L)) for i in range(n)]
    al = [rng.randrange(1, L) for _ in range(n)]
    s0, s1 = [0] * n, [0] * n
    buf = b""
    for i in range(n):
        l = ed.mulb(al[i])
        if b[i] == 0:
            s1[i] = rng.randrange(L)
            l = ed.add(ed.mulb(s1[i]), ed.mul(ed.sub(Ci[i], H2[i]), cn.hs(ed.enc(l))))
        buf += ed.enc(l)
    ee = cn.hs(buf)
    for i in range(n):
        if b[i] == 0:
            s0[i] = (al[i] - a[i] * ee) % L
        else:
            s0[i] = rng.randrange(L)
            cc = cn.hs(ed.enc(ed.add(ed.mulb(s0[i]), ed.mul(Ci[i], ee))))
            s1[i] = (al[i] - a[i] * cc) % L
    C = ed.ID
    for p in Ci:
        C = ed.add(C, p)
    return C, s0, s1, ee, Ci
