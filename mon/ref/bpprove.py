"""Independent range-proof prover, also able to produce specific false proofs. Field names as sigs.BP."""

from . import cn, ed, sigs
from .ed import L


def _mash(*a):
    return cn.hs(b"".join(x if isinstance(x, (bytes, bytearray)) else ed.scenc(x) for x in a))


I8 = ed.inv(8)


def _p8(terms):
    return ed.enc(ed.multiexp([(s * I8 % L, p) for s, p in terms]))


def prove(rng, values, masks, bits=None, e_taux=0, e_mu=0, e_t=0, fake_t=False, N=64, torsion=None, skip_r=False, wrong_y=False):
    """values/masks: what the commitments open to. bits: per output list of 64 'bits' (any scalars) proven,
    default the bits of values mod 2^64. e_*: offset put on a scalar before it is hashed.
    fake_t: t set to what the polynomial identity wants instead of <l, r>.
    torsion: {field: point} added to the encoded point before hashing."""
    r = lambda: rng.randrange(1, L)
    torsion = torsion or {}
    M = 1
    while M < len(values):
        M *= 2
    MN = M * N
    V = [_p8([(m, ed.B), (v % L, cn.H)]) for v, m in zip(values, masks)]

    def tors(k, e):
        return ed.enc(ed.add(ed.dec(e), torsion[k])) if k in torsion else e

    V = [tors(("V", i), v) for i, v in enumerate(V)]
    aL = []
    for j in range(M):
        if bits is not None and j < len(bits) and bits[j] is not None:
            aL += [x % L for x in bits[j]]
        else:
            v = values[j] % 2**64 if j < len(values) else 0
            aL += [(v >> i) & 1 for i in range(N)]
    aR = [(x - 1) % L for x in aL]
    sL, sR = [r() for _ in range(MN)], [r() for _ in range(MN)]
    G, H = zip(*(cn.bp_gen(i) for i in range(MN)))
    al, rho, t1_, t2_ = r(), r(), r(), r()
    A = tors("A", _p8([(al, ed.B)] + list(zip(aL, G)) + list(zip(aR, H))))
    S = tors("S", _p8([(rho, ed.B)] + list(zip(sL, G)) + list(zip(sR, H))))
    h = _mash(*V)
    y = h = _mash(h, A, S)
    z = h = _mash(y)
    l0 = [(a - z) % L for a in aL]
    r0, r1 = [], []
    yp = 1
    for i in range(MN):
        r0.append((yp * (aR[i] + z) + pow(z, 2 + i // N, L) * (1 << (i % N))) % L)
        r1.append(yp * sR[i] % L)
        yp = yp * y % L
    ip = lambda a, b: sum(p * q for p, q in zip(a, b)) % L
    t1 = (ip(l0, r1) + ip(sL, r0)) % L
    t2 = ip(sL, r1)
    T1 = tors("T1", _p8([(t1_, ed.B), (t1, cn.H)]))
    T2 = tors("T2", _p8([(t2_, ed.B), (t2, cn.H)]))
    x = h = _mash(h, z, T1, T2)
    l = [(a + s * x) % L for a, s in zip(l0, sL)]
    rr = [(a + s * x) % L for a, s in zip(r0, r1)]
    taux = (t1_ * x + t2_ * x * x + sum(pow(z, j + 2, L) * m for j, m in enumerate(masks)) + e_taux) % L
    mu = (al + rho * x + e_mu) % L
    t = ip(l, rr)
    if fake_t:
        ysum = sum(pow(y, i, L) for i in range(MN)) % L
        delta = (z - z * z) * ysum - sum(pow(z, 3 + j, L) for j in range(M)) * ((1 << N) - 1)
        t = (sum(pow(z, j + 2, L) * v for j, v in enumerate(values)) + delta + t1 * x + t2 * x * x) % L
    t = (t + e_t) % L
    xip = h = _mash(h, x, taux, mu, t)
    Q = ed.mul(cn.H, xip)
    yi = ed.inv(y)
    # generators kept as scalar combinations of the base ones: cheap folding in the exponent
    gs = [{i: 1} for i in range(MN)]
    hs, q = [], 1
    for i in range(MN):
        hs.append({i: q})
        q = q * yi % L
    a, b = l, rr
    Ls, Rs = [], []

    def comb(pairs, base):
        acc = {}
        for s, d in pairs:
            for i, c in d.items():
                acc[i] = (acc.get(i, 0) + s * c) % L
        return [(c, base[i]) for i, c in acc.items()]

    def fold(lo, hi, wl, wh):
        out = []
        for p, q in zip(lo, hi):
            d = {i: c * wl % L for i, c in p.items()}
            for i, c in q.items():
                d[i] = (d.get(i, 0) + c * wh) % L
            out.append(d)
        return out

    k = 0
    while len(a) > 1:
        n = len(a) // 2
        cL, cR = ip(a[:n], b[n:]), ip(a[n:], b[:n])
        Lp = _p8(comb(zip(a[:n], gs[n:]), G) + comb(zip(b[n:], hs[:n]), H) + [(cL, Q)])
        Rp = _p8(comb(zip(a[n:], gs[:n]), G) + comb(zip(b[:n], hs[n:]), H) + [(cR, Q)])
        Lp, Rp = tors(("L", k), Lp), tors(("R", k), Rp)
        Ls.append(Lp)
        Rs.append(Rp)
        w = h = _mash(h, Lp, Rp)
        wi = ed.inv(w)
        gs = fold(gs[:n], gs[n:], wi, w)
        hs = fold(hs[:n], hs[n:], w, wi)
        a = [(w * p + wi * q) % L for p, q in zip(a[:n], a[n:])]
        b = [(wi * p + w * q) % L for p, q in zip(b[:n], b[n:])]
        k += 1
    e = ed.scenc
    return sigs.BP(V=V, A=A, S=S, T1=T1, T2=T2, taux=e(taux), mu=e(mu), L=Ls, R=Rs, a=e(a[0]), b=e(b[0]), t=e(t))


def challenges(bp):
    h = _mash(*bp.V)
    y = h = _mash(h, bp.A, bp.S)
    z = h = _mash(y)
    x = h = _mash(h, z, bp.T1, bp.T2)
    xip = h = _mash(h, x, bp.taux, bp.mu, bp.t)
    w = []
    for p, q in zip(bp.L, bp.R):
        h = _mash(h, p, q)
        w.append(h)
    return y, z, x, xip, w
