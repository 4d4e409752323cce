"""Elliptic-curve group operations are exact."""

from ..ref import cn, ed
from ..ref.ed import L, P

RULE = (
    "a pool of (library point, independent point) and (library scalar, integer) pairs grows by random operations of the crypto front end; each result is compared "
    "by encoding with the independent edwards25519, every operand is re-read afterwards, in-place forms are run with fresh, used and operand-aliased targets. Pools "
    "are seeded with the neutral element, all eight torsion points, mixed-order points, H, hashes, edge scalars. All pairs of torsion points are enumerated. "
    "Decoding is fed valid, invalid, short, offset and edge strings. distinct = (operation, kind of operands) keys"
)
ASSUMPTIONS = [
    "alternative encodings (unreduced y, sign of zero) are accepted by both backends as the element they denote; only strings denoting no element must be refused",
    "longer buffers are read by their first 32 bytes (offset interface)",
]

EDGE = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 255, 256, L - 1, L - 2, L - 3, L - 8, L - 16, (L - 1) // 2, (L + 1) // 2, 2**252, 2**252 - 1, 2**251, 2**128, 2**64, 2**64 - 1, 2**30 - 1, 2**30, 2**60, 2**26, 2**51, pow(8, -1, L)]
TORS = ed.torsion_points()


def scal(c, rng):
    from monero_glue.xmr import crypto

    r = rng.random()
    if r < 0.3:
        v = rng.choice(EDGE)
    elif r < 0.45:
        v = rng.getrandbits(rng.choice([8, 30, 31, 60, 64, 120, 128, 200]))
    elif r < 0.55:
        # runs of equal bits stress the windowed recodings
        v = 0
        while v.bit_length() < 250:
            n = rng.randrange(1, 40)
            v = (v << n) | (((1 << n) - 1) if rng.random() < 0.5 else 0)
            v |= 1
        v %= L
    else:
        v = rng.randrange(L)
    v %= L
    kind = "edge" if v in EDGE else "small" if v < 2**64 else "big"
    return crypto.decodeint(v.to_bytes(32, "little")), v, kind


def base_points(rng):
    ks = [rng.randrange(1, L) for _ in range(3)]
    pts = [(t, "neutral" if ed.is_id(t) else "torsion") for t in TORS]
    pts += [(ed.B, "base"), (ed.neg(ed.B), "base"), (cn.H, "prime")]
    for k in ks:
        q = ed.mulb(k)
        pts.append((q, "prime"))
        pts.append((ed.add(q, rng.choice(TORS[1:])), "mixed"))
    pts.append((ed.add(ed.B, rng.choice(TORS[1:])), "mixed"))
    pts.append((cn.hash_to_ec(rng.randbytes(32)), "prime"))
    return pts


class Pool:
    def __init__(self, c):
        from monero_glue.xmr import crypto

        self.c, self.cr, self.rng = c, crypto, c.rng
        self.pts = []
        for q, kind in base_points(c.rng):
            self.pts.append([crypto.decodepoint(ed.enc(q)), q, kind, ed.enc(q)])

    def pick(self):
        return self.rng.choice(self.pts)

    def put(self, p, q, kind):
        e = ed.enc(q)
        entry = [p, q, kind, e]
        if len(self.pts) < 40:
            self.pts.append(entry)
        else:
            self.pts[self.rng.randrange(12, 40)] = entry

    def check(self, what, p, q, ops, scs=()):
        got = bytes(self.cr.encodepoint(p))
        e = ed.enc(q)
        det = dict(operands=[o[3].hex() for o in ops], scalars=[s[1] for s in scs])
        self.c.ok(got == e, "%s returned another element" % what, got=got, expected=e, **det)
        for o in ops:
            self.c.ok(bytes(self.cr.encodepoint(o[0])) == o[3], "%s changed an operand" % what, **det)
        for s in scs:
            self.c.ok(bytes(self.cr.encodeint(s[0])) == s[1].to_bytes(32, "little"), "%s changed a scalar operand" % what, **det)
        self.c.count("operations")
        self.c.distinct(what, [o[2] for o in ops], [s[2] for s in scs])


def table(cr):
    """name -> (points, scalars, pure, into or None, model)"""
    m, a = ed.mul, ed.add
    inv8 = pow(8, -1, L)
    return {
        "point_add": (2, 0, cr.point_add, cr.point_add_into, lambda p, q: a(p, q)),
        "point_sub": (2, 0, cr.point_sub, cr.point_sub_into, lambda p, q: ed.sub(p, q)),
        "point_double": (1, 0, cr.point_double, cr.point_double_into, lambda p: ed.dbl(p)),
        "point_mul8": (1, 0, cr.point_mul8, cr.point_mul8_into, lambda p: ed.mul8(p)),
        "point_mulinv8": (1, 0, cr.point_mulinv8, None, lambda p: m(p, inv8)),
        "point_norm": (1, 0, cr.point_norm, None, lambda p: p),
        "scalarmult": (1, 1, lambda p, s: cr.scalarmult(p, s), lambda r, p, s: cr.scalarmult_into(r, p, s), lambda p, k: m(p, k)),
        "scalarmult_base": (0, 1, cr.scalarmult_base, cr.scalarmult_base_into, lambda k: ed.mulb(k)),
        "scalarmult_h": (0, 1, cr.scalarmult_h, None, lambda k: m(cn.H, k)),
        "add_keys2": (1, 2, lambda p, s, t: cr.add_keys2(s, t, p), lambda r, p, s, t: cr.add_keys2_into(r, s, t, p), lambda p, k, l: a(ed.mulb(k), m(p, l))),
        "add_keys3": (2, 2, lambda p, q, s, t: cr.add_keys3(s, p, t, q), lambda r, p, q, s, t: cr.add_keys3_into(r, s, p, t, q), lambda p, q, k, l: a(m(p, k), m(q, l))),
        "ge_double_scalarmult_base_vartime": (1, 2, lambda p, s, t: cr.ge_double_scalarmult_base_vartime(s, p, t), None, lambda p, k, l: a(m(p, k), ed.mulb(l))),
        "ge_double_scalarmult_base_vartime2": (2, 2, lambda p, q, s, t: cr.ge_double_scalarmult_base_vartime2(s, p, t, q), None, lambda p, q, k, l: a(m(p, k), m(q, l))),
        "ge_double_scalarmult_precomp_vartime": (2, 2, lambda p, q, s, t: cr.ge_double_scalarmult_precomp_vartime(s, cr.ge_dsm_precomp(p), t, cr.ge_dsm_precomp(q)), None, lambda p, q, k, l: a(m(p, k), m(q, l))),
        "ge_double_scalarmult_precomp_vartime2": (2, 2, lambda p, q, s, t: cr.ge_double_scalarmult_precomp_vartime2(s, cr.ge_dsm_precomp(p), t, cr.ge_dsm_precomp(q)), None, lambda p, q, k, l: a(m(p, k), m(q, l))),
    }


def fam_ops(c):
    from monero_glue.xmr import crypto

    pool = Pool(c)
    rng = c.rng
    T = table(crypto)
    names = sorted(T)
    steps = 220 if c.backend == "tcry" else 60
    for step in range(steps):
        name = names[step % len(names)] if step < 2 * len(names) else rng.choice(names)
        np, ns, pure, into, model = T[name]
        ops = [pool.pick() for _ in range(np)]
        if np == 2 and rng.random() < 0.12:
            ops[1] = ops[0]
        scs = [scal(c, rng) for _ in range(ns)]
        q = model(*([o[1] for o in ops] + [s[1] for s in scs]))
        args = [o[0] for o in ops] + [s[0] for s in scs]
        kind = ops[0][2] if len(ops) == 1 else "derived"
        if into is None or rng.random() < 0.5:
            r = pure(*args)
            pool.check(name, r, q, ops, scs)
            pool.put(r, q, kind)
        else:
            mode = rng.choice(["new", "used", "alias"]) if ops else rng.choice(["new", "used"])
            if mode == "alias":
                # the target is a private copy of an operand, used as operand and target
                j = rng.randrange(len(ops))
                priv = crypto.decodepoint(ops[j][3])
                same = [i for i in range(len(ops)) if ops[i] is ops[j]]
                a2 = list(args)
                for i in same:
                    a2[i] = priv
                into(priv, *a2)
                pool.check(name + "_into aliased", priv, q, [o for i, o in enumerate(ops) if i not in same], scs)
                pool.put(priv, q, kind)
            else:
                r = crypto.new_point() if mode == "new" else crypto.decodepoint(rng.choice(pool.pts)[3])
                r2 = into(r, *args)
                pool.check(name + "_into", r, q, ops, scs)
                if r2 is not None:
                    c.eq(bytes(crypto.encodepoint(r2)), ed.enc(q), "%s_into returned something else than its target" % name)
                pool.put(r, q, kind)
        if step % 5 == 0:
            x, y = pool.pick(), pool.pick()
            if rng.random() < 0.4:
                y = [crypto.point_sub(crypto.point_add(x[0], y[0]), y[0]), ed.sub(ed.add(x[1], y[1]), y[1]), "derived", x[3]]
            c.eq(bool(crypto.point_eq(x[0], y[0])), x[3] == y[3], "point equality", a=x[3], b=y[3])
            c.ok(crypto.ge_frombytes_vartime_check(x[0]) == 0, "a point of the curve fails the curve check", point=x[3])
            crypto.check_ed25519point(x[0])
            buf = bytearray(rng.randbytes(40))
            ref = bytes(buf)
            off = rng.randrange(9)
            crypto.encodepoint_into(buf, x[0], off)
            c.eq(bytes(buf), ref[:off] + x[3] + ref[off + 32 :], "encodepoint_into with an offset")
            c.count("comparisons")


def fam_torsion(c):
    from monero_glue.xmr import crypto

    lib = [crypto.decodepoint(ed.enc(t)) for t in TORS]
    shift = ed.mulb(c.rng.randrange(1, L)) if c.idx else ed.ID
    q = crypto.decodepoint(ed.enc(shift))
    for i, s in enumerate(TORS):
        for j, t in enumerate(TORS):
            x, y = ed.add(s, shift), t
            lx = crypto.point_add(lib[i], q)
            c.eq(bytes(crypto.encodepoint(crypto.point_add(lx, lib[j]))), ed.enc(ed.add(x, y)), "sum with a torsion point", i=i, j=j)
            c.eq(bytes(crypto.encodepoint(crypto.point_sub(lx, lib[j]))), ed.enc(ed.sub(x, y)), "difference with a torsion point", i=i, j=j)
            c.eq(bool(crypto.point_eq(lx, lib[j])), ed.eq(x, y), "equality of torsion points", i=i, j=j)
            c.count("pairs")
            c.distinct("tors", i, j, bool(c.idx))
        for k in EDGE if c.backend == "tcry" else c.rng.sample(EDGE, 5):
            sc = crypto.decodeint((k % L).to_bytes(32, "little"))
            c.eq(bytes(crypto.encodepoint(crypto.scalarmult(crypto.point_add(lib[i], q), sc))), ed.enc(ed.mul(ed.add(s, shift), k % L)), "multiple of a low-order point", i=i, k=k)
            c.count("operations")
    c.eq(bytes(crypto.identity(True)), ed.enc(ed.ID), "encoded neutral element")
    c.eq(bytes(crypto.encodepoint(crypto.identity())), ed.enc(ed.ID), "neutral element")
    r = crypto.scalarmult_base(crypto.sc_init(5))
    crypto.identity_into(r)
    c.eq(bytes(crypto.encodepoint(r)), ed.enc(ed.ID), "neutral element in place")
    c.eq(bytes(crypto.encodepoint(crypto.xmr_H())), ed.enc(cn.H), "H")
    for i, p in enumerate(crypto.gen_Hpow(64)):
        c.eq(bytes(crypto.encodepoint(p)), ed.enc(ed.mul(cn.H, 1 << i)), "power of H", i=i)
    for v in (0, 1, 2**63, 2**64 - 1, c.rng.getrandbits(64)):
        c.eq(bytes(crypto.encodepoint(crypto.scalarmult_h(v))), ed.enc(ed.mul(cn.H, v)), "multiple of H by an integer", v=v)
    # H handed out is never shared: changing it must not change the next one
    h = crypto.xmr_H()
    crypto.point_add_into(h, h, h)
    c.eq(bytes(crypto.encodepoint(crypto.xmr_H())), ed.enc(cn.H), "H after a caller changed its copy")


def fam_decode(c):
    from monero_glue.xmr import crypto

    rng = c.rng
    n = 400 if c.backend == "tcry" else 80
    for i in range(n):
        r = rng.random()
        if r < 0.5:
            b = rng.randbytes(32)
        elif r < 0.7:
            b = bytearray(ed.enc(ed.add(ed.mulb(rng.randrange(L)), rng.choice(TORS))))
            if rng.random() < 0.7:
                b[rng.randrange(32)] ^= 1 << rng.randrange(8)
            b = bytes(b)
        elif r < 0.85:
            y = rng.choice([0, 1, 2, 3, 4, 5, 6, P - 1, P - 2, P - 3, P - 4, rng.getrandbits(8), P - rng.getrandbits(8) - 1])
            b = (y | (rng.getrandbits(1) << 255)).to_bytes(32, "little")
        else:
            y = P + rng.randrange(19)
            b = (y | (rng.getrandbits(1) << 255)).to_bytes(32, "little")
        q = ed.dec(b, canonical=False)
        canon = q is not None and ed.enc(q) == b
        form = rng.choice([bytes, bytearray, lambda x: memoryview(bytes(x))])
        off = rng.choice([0, 0, 1, 7])
        buf = form(bytes(off) + b) if off else form(b)
        target = crypto.scalarmult_base(crypto.sc_init(7)) if rng.random() < 0.5 else None
        try:
            p = crypto.decodepoint(buf, off) if target is None else crypto.decodepoint_into(target, buf, off)
        except Exception:
            c.ok(q is None, "a valid point encoding was refused" if canon else "inconsistent refusal of an alternative encoding", encoding=b) if canon or q is None else c.count("alternative_refused")
            c.observed += 1
            c.count("refused")
            c.distinct("refused", target is None, off, q is None)
            continue
        c.ok(q is not None, "a string that encodes no point was decoded", encoding=b, decoded=crypto.encodepoint(p))
        if canon:
            c.eq(bytes(crypto.encodepoint(p)), b, "decoded point encodes differently")
            one = crypto.point_add(p, crypto.identity())
            c.eq(bytes(crypto.encodepoint(one)), b, "decoded point plus neutral")
            c.eq(bytes(crypto.encodepoint(crypto.point_double(p))), ed.enc(ed.dbl(q)), "double of a decoded point", encoding=b)
        else:
            c.eq(bytes(crypto.encodepoint(crypto.point_double(p))), ed.enc(ed.dbl(q)), "double of an alternatively encoded point", encoding=b)
        c.count("decoded")
        c.distinct("decoded", target is None, off, canon)
    for n in range(32):
        b = ed.enc(ed.B)[:n]
        c.refused(lambda: crypto.decodepoint(b), "a short string was decoded as a point", n=n)
        c.refused(lambda: crypto.decodepoint_into(crypto.new_point(), b), "a short string was decoded as a point", n=n)
    c.refused(lambda: crypto.decodepoint(bytes(10) + ed.enc(ed.B)[:30], 10), "a short string was decoded as a point")
    # a point off the curve is noticed by the curve check
    for _ in range(8):
        x, y = ed.affine(ed.mulb(rng.randrange(1, L)))
        if c.backend == "py":
            dx = rng.randrange(1, P)
            if (x + dx) % P == (P - x) % P:
                continue
            bad = crypto.Ge25519(((x + dx) % P, y, 1, (x + dx) * y % P))
        else:
            bad = crypto.decodepoint(ed.enc(ed.from_affine(x, y)))
            bad.x[rng.randrange(8)] ^= 1 << rng.randrange(20)
        c.refused(lambda: crypto.check_ed25519point(bad), "a point off the curve passed the curve check")
        c.count("off_curve")


FAMILIES = {
    "ops": dict(fn=fam_ops, quick={"tcry": 32, "py": 8}, thorough={"tcry": 1500, "py": 200}, backends=("tcry", "py"), weight=1),
    "torsion": dict(fn=fam_torsion, quick={"tcry": 2, "py": 2}, thorough={"tcry": 20, "py": 10}, backends=("tcry", "py"), weight=1),
    "decode": dict(fn=fam_decode, quick={"tcry": 16, "py": 4}, thorough={"tcry": 300, "py": 60}, backends=("tcry", "py"), weight=1),
}
