"""Scalar arithmetic is exact modulo the group order."""

from ..ref.ed import L, P

RULE = (
    "random programs of scalar operations over a pool of (library scalar, integer); after each operation the encoded result is compared with integer arithmetic, "
    "all operands are re-read, in-place forms run with fresh, used and aliased targets. The pool is seeded with values at 0, the order, limb boundaries and random "
    "values; 32-byte strings of all kinds (incl. >= the order) are decoded with and without reduction. distinct = (operation, operand kinds, target kind)"
)
ASSUMPTIONS = [
    "zero: both backends report it as not acceptable to sc_check (stricter than Monero's); not asserted either way",
    "strings of other lengths than 32 are outside the interface",
]

EDGE = [0, 1, 2, 3, 8, 255, 256, L - 1, L - 2, (L - 1) // 2, (L + 1) // 2, 2**252, 2**252 - 1, 2**64, 2**64 - 1, 2**128 - 1, pow(8, -1, L)]
EDGE += [v for k in range(1, 9) for v in (2 ** (30 * k), 2 ** (30 * k) - 1)] + [v for k in range(1, 5) for v in (2 ** (56 * k), 2 ** (56 * k) - 1)]
EDGE = [v % L for v in EDGE]
RAW = [v % 2**256 for v in (0, 1, L - 1, L, L + 1, 2 * L - 1, 2 * L, 2 * L + 1, 15 * L, 16 * L - 1, 2**252, 2**253, 2**255 - 1, 2**255, 2**255 - 19, 2**256 - 1, 2**256 - 2, 2**256 - 2**64, 8 * L, 8 * L + 3)]


def b32(v):
    return v.to_bytes(32, "little")


def kind(v):
    return "zero" if v == 0 else "edge" if v in EDGE else "small" if v < 2**64 else "big"


def value(rng):
    r = rng.random()
    if r < 0.35:
        return rng.choice(EDGE)
    if r < 0.5:
        return rng.getrandbits(rng.choice([1, 8, 32, 64, 128, 200, 250]))
    if r < 0.6:
        return L - rng.getrandbits(rng.choice([3, 30, 64, 128])) - 1
    return rng.randrange(L)


def table(cr):
    return {
        "sc_add": (2, cr.sc_add, cr.sc_add_into, lambda a, b: a + b),
        "sc_sub": (2, cr.sc_sub, cr.sc_sub_into, lambda a, b: a - b),
        "sc_mul": (2, cr.sc_mul, cr.sc_mul_into, lambda a, b: a * b),
        "sc_mulsub": (3, cr.sc_mulsub, cr.sc_mulsub_into, lambda a, b, c: c - a * b),
        "sc_muladd": (3, cr.sc_muladd, cr.sc_muladd_into, lambda a, b, c: c + a * b),
        "sc_inv": (1, cr.sc_inv, cr.sc_inv_into, lambda a: pow(a, L - 2, L)),
        "sc_copy": (1, lambda a: cr.sc_copy(None, a), lambda r, a: cr.sc_copy(r, a), lambda a: a),
    }


def fam_ops(c):
    from monero_glue.xmr import crypto as cr

    rng = c.rng
    T = table(cr)
    names = sorted(T)
    pool = [[cr.decodeint(b32(v)), v] for v in rng.sample(EDGE, 10) + [value(rng) for _ in range(10)]]
    get = lambda s: bytes(cr.encodeint(s))
    for step in range(700):
        name = names[step % len(names)] if step < 3 * len(names) else rng.choice(names)
        n, pure, into, model = T[name]
        ops = [rng.choice(pool) for _ in range(n)]
        if n > 1 and rng.random() < 0.15:
            ops[1] = ops[0]
        v = model(*[o[1] for o in ops]) % L
        det = dict(op=name, operands=[o[1] for o in ops])
        if rng.random() < 0.5:
            mode = "pure"
            r = pure(*[o[0] for o in ops])
            rest = ops
        else:
            mode = rng.choice(["none", "new", "used", "alias"])
            args = [o[0] for o in ops]
            rest = ops
            if mode == "alias":
                j = rng.randrange(n)
                r = cr.decodeint(b32(ops[j][1]))
                rest = [o for o in ops if o is not ops[j]]
                args = [r if o is ops[j] else o[0] for o in ops]
            else:
                r = None if mode == "none" else cr.new_scalar() if mode == "new" else cr.decodeint(b32(rng.randrange(L)))
            r2 = into(r, *args)
            if r is None:
                r = r2
                c.ok(r is not None, "in-place form without a target returned nothing", **det)
            elif r2 is not None:
                c.eq(get(r2), b32(v), "in-place form returned something else than its target", mode=mode, **det)
        c.eq(get(r), b32(v), "wrong or unreduced result", mode=mode, **det)
        for o in rest:
            c.eq(get(o[0]), b32(o[1]), "operand changed", mode=mode, **det)
        c.count("operations")
        c.distinct(name, mode, [kind(o[1]) for o in ops])
        # predicates on the result
        c.eq(bool(cr.sc_isnonzero(r)), v != 0, "zero check", value=v)
        if v:
            c.ok(cr.sc_check(r) == 0, "reduced scalar fails the range check", value=v)
            cr.check_sc(r)
        o = rng.choice(pool)
        c.eq(bool(cr.sc_eq(r, o[0])), v == o[1], "scalar equality", a=v, b=o[1])
        c.eq(bool(cr.sc_eq(r, cr.decodeint(b32(v)))), True, "scalar equality", a=v)
        e = [r, v]
        if len(pool) < 40:
            pool.append(e)
        else:
            pool[rng.randrange(40)] = e
    z = cr.sc_0()
    c.eq(get(z), bytes(32), "zero scalar")
    x = cr.decodeint(b32(rng.randrange(L)))
    cr.sc_0_into(x)
    c.eq(get(x), bytes(32), "zero scalar in place")
    c.eq(get(cr.sc_inv_eight()), b32(pow(8, -1, L)), "inverse of eight")
    # constants handed out are not shared with results
    y = cr.sc_add(cr.sc_inv_eight(), cr.sc_0())
    cr.sc_add_into(y, y, y)
    c.eq(get(cr.sc_inv_eight()), b32(pow(8, -1, L)), "inverse of eight changed")
    for v in [0, 1, 2, 255, 2**30 - 1, 2**30, 2**32, 2**56, 2**60 - 1, 2**63, 2**64 - 1] + [rng.getrandbits(64) for _ in range(30)]:
        s = cr.sc_init(v)
        c.eq(get(s), b32(v), "scalar from an integer")
        c.eq(cr.sc_get64(s), v, "integer from a scalar")
        t = cr.decodeint(b32(rng.randrange(L)))
        cr.sc_init_into(t, v)
        c.eq(get(t), b32(v), "scalar from an integer in place")
        c.count("inits")
    for v in [2**64, 2**64 + 1, 2**200]:
        c.refused(lambda: cr.sc_init(v), "an integer above 64 bits was taken")
        c.refused(lambda: cr.sc_init_into(cr.new_scalar(), v), "an integer above 64 bits was taken")


def fam_decode(c):
    from monero_glue.xmr import crypto as cr

    rng = c.rng
    get = lambda s: bytes(cr.encodeint(s))
    for i in range(400):
        r = rng.random()
        n = rng.choice(RAW) if r < 0.3 else rng.getrandbits(256) if r < 0.6 else (rng.randrange(16) * L + rng.choice([0, 1, 2, L - 1, rng.getrandbits(60)])) % 2**256 if r < 0.8 else value(rng)
        b = b32(n)
        form = rng.choice([bytes, bytearray])
        off = rng.choice([0, 0, 3])
        buf = form(bytes(off) + b)
        d = dict(value=n)
        c.eq(get(cr.decodeint(buf, off)), b32(n % L), "decoded scalar is not the value modulo the order", **d)
        t = cr.decodeint(b32(rng.randrange(L)))
        r2 = cr.decodeint_into(t, buf, off)
        c.eq(get(t), b32(n % L), "scalar decoded in place", **d)
        c.eq(get(r2), b32(n % L), "scalar decoded in place", **d)
        u = cr.decodeint_into_noreduce(cr.decodeint(b32(rng.randrange(L))), buf, off)
        c.eq(get(u), b, "scalar decoded without reduction", **d)
        ok = cr.sc_check(u) == 0
        if n:
            c.eq(ok, n < L, "range check of a scalar", **d)
            if n >= L:
                c.refused(lambda: cr.check_sc(u), "an unreduced scalar passed the range check", **d)
        c.eq(bool(cr.sc_isnonzero(cr.decodeint(buf, off))), n % L != 0, "zero check of a decoded scalar", **d)
        out = bytearray(rng.randbytes(40))
        ref = bytes(out)
        off = rng.randrange(9)
        cr.encodeint_into(out, cr.decodeint(b), off)
        c.eq(bytes(out), ref[:off] + b32(n % L) + ref[off + 32 :], "scalar encoded in place", **d)
        c.count("decodings")
        c.distinct("decode", min(n // L, 16), off, form.__name__)
        # limb conversions used for the native types
        c.eq(cr.decode_modm(cr.encode_modm(n)), n % L, "30-bit limbs do not round-trip", **d)
        c.eq(cr.decode_ed25519(cr.encode_ed25519(n)), n % P, "field limbs do not round-trip", **d)
    m = [cr.random_scalar() for _ in range(20)]
    for s in m:
        t = cr.random_scalar_into(cr.new_scalar())
        for x in (s, t):
            c.ok(0 < int.from_bytes(get(x), "little") < L, "random scalar out of range")


FAMILIES = {
    "ops": dict(fn=fam_ops, quick={"tcry": 24, "py": 24}, thorough={"tcry": 1500, "py": 1500}, backends=("tcry", "py"), weight=1),
    "decode": dict(fn=fam_decode, quick={"tcry": 12, "py": 8}, thorough={"tcry": 300, "py": 300}, backends=("tcry", "py"), weight=1),
}
