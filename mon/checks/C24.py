"""Bitwise (Borromean) range proofs are complete and sound."""

from .. import cross, gen
from ..ref import cn, ed, sigs, signers
from ..ref.ed import L
from .C21 import P2, S2, int_of, others, otherp, pt_of

RULE = (
    "every prover (plain, memory-saving, chunked, native) in every output encoding, amounts 0, 1, 2^k, 2^64-1 and random, mask chosen or supplied (also 0 and sums hitting it); proofs judged by an independent "
    "verifier, honest / altered (every scalar, bit commitment, total) / cheating (bit values other than 0 and 2^i, wrong totals, weights swapped) proofs of an independent prover judged by the project's verifier; "
    "bit nonces and bit commitments never repeat. distinct = (prover, encoding, amount class, mask mode, alteration)"
)
ASSUMPTIONS = ["unreduced encodings of a scalar denote the same scalar; proofs have 64 entries per vector (fixed arrays in the format)"]

_seen = {}


def fresh(c, p, what):
    c.observed += 1
    if p in _seen:
        c.fail("range proof randomness used twice", first=_seen[p], now=what)
    _seen[p] = what


def amounts(rng):
    k = rng.randrange(64)
    return rng.choice([(0, "0"), (1, "1"), (2**64 - 1, "max"), (2**63, "2^63"), (1 << k, "2^k"), ((1 << k) - 1, "2^k-1"), (rng.getrandbits(64), "rnd"), (rng.getrandbits(64), "rnd"), (rng.getrandbits(20), "small")])


def ints_of_bytes(R):
    """encoded RangeSig -> ints/points; None if not canonical."""
    e = lambda b: int.from_bytes(bytes(b), "little")
    s0 = [e(x) for x in R.asig.s0]
    s1 = [e(x) for x in R.asig.s1]
    return s0, s1, e(R.asig.ee), [ed.dec(bytes(x)) for x in R.Ci]


def to_rsig(s0, s1, ee, Ci, encoded):
    from monero_serialize import xmrtypes

    R = xmrtypes.RangeSig()
    R.asig = xmrtypes.BoroSig()
    if encoded:
        R.asig.s0 = [ed.scenc(x) for x in s0]
        R.asig.s1 = [ed.scenc(x) for x in s1]
        R.asig.ee = ed.scenc(ee)
        R.Ci = [ed.enc(p) for p in Ci]
    else:
        R.asig.s0 = [S2(x) for x in s0]
        R.asig.s1 = [S2(x) for x in s1]
        R.asig.ee = S2(ee)
        R.Ci = [P2(p) for p in Ci]
    return R


def proj(C, s0, s1, ee, Ci, encoded):
    from monero_glue.xmr import ring_ct

    try:
        r = ring_ct.ver_range(None if C is None else P2(C), to_rsig(s0, s1, ee, Ci, encoded), decode=encoded)
    except Exception:
        return False
    return bool(r)


def flat(b):
    b = bytes(b)
    assert len(b) == 32 * 193
    e = lambda i: int.from_bytes(b[32 * i : 32 * i + 32], "little")
    return [e(i) for i in range(64)], [e(64 + i) for i in range(64)], e(128), [ed.dec(b[32 * (129 + i) : 32 * (130 + i)]) for i in range(64)]


def prove(c, rng, amount, mask):
    """-> (name, C point, a int, (s0, s1, ee, Ci))."""
    from monero_glue.xmr import ring_ct

    kinds = ["orig", "mem", "chunked"] + (["native"] if c.backend == "tcry" else [])
    k = kinds[c.idx % len(kinds)]
    m = None if mask is None else S2(mask)
    if k == "chunked":
        C, a, (s0, s1, ee, Ci) = ring_ct.prove_range_chunked(amount, m)
        enc = "chunks"
        t = flat(bytes(s0) + bytes(s1) + bytes(ee) + bytes(Ci))
    else:
        enc = rng.choice(["encoded", "decoded", "bytes"])
        C, a, R = ring_ct.prove_range(amount, m, mem_opt=k != "orig", backend_impl=k == "native", decode=enc == "decoded", byte_enc=enc == "bytes")
        if enc == "bytes":
            t = flat(R)
        elif enc == "encoded":
            t = ints_of_bytes(R)
        else:
            t = [int_of(x) for x in R.asig.s0], [int_of(x) for x in R.asig.s1], int_of(R.asig.ee), [pt_of(p) for p in R.Ci]
    if m is not None:
        c.eq(int_of(m), mask, "proving modified the mask")
    return k, enc, pt_of(C), int_of(a), t


def fam_prove(c):
    from monero_glue.xmr import ring_ct

    rng = c.rng
    amount, cls = amounts(rng)
    mask = rng.choice([None, gen.rsc(rng), gen.rsc(rng), 0, 1, L - 1])
    k, enc, C, a, (s0, s1, ee, Ci) = prove(c, rng, amount, mask)
    w = dict(prover=k, enc=enc, amount=amount, mask=mask)
    if mask is not None:
        c.eq(a, mask, "returned mask differs from the supplied one", **w)
    c.ok(all(0 <= x < L for x in s0 + s1 + [ee]) and all(p is not None for p in Ci) and len(s0) == len(s1) == len(Ci) == 64, "malformed proof", **w)
    c.eq(ed.enc(C), ed.enc(cn.commit(a, amount)), "the proof commits to something else than the amount", **w)
    c.ok(sigs.borromean_range_verify(C, s0, s1, ee, Ci), "proof refused by the independent verifier", **w)
    encoded = rng.random() < 0.5
    c.ok(proj(C, s0, s1, ee, Ci, encoded), "proof refused by the project's verifier", **w)
    if c.idx % 3 == 0:
        # verification leaves the proof as it was: it verifies again and still reads the same
        R = to_rsig(s0, s1, ee, Ci, encoded)
        for i in range(2):
            try:
                r = bool(ring_ct.ver_range(P2(C), R, decode=encoded))
            except Exception as e:
                r = repr(e)
            c.eq(r, True, "a valid proof was refused the second time it was verified" if i else "proof refused by the project's verifier", **w)
        try:
            now = ints_of_bytes(R) if encoded else ([int_of(x) for x in R.asig.s0], [int_of(x) for x in R.asig.s1], int_of(R.asig.ee), [pt_of(p) for p in R.Ci])
            now = (now[0], now[1], now[2], [ed.enc(p) for p in now[3]])
        except Exception as e:
            now = repr(e)
        c.eq(now, (s0, s1, ee, [ed.enc(p) for p in Ci]), "verification altered the proof", **w)
    # per bit: fresh commitment (masks) and nonce commitment
    h2 = cn.H
    for i in range(64):
        fresh(c, ed.enc(Ci[i]), (c.idx, i, "Ci"))
        if (amount >> i) & 1:
            ll = ed.add(ed.mulb(s0[i]), ed.mul(Ci[i], ee))
            ch = cn.hs(ed.enc(ll))
            al = ed.add(ed.mulb(s1[i]), ed.mul(ed.sub(Ci[i], h2), ch))
            fresh(c, s0[i], (c.idx, i, "s0"))
        else:
            al = ed.add(ed.mulb(s0[i]), ed.mul(Ci[i], ee))
            fresh(c, s1[i], (c.idx, i, "s1"))
        fresh(c, ed.enc(al), (c.idx, i, "alpha"))
        h2 = ed.dbl(h2)
    c.count("proofs")
    c.distinct("prove", k, enc, cls, "mask" if mask is not None else "own", mask in (0, 1, L - 1))
    c.sample(dict(prover=k, enc=enc, amount=amount, mask=mask is not None))


def alter(rng, C, s0, s1, ee, Ci):
    s0, s1, Ci = list(s0), list(s1), list(Ci)
    i, j = rng.randrange(64), rng.randrange(64)
    k = rng.choice(["s0", "s0", "s1", "s1", "ee", "Ci", "Ci", "C", "C", "shift", "swapCi", "swaps0", "swap01", "noC-Ci"])
    if k == "s0":
        s0[i] = others(rng, s0[i])
    elif k == "s1":
        s1[i] = others(rng, s1[i])
    elif k == "ee":
        ee = others(rng, ee)
    elif k == "Ci":
        Ci[i] = otherp(rng, Ci[i])
    elif k == "C":
        C = otherp(rng, C)
    elif k == "shift":
        # same total
        d = rng.choice([ed.mul(ed.B, gen.rsc(rng)), cn.H, rng.choice(ed.torsion_points()[1:])])
        if i == j:
            j = (i + 1) % 64
        Ci[i], Ci[j] = ed.add(Ci[i], d), ed.sub(Ci[j], d)
    elif k == "swapCi":
        Ci[i], Ci[j] = Ci[j], Ci[i]
    elif k == "swaps0":
        s0[i], s0[j] = s0[j], s0[i]
    elif k == "swap01":
        s0[i], s1[i] = s1[i], s0[i]
    elif k == "noC-Ci":
        Ci[i] = otherp(rng, Ci[i])
        C = ed.ID
        for p in Ci:
            C = ed.add(C, p)
    return k, i, C, s0, s1, ee, Ci


def fam_alter(c):
    rng = c.rng
    amount, cls = amounts(rng)
    mask = gen.rsc(rng)
    t = signers.borromean_range_sign(rng, amount, mask)
    c.ok(sigs.borromean_range_verify(*t), "independent prover broken")
    c.ok(proj(*t, rng.random() < 0.5), "honest proof of an independent prover refused", amount=amount)
    for _ in range(4 if c.backend == "tcry" else 1):
        k, i, *u = alter(rng, *t)
        if sigs.borromean_range_verify(*u):
            c.count("alteration-without-effect")
            continue
        c.ok(not proj(*u, rng.random() < 0.5), "altered proof accepted: " + k, position=i, amount=amount)
        c.count("alterations")
        c.distinct("alter", k, cls)
        c.distinct("alter-position", k, i)


def fam_cheat(c):
    """False statements: the signature of a prover who put other values into the bits."""
    rng = c.rng
    amount, cls = amounts(rng)
    mask = gen.rsc(rng)
    v = [(amount >> i) & 1 for i in range(64)]
    i = rng.randrange(64)
    k = rng.choice(["two", "minus", "big", "weight", "total", "over"])
    if k == "two":
        v[i] = 2
    elif k == "minus":
        v[i] = L - 1
    elif k == "big":
        v[i] = gen.rsc(rng)
    elif k == "weight":
        # bit i carries the weight of another
        j = (i + 1 + rng.randrange(62)) % 64
        v[i] = pow(2, j, L) * pow(pow(2, i, L), L - 2, L) % L
    elif k == "over":
        v[63] = 2
    C, s0, s1, ee, Ci = signers.borromean_range_sign(rng, amount, mask, v)
    if k == "total":
        C = cn.commit(mask, (amount + rng.choice([1, 2**63])) % 2**64)
    if sigs.borromean_range_verify(C, s0, s1, ee, Ci):
        c.count("alteration-without-effect")
        return
    c.ok(not proj(C, s0, s1, ee, Ci, rng.random() < 0.5), "false range statement accepted: " + k, position=i, amount=amount)
    c.count("false-statements")
    c.distinct("cheat", k, cls)


def fam_codec(c):
    """The encodings of a proof carry the same proof."""
    from monero_glue.xmr import monero

    rng = c.rng
    s0 = [gen.rsc(rng) for _ in range(64)]
    s1 = [gen.rsc(rng) for _ in range(64)]
    ee = gen.rsc(rng)
    Ci = [ed.mulb(gen.rsc(rng)) for _ in range(64)]
    exp = b"".join(map(ed.scenc, s0)) + b"".join(map(ed.scenc, s1)) + ed.scenc(ee) + b"".join(map(ed.enc, Ci))
    R = to_rsig(s0, s1, ee, Ci, True)
    c.eq(bytes(monero.flatten_rsig(R)), exp, "flattened proof")
    R2 = monero.inflate_rsig(exp)
    c.eq(bytes(monero.flatten_rsig(R2)), exp, "inflated proof")
    D = monero.recode_rangesig(R, encode=False, copy=True)
    c.eq(bytes(monero.flatten_rsig(R)), exp, "decoding a copy changed the original")
    c.eq(([int_of(x) for x in D.asig.s0], [int_of(x) for x in D.asig.s1], int_of(D.asig.ee), [ed.enc(pt_of(p)) for p in D.Ci]), (s0, s1, ee, [ed.enc(p) for p in Ci]), "decoded proof")
    E = monero.recode_rangesig(D, encode=True)
    c.eq(bytes(monero.flatten_rsig(E)), exp, "re-encoded proof")
    c.count("codec")
    c.distinct("codec", c.idx)


FAMILIES = {
    "history": dict(fn=cross.c24, quick={"tcry": 2}, thorough={"tcry": 30}, backends=("tcry",)),
    "prove": dict(fn=fam_prove, quick={"tcry": 64, "py": 4}, thorough={"tcry": 1600, "py": 60}, backends=("tcry", "py"), weight=6),
    "alter": dict(fn=fam_alter, quick={"tcry": 60, "py": 3}, thorough={"tcry": 1500, "py": 60}, backends=("tcry", "py"), weight=8),
    "cheat": dict(fn=fam_cheat, quick={"tcry": 40, "py": 2}, thorough={"tcry": 1000, "py": 30}, backends=("tcry", "py"), weight=4),
    "codec": dict(fn=fam_codec, quick={"tcry": 4, "py": 2}, thorough={"tcry": 60, "py": 10}, backends=("tcry", "py"), weight=1),
}
