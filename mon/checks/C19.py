"""Range proofs are complete and sound, also in batches."""

from .. import cross, gen
from ..ref import bpprove, cn, ed, sigs
from ..ref.ed import L

RULE = (
    "amounts at the edges and random, masks random/zero/edge, 1..16 outputs: project proofs (all prover variants) are judged by an independent verifier; honest proofs of an independent "
    "prover, altered proofs (every component, scalar overflow, low-order points, counts, order, foreign commitments) and false proofs made by a cheating independent prover (out-of-range values, "
    "non-bits, offsets that cancel between the two equations or between the proofs of a batch) are given to the project's verifier alone, alone without the memory optimisation, and at each place of a "
    "batch; verdicts must equal the independent verifier's. histories of related values (sharing parts, repeated, interleaved) in one process, each judged alone; distinct = (prover, outputs, alteration, place, verdict)"
)
ASSUMPTIONS = [
    "components have their serialized length of 32 bytes; alternative encodings of points are not judged",
    "proofs made with low-order components in their points (by a cheating prover, before the challenges) may be accepted or refused: they bind to the same amounts",
]

EDGE = [0, 1, 2, 3, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1, 2**64 - 2]


def amount(rng):
    r = rng.random()
    if r < 0.5:
        return rng.choice(EDGE)
    return rng.getrandbits(rng.choice([8, 20, 40, 63, 64]))


def mask(rng):
    r = rng.random()
    if r < 0.12:
        return rng.choice([0, 1, L - 1, 8])
    return gen.rsc(rng)


def S2(x):
    from monero_glue.xmr import crypto

    return crypto.decodeint(ed.scenc(x))


def to_ref(p):
    b = lambda x: bytes(x)
    seq = lambda v: [bytes(v.to(i)) if hasattr(v, "to") else bytes(v[i]) for i in range(len(v))]
    return sigs.BP(
        V=seq(p.V), A=b(p.A), S=b(p.S), T1=b(p.T1), T2=b(p.T2), taux=b(p.taux), mu=b(p.mu), L=seq(p.L), R=seq(p.R), a=b(p.a), b=b(p.b), t=b(p.t)
    )


def to_proj(p):
    from monero_glue.xmr import bulletproof as bp

    d = {k: getattr(p, k) for k in sigs.BP.__slots__}
    for k in ("V", "L", "R"):
        d[k] = [bytearray(x) for x in d[k]]
    for k in ("A", "S", "T1", "T2", "taux", "mu", "a", "b", "t"):
        d[k] = bytearray(d[k])
    return bp.Bulletproof(**d)


def copy(p):
    return sigs.BP(**{k: (list(getattr(p, k)) if k in "VLR" else getattr(p, k)) for k in sigs.BP.__slots__})


def verdict(proofs, optim=True):
    from monero_glue.xmr import bulletproof as bp

    try:
        r = bp.BulletProofBuilder().verify_batch([to_proj(p) for p in proofs], single_optim=optim)
    except Exception:
        return False
    return bool(r)


def judge(c, p, what, exp=None, companions=(), places=("single", "plain", "batch")):
    """All paths of the project's verifier against the independent one."""
    if exp is None:
        exp = sigs.bp_verify(p)
    for pl in places:
        if pl == "single":
            got = verdict([p])
        elif pl == "plain":
            got = verdict([p], optim=False)
        else:
            comp = list(companions)
            pos = c.rng.randrange(len(comp) + 1)
            pl = "batch%d/%d" % (pos, len(comp) + 1)
            got = verdict(comp[:pos] + [p] + comp[pos:])
        c.count("verdicts")
        c.distinct("judge", what, len(p.V), pl, got)
        c.eq(got, exp, "range proof %s %s (%s)" % ("accepted although false" if got else "refused although valid", what, pl), proof={k: getattr(p, k) for k in p.__slots__})
    return exp


def fam_prove(c):
    from monero_glue.xmr import bulletproof as bp, crypto, ring_ct
    from ..harness import run

    rng = c.rng
    big = [16, 9, 13, 5, 8]
    if c.backend == "py":
        n = 1
    else:
        n = big[c.idx // 12 % len(big)] if c.idx % 12 == 5 else rng.choice([1, 1, 2, 2, 3, 4])
    am, ms = [amount(rng) for _ in range(n)], [mask(rng) for _ in range(n)]
    how = rng.choice(["batch", "batch_", "random-masks", "ring_ct"] + (["prove", "range_bp", "range_bp"] if n == 1 else []))
    if n > 4:
        how = "batch"
    sv, ga = [S2(a) for a in am], [S2(m) for m in ms]
    b = bp.BulletProofBuilder()
    if how == "batch":
        p = b.prove_batch(sv, ga)
    elif how == "batch_":
        p = b.prove_batch_(sv, ga)
    elif how == "random-masks":
        b.use_det_masks = False
        p = b.prove_batch(sv, ga)
    elif how == "prove":
        p = b.prove(sv[0], ga[0])
    elif how == "ring_ct":
        p = run(ring_ct.prove_range_bp_batch(am, ga))
    else:
        given = rng.random() < 0.7
        C, m, p = run(ring_ct.prove_range_bp(am[0], ga[0] if given else None))
        m = int.from_bytes(bytes(crypto.encodeint(m)), "little")
        if given:
            c.eq(m, ms[0], "mask given for the proof was not used")
        ms = [m]
        c.eq(bytes(crypto.encodepoint(C)), ed.enc(cn.commit(m, am[0])), "commitment returned with the proof does not open to the amount")
    r = to_ref(p)
    c.eq([ed.enc(ed.mul8(ed.dec(v))) for v in r.V], [ed.enc(cn.commit(m, a)) for m, a in zip(ms, am)], "proof is not for commitments to these amounts and masks", amounts=am)
    nl = (64 * n - 1).bit_length()
    c.eq((len(r.L), len(r.R)), (nl, nl), "number of rounds in the proof")
    c.ok(sigs.bp_verify(r), "proof refused by the independent verifier", how=how, amounts=am, masks=ms, n=n)
    if n <= 4 or c.tier == "thorough":
        judge(c, r, "own proof", exp=True, places=("single", "plain") if c.backend != "py" else ("single",))
    C = [ring_ct.bp_comm_to_v(crypto.decodepoint(ed.enc(cn.commit(m, a)))) for m, a in zip(ms, am)]
    c.eq([bytes(crypto.encodepoint(x)) for x in C], r.V, "commitments scaled for the proof differ from the proof's own")
    # helper that recomputes the commitments from openings
    if n <= 2 and c.backend != "py":
        bad = rng.randrange(3)
        am2, ms2 = list(am), list(ms)
        j = rng.randrange(n)
        if bad == 1:
            am2[j] = (am2[j] + rng.choice([1, 2**32, 2**63])) % 2**64
        elif bad == 2:
            ms2[j] = (ms2[j] + rng.choice([1, L - 1, 2**200])) % L
        pp = to_proj(r)
        try:
            got = bool(run(ring_ct.verify_bp(pp, am2, [S2(m) for m in ms2])))
        except ValueError:
            got = False
        c.eq(got, bad == 0, "proof check against openings gives the wrong verdict", bad=bad)
        if rng.random() < 0.5:
            try:
                got = bool(ring_ct.ver_range(None, to_proj(r), use_bulletproof=True))
            except ValueError:
                got = False
            c.eq(got, True, "range check entry point refuses a valid proof")
    c.count("proofs")
    c.distinct("prove", how, n, am[0] in EDGE)
    c.sample(dict(how=how, outputs=n, amounts=am))


def fam_range(c):
    """Asked to prove a value that is out of range the project must not produce an acceptable proof."""
    from monero_glue.xmr import bulletproof as bp

    rng = c.rng
    n = 1 if c.backend == "py" else rng.choice([1, 1, 2])
    am = [amount(rng) for _ in range(n)]
    j = rng.randrange(n)
    am[j] = rng.choice([2**64, 2**64 + am[j], 2**65, 2**128, L - 1, L - 1 - am[j], 2**251])
    ms = [mask(rng) for _ in range(n)]
    try:
        p = to_ref(bp.BulletProofBuilder().prove_batch([S2(a) for a in am], [S2(m) for m in ms]))
    except Exception:
        c.count("refused-to-prove")
        c.ok(True, "")
        return
    want = [ed.enc(cn.commit(m, a)) for m, a in zip(ms, am)]
    if [ed.enc(ed.mul8(ed.dec(v))) for v in p.V] == want:
        c.ok(not sigs.bp_verify(p), "acceptable proof for a value out of range", amounts=am)
        judge(c, p, "out of range", exp=False, companions=[_good(rng)] if c.backend != "py" else [], places=("single",) if c.backend == "py" else ("single", "plain", "batch"))
    c.distinct("range", n, am[j].bit_length())


_pool = []


def _good(rng, n=None):
    """Honest proofs of the independent prover."""
    if n is None and len(_pool) >= 4:
        return rng.choice(_pool)
    n = n or rng.choice([1, 1, 2])
    p = bpprove.prove(rng, [amount(rng) for _ in range(n)], [mask(rng) for _ in range(n)])
    _pool.append(p)
    return p


def fam_honest(c):
    rng = c.rng
    n = 1 if c.backend == "py" else rng.choice([1, 2, 3, 4]) if c.idx % 6 else rng.choice([5, 8])
    if c.tier == "thorough" and c.idx % 16 == 3:
        n = rng.choice([9, 12, 16])
    p = bpprove.prove(rng, [amount(rng) for _ in range(n)], [mask(rng) for _ in range(n)])
    comp = [] if c.backend == "py" else [_good(rng) for _ in range(rng.choice([1, 2]))]
    judge(c, p, "honest", exp=True, companions=comp, places=("single",) if c.backend == "py" else ("single", "plain", "batch"))


SC = ["taux", "mu", "a", "b", "t"]
PT = ["A", "S", "T1", "T2"]


def other_point(rng, e):
    p = ed.dec(e)
    r = rng.randrange(6)
    if r == 0:
        return ed.enc(ed.mulb(gen.rsc(rng)))
    if r == 1:
        return ed.enc(ed.add(p, ed.B))
    if r == 2:
        return ed.enc(ed.neg(p))
    if r == 3:
        return ed.enc(ed.add(p, rng.choice(ed.torsion_points()[1:])))
    if r == 4:
        return ed.enc(rng.choice(ed.torsion_points()))
    return ed.enc(ed.add(p, cn.H))


def bad_enc(rng):
    while True:
        e = gen.rb(rng, 31) + bytes([rng.getrandbits(7)])
        if ed.dec(e) is None:
            return e


def other_scalar(rng, e):
    x = int.from_bytes(e, "little")
    r = rng.randrange(7)
    if r == 0:
        return ed.scenc(gen.rsc(rng))
    if r == 1:
        return ed.scenc((x + rng.choice([1, L - 1, 2, 2**252])) % L)
    if r == 2:
        return (x + L * rng.randrange(1, (2**256 - 1 - x) // L + 1)).to_bytes(32, "little")
    if r == 3:
        return bytes(32) if x else ed.scenc(1)
    if r == 4:
        return ed.scenc((-x) % L) if x else ed.scenc(7)
    if r == 5:
        return (x ^ (1 << rng.randrange(256))).to_bytes(32, "little")
    return (x + L).to_bytes(32, "little")


def alter(rng, p):
    q = copy(p)
    n = len(q.V)
    kind = rng.choice(["sc"] * 5 + ["pt"] * 4 + ["L", "L", "R", "R", "V", "V", "count", "count", "swap", "bad", "steal", "swapLR"])
    if kind == "sc":
        k = rng.choice(SC)
        setattr(q, k, other_scalar(rng, getattr(q, k)))
        return q, k
    if kind == "pt":
        k = rng.choice(PT)
        setattr(q, k, other_point(rng, getattr(q, k)))
        return q, k
    if kind in ("L", "R", "V"):
        v = getattr(q, kind)
        i = rng.randrange(len(v))
        v[i] = other_point(rng, v[i])
        return q, kind
    if kind == "count":
        k = rng.choice(["V+", "V+id", "V-", "L-", "LR-", "LR+", "R+", "LR0", "V0", "LR+id", "V*", "V17"])
        idp = ed.enc(ed.ID)
        if k == "V+":
            q.V.append(ed.enc(ed.mulb(gen.rsc(rng))))
        elif k == "V+id":
            q.V.append(idp)
        elif k == "V-":
            q.V.pop(rng.randrange(n))
        elif k == "V*":
            q.V.append(q.V[0])
        elif k == "V0":
            q.V = []
        elif k == "V17":
            q.V = q.V + [idp] * (rng.choice([17, 33, 34]) - n)
        elif k == "L-":
            q.L.pop()
        elif k == "LR-":
            i = rng.randrange(len(q.L))
            q.L.pop(i)
            q.R.pop(i)
        elif k == "LR+":
            q.L.append(ed.enc(ed.mulb(gen.rsc(rng))))
            q.R.append(ed.enc(ed.mulb(gen.rsc(rng))))
        elif k == "LR+id":
            q.L.append(idp)
            q.R.append(idp)
        elif k == "R+":
            q.R.append(idp)
        elif k == "LR0":
            q.L, q.R = [], []
        return q, k
    if kind == "swap":
        v = rng.choice([q.L, q.R] + ([q.V, q.V] if n > 1 else []))
        i, j = rng.sample(range(len(v)), 2)
        v[i], v[j] = v[j], v[i]
        return q, "swap"
    if kind == "swapLR":
        i = rng.randrange(len(q.L))
        q.L[i], q.R[i] = q.R[i], q.L[i]
        return q, "swapLR"
    if kind == "bad":
        k = rng.choice(PT + ["L", "R", "V"])
        e = bad_enc(rng)
        if k in "LRV":
            v = getattr(q, k)
            v[rng.randrange(len(v))] = e
        else:
            setattr(q, k, e)
        return q, "bad" + k
    o = _good(rng, n)
    k = rng.choice(PT + SC + ["V"])
    setattr(q, k, getattr(o, k))
    return q, "steal" + k


def fam_alter(c):
    rng = c.rng
    base = _good(rng, 1) if c.backend == "py" else _good(rng) if c.idx % 4 else _good(rng, rng.choice([1, 2, 3, 4]))
    for _ in range(2 if c.backend == "py" else 6):
        q, what = alter(rng, base)
        if what == "swap" and all(getattr(q, k) == getattr(base, k) for k in q.__slots__):
            continue
        big = len(q.V) > 16
        exp = False if big or not q.V else sigs.bp_verify(q)
        comp = [] if c.backend == "py" else [_good(rng) for _ in range(rng.choice([1, 2]))]
        pl = ("single",) if c.backend == "py" else rng.choice([("single", "batch"), ("single", "plain"), ("batch", "plain")])
        judge(c, q, "altered " + what, exp=exp, companions=comp, places=pl)
        c.count("alterations")


def fam_forge(c):
    rng = c.rng
    k = ["cancel", "out", "bits", "pair", "nonbit", "pair-mu", "t", "one-eq", "neg"][c.idx % 9]
    n = 1 if c.backend == "py" else rng.choice([1, 1, 2])
    am, ms = [amount(rng) for _ in range(n)], [mask(rng) for _ in range(n)]
    pl = ("single",) if c.backend == "py" else ("single", "plain", "batch")
    comp = [] if c.backend == "py" else [_good(rng) for _ in range(rng.choice([1, 2]))]
    e = rng.choice([1, 7, L - 1, gen.rsc(rng)])
    kw = {}
    bits = lambda v: [(v >> i) & 1 for i in range(64)]
    if k == "cancel":
        kw = dict(e_taux=e, e_mu=rng.choice([-e, e]))
    elif k == "one-eq":
        kw = rng.choice([dict(e_taux=e), dict(e_mu=e)])
    elif k == "t":
        kw = dict(e_t=e)
    elif k in ("out", "neg"):
        j = rng.randrange(n)
        am[j] = L - 1 - rng.getrandbits(20) if k == "neg" else rng.choice([2**64, 2**64 + rng.getrandbits(30), 2**100])
        kw = dict(fake_t=rng.random() < 0.7)
    elif k == "bits":
        kw = dict(bits=[bits(am[0] ^ (1 << rng.randrange(64)))], fake_t=rng.random() < 0.6)
    elif k == "nonbit":
        v = rng.choice([2**64 + 5, 2**70, L - 3])
        am[0] = v
        i = rng.randrange(64)
        b = [0] * 64
        b[i] = v * ed.inv(1 << i) % L
        kw = dict(bits=[b], fake_t=rng.random() < 0.6)
    if k in ("pair", "pair-mu"):
        if c.backend == "py":
            k = "one-eq"
            kw = dict(e_taux=e)
        else:
            # two false proofs whose errors would cancel if their weights were the same
            f = "e_taux" if k == "pair" else "e_mu"
            p = bpprove.prove(rng, am, ms, **{f: e})
            q = bpprove.prove(rng, [amount(rng) for _ in am], [mask(rng) for _ in am], **{f: -e})
            ps = [p, q] + comp
            rng.shuffle(ps)
            c.ok(not sigs.bp_verify(p) and not sigs.bp_verify(q), "reference prover broken")
            got = verdict(ps)
            c.eq(got, False, "batch with two false proofs whose errors cancel was accepted", kind=k)
            # error in one equation of the first, the other equation of the second
            q2 = bpprove.prove(rng, am, ms, **{"e_mu" if k == "pair" else "e_taux": rng.choice([e, -e])})
            ps = [p, q2] + comp
            rng.shuffle(ps)
            c.eq(verdict(ps), False, "batch with two false proofs whose errors cancel was accepted", kind=k + "x")
            c.count("verdicts", 2)
            c.distinct("forge", k, n)
            return
    p = bpprove.prove(rng, am, ms, **kw)
    exp = judge(c, p, "forged " + k, companions=comp, places=pl)
    c.ok(not exp, "reference verifier accepts a forged proof", kind=k)
    c.count("forgeries")
    c.distinct("forge", k, n, tuple(sorted(kw)))


FAMILIES = {
    "history": dict(fn=cross.c19, quick={"tcry": 2}, thorough={"tcry": 30}, backends=("tcry",)),
    "prove": dict(fn=fam_prove, quick={"tcry": 48, "py": 3}, thorough={"tcry": 1500, "py": 60}, backends=("tcry", "py"), weight=4),
    "range": dict(fn=fam_range, quick={"tcry": 12, "py": 1}, thorough={"tcry": 300, "py": 20}, backends=("tcry", "py"), weight=3),
    "honest": dict(fn=fam_honest, quick={"tcry": 16, "py": 2}, thorough={"tcry": 500, "py": 40}, backends=("tcry", "py"), weight=4),
    "alter": dict(fn=fam_alter, quick={"tcry": 56, "py": 4}, thorough={"tcry": 3000, "py": 100}, backends=("tcry", "py"), weight=4),
    "forge": dict(fn=fam_forge, quick={"tcry": 36, "py": 4}, thorough={"tcry": 1200, "py": 60}, backends=("tcry", "py"), weight=4),
}
