"""Linkable ring signatures of inputs are complete, sound and linkable."""

from .. import cross, gen
from ..ref import cn, ed, sigs, signers
from ..ref.ed import L

RULE = (
    "rings of 2..16 members at every real position, one-row (simple) and multi-row (full) form, ordinary and multisig nonces; project signatures judged by an independent verifier, honest, altered and "
    "false signatures (wrong secrets, wrong commitment difference, images with low-order parts made by a cheating signer) judged by the project's verifier against the independent one; nonces extracted with the "
    "secrets never repeat. distinct = (form, ring size, position, alteration, verdict)"
)
ASSUMPTIONS = ["scalars reach the verifier decoded, hence reduced"]


def S2(x):
    from monero_glue.xmr import crypto

    return crypto.decodeint(ed.scenc(x % L))


def P2(p):
    from monero_glue.xmr import crypto

    return crypto.decodepoint(ed.enc(p))


def int_of(s):
    from monero_glue.xmr import crypto

    return int.from_bytes(bytes(crypto.encodeint(s)), "little")


def pt_of(p):
    from monero_glue.xmr import crypto

    return ed.dec(bytes(crypto.encodepoint(p)))


class Sig:
    __slots__ = ("msg", "pk", "II", "ss", "cc", "ds")

    def __init__(self, **k):
        for x in k:
            setattr(self, x, k[x])

    def copy(self):
        return Sig(msg=self.msg, pk=[list(c) for c in self.pk], II=list(self.II), ss=[list(c) for c in self.ss], cc=self.cc, ds=self.ds)

    def ref(self):
        return all(ed.in_prime_group(i) for i in self.II) and sigs.mlsag_verify(self.msg, self.pk, self.II, self.ss, self.cc, self.ds)


def to_mg(s):
    from monero_serialize import xmrtypes

    mg = xmrtypes.MgSig()
    mg.II = [P2(i) for i in s.II]
    mg.ss = [[S2(x) for x in c] for c in s.ss]
    mg.cc = S2(s.cc)
    return mg


def proj(s, pk=None):
    from monero_glue.xmr import mlsag2

    try:
        r = mlsag2.ver_mlsag_ext(s.msg, [[P2(p) for p in c] for c in (pk or s.pk)], to_mg(s), s.ds)
    except Exception:
        return False
    return bool(r)


def ringkeys(dest, mask):
    from monero_glue.messages.MoneroRctKeyPublic import MoneroRctKeyPublic

    return [MoneroRctKeyPublic(dest=ed.enc(d), commitment=ed.enc(m)) for d, m in zip(dest, mask)]


def ring_size(rng, tier):
    return rng.choice([2, 2, 3, 3, 4, 5, 7, 11, 11, 16] if tier == "quick" else [2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 16])


def point(rng):
    return ed.mulb(gen.rsc(rng))


_nonces = {}


def fresh(c, v, what):
    c.observed += 1
    if v in _nonces:
        c.fail("signing randomness used twice", first=_nonces[v], now=what)
    _nonces[v] = what


class Multisig:
    pass


def simple(c, rng, n, idx, wrong=None):
    """-> (sig, inputs) by the project's signer."""
    from monero_glue.xmr import mlsag2
    from monero_serialize.xmrtypes import CtKey

    x, a0, a1 = gen.rsc(rng), gen.rsc(rng), gen.rsc(rng)
    amt = rng.getrandbits(64)
    dest = [point(rng) for _ in range(n)]
    mask = [point(rng) for _ in range(n)]
    dest[idx] = ed.mulb(x)
    mask[idx] = cn.commit(a0, amt)
    pseudo = cn.commit(a1, amt)
    xs, zs = x, a0
    if wrong == "key":
        xs = (x + rng.choice([1, L - 1, 2**64])) % L
    elif wrong == "mask":
        zs = (a0 + rng.choice([1, L - 1])) % L
    elif wrong == "amount":
        pseudo = cn.commit(a1, (amt + rng.choice([1, 2**63])) % 2**64)
    elif wrong == "neg":
        xs = (-x) % L
    elif wrong == "index":
        idx = (idx + 1) % n
    msg = gen.rb(rng, 32)
    sk = CtKey(dest=S2(xs), mask=S2(zs))
    kl, seen = None, []
    if wrong is None and rng.random() < 0.2:
        k = gen.rsc(rng)
        hp = cn.hash_to_ec(ed.enc(dest[idx]))
        kl = Multisig()
        kl.k, kl.L, kl.R, kl.ki = S2(k), P2(ed.mulb(k)), P2(ed.mul(hp, k)), P2(ed.mul(hp, x))
        c.count("multisig-nonce")
    mg, msc = mlsag2.prove_rct_mg_simple(msg, ringkeys(dest, mask), sk, S2(a1), P2(pseudo), kl, seen.append if kl else None, idx)
    s = Sig(
        msg=msg, pk=[[d, ed.sub(m, pseudo)] for d, m in zip(dest, mask)], II=[pt_of(p) for p in mg.II], ss=[[int_of(v) for v in col] for col in mg.ss], cc=int_of(mg.cc), ds=1
    )
    c.eq((int_of(sk.dest), int_of(sk.mask)), (xs, zs), "signing modified the input secrets")
    if kl:
        c.eq([int_of(v) for v in seen], [int_of(msc)], "challenge reported to the multisig party")
    return s, dict(x=[xs, (zs - a1) % L], idx=idx, c=int_of(msc), dest=dest, mask=mask, pseudo=pseudo, kl=kl is not None, mg=mg)


def full(c, rng, n, idx, rows, wrong=None):
    from monero_glue.xmr import mlsag2
    from monero_serialize.xmrtypes import CtKey

    x = [gen.rsc(rng) for _ in range(rows)]
    mi = [gen.rsc(rng) for _ in range(rows)]
    am = [rng.getrandbits(40) for _ in range(rows)]
    no = rng.randrange(1, 4)
    fee = rng.randrange(0, sum(am))
    left = sum(am) - fee
    out = [rng.randrange(0, left // no + 1) for _ in range(no - 1)]
    out.append(left - sum(out))
    mo = [gen.rsc(rng) for _ in range(no)]
    if wrong == "amount":
        out[0] += 1
    dest = [[point(rng) for _ in range(rows)] for _ in range(n)]
    mask = [[point(rng) for _ in range(rows)] for _ in range(n)]
    for j in range(rows):
        dest[idx][j] = ed.mulb(x[j])
        mask[idx][j] = cn.commit(mi[j], am[j])
    if wrong == "key":
        j = rng.randrange(rows)
        x[j] = (x[j] + 1) % L
    if wrong == "mask":
        mi[rng.randrange(rows)] = gen.rsc(rng)
    msg = gen.rb(rng, 32)
    outC = [cn.commit(m, a) for m, a in zip(mo, out)]
    feeP = ed.mul(cn.H, fee)
    pubs = [ringkeys(d, m) for d, m in zip(dest, mask)]
    insk = [CtKey(dest=S2(a), mask=S2(b)) for a, b in zip(x, mi)]
    outsk = [CtKey(dest=S2(1), mask=S2(b)) for b in mo]
    outpk = [CtKey(dest=ed.enc(ed.B), mask=ed.enc(p)) for p in outC]
    mg, msc = mlsag2.prove_rct_mg(msg, pubs, insk, outsk, outpk, None, None, idx, P2(feeP))
    pk = []
    for d, m in zip(dest, mask):
        last = ed.neg(feeP)
        for q in m:
            last = ed.add(last, q)
        for q in outC:
            last = ed.sub(last, q)
        pk.append(list(d) + [last])
    s = Sig(msg=msg, pk=pk, II=[pt_of(p) for p in mg.II], ss=[[int_of(v) for v in col] for col in mg.ss], cc=int_of(mg.cc), ds=rows)
    xx = x + [(sum(mi) - sum(mo)) % L]
    try:
        own = bool(mlsag2.ver_rct_mg(mg, [ringkeys(d, m) for d, m in zip(dest, mask)], outpk, P2(feeP), msg))
    except Exception:
        own = False
    return s, dict(x=xx, idx=idx, c=int_of(msc), own=own, kl=False)


def nonces(c, s, d, where):
    i = d["idx"]
    for j, x in enumerate(d["x"]):
        if not (d["kl"] and j < s.ds):
            fresh(c, (s.ss[i][j] + d["c"] * x) % L, where + (i, j))
    for k, col in enumerate(s.ss):
        for j, v in enumerate(col):
            if k != i:
                fresh(c, v, where + (k, j))


def fam_sign(c):
    from monero_glue.xmr import mlsag2

    rng = c.rng
    n = ring_size(rng, c.tier) if c.backend == "tcry" else rng.choice([2, 3])
    idx = rng.choice([0, n - 1, rng.randrange(n)])
    wrong = rng.choice([None] * 6 + ["key", "mask", "amount", "neg", "index"])
    form = "full" if rng.random() < 0.35 else "simple"
    if form == "full" and wrong in ("neg", "index"):
        wrong = None
    rows = rng.choice([1, 1, 2, 3])
    s, d = simple(c, rng, n, idx, wrong) if form == "simple" else full(c, rng, n, idx, rows, wrong)
    exp = wrong is None
    c.eq(s.ref(), exp, "signature %s under the independent verifier" % ("refused" if exp else "of a wrong secret accepted"), form=form, n=n, idx=idx, wrong=wrong)
    c.eq(proj(s), exp, "the project's verifier gives the wrong verdict", form=form, n=n, idx=idx, wrong=wrong)
    if form == "simple":
        try:
            own = bool(mlsag2.ver_rct_mg_simple(s.msg, to_mg(s), ringkeys(d["dest"], d["mask"]), P2(d["pseudo"])))
            own2 = bool(mlsag2.ver_rct_mg_simple(s.msg, d["mg"], ringkeys(d["dest"], d["mask"]), P2(d["pseudo"])))
        except Exception:
            own = own2 = False
        c.eq((own, own2), (exp, exp), "the input verifier gives the wrong verdict", n=n, idx=idx, wrong=wrong)
    else:
        c.eq(d["own"], exp, "the whole-transaction verifier gives the wrong verdict", n=n, idx=idx, wrong=wrong, rows=rows)
    if exp:
        ki = [ed.mul(cn.hash_to_ec(ed.enc(s.pk[idx][j])), d["x"][j]) for j in range(s.ds)]
        c.eq([ed.enc(i) for i in s.II], [ed.enc(k) for k in ki], "key image differs from its definition")
        nonces(c, s, d, (c.idx, form))
    c.count("signatures")
    c.distinct("sign", form, n, idx, wrong, rows if form == "full" else 1)
    c.sample(dict(form=form, ring=n, real=idx, wrong=wrong))


def honest(rng, n, rows, ds, torsion=None):
    idx = rng.randrange(n)
    xx = [gen.rsc(rng) for _ in range(rows)]
    pk = [[point(rng) for _ in range(rows)] for _ in range(n)]
    pk[idx] = [ed.mulb(x) for x in xx]
    msg = gen.rb(rng, 32)
    II, ss, cc = signers.mlsag_sign(rng, msg, pk, xx, idx, ds, torsion)
    return Sig(msg=msg, pk=pk, II=II, ss=ss, cc=cc, ds=ds), idx, xx


def otherp(rng, p):
    r = rng.randrange(5)
    if r == 0:
        return point(rng)
    if r == 1:
        return ed.neg(p)
    if r == 2:
        return ed.add(p, ed.B)
    if r == 3:
        return ed.add(p, rng.choice(ed.torsion_points()[1:]))
    return rng.choice(ed.torsion_points())


def others(rng, x):
    return rng.choice([gen.rsc(rng), (x + 1) % L, (x - 1) % L, (-x) % L, 0, (x + 2**128) % L])


def alter(rng, s):
    q = s.copy()
    n, rows = len(q.pk), len(q.pk[0])
    k = rng.choice(["msg", "cc", "ss", "ss", "ss", "II", "II", "pk", "pk", "pk", "swap", "rot", "drop", "dup", "rowdrop", "IIcount", "swapss"])
    i, j = rng.randrange(n), rng.randrange(rows)
    if k == "msg":
        b = bytearray(q.msg)
        b[rng.randrange(32)] ^= 1 << rng.randrange(8)
        q.msg = bytes(b)
    elif k == "cc":
        q.cc = others(rng, q.cc)
    elif k == "ss":
        q.ss[i][j] = others(rng, q.ss[i][j])
    elif k == "II":
        t = rng.randrange(len(q.II))
        q.II[t] = otherp(rng, q.II[t])
    elif k == "pk":
        q.pk[i][j] = otherp(rng, q.pk[i][j])
    elif k == "swap":
        i2 = (i + 1) % n
        q.pk[i], q.pk[i2] = q.pk[i2], q.pk[i]
    elif k == "swapss":
        i2 = (i + 1) % n
        q.ss[i], q.ss[i2] = q.ss[i2], q.ss[i]
    elif k == "rot":
        q.pk = q.pk[1:] + q.pk[:1]
        q.ss = q.ss[1:] + q.ss[:1]
    elif k == "drop":
        q.pk.pop(i)
        q.ss.pop(i if rng.random() < 0.7 else 0)
        if rng.random() < 0.3:
            q.ss.append([1] * rows)
    elif k == "dup":
        q.pk.insert(i, list(q.pk[i]))
        if rng.random() < 0.6:
            q.ss.insert(i, list(q.ss[i]))
    elif k == "rowdrop":
        if rows > 1:
            for col in q.pk:
                col.pop()
            for col in q.ss:
                col.pop()
        else:
            q.ss[i] = []
    elif k == "IIcount":
        if rng.random() < 0.5:
            q.II.append(point(rng))
        else:
            q.II.pop()
    return q, k


def fam_alter(c):
    rng = c.rng
    n = rng.choice([2, 2, 3, 4, 5, 11]) if c.backend == "tcry" else 2
    rows, ds = rng.choice([(2, 1), (2, 1), (2, 1), (3, 2), (1, 1), (2, 2)])
    s, idx, xx = honest(rng, n, rows, ds)
    c.eq(s.ref(), True, "independent signer broken")
    c.eq(proj(s), True, "honest signature of an independent signer refused", n=n, rows=rows, ds=ds)
    for _ in range(5 if c.backend == "tcry" else 2):
        q, k = alter(rng, s)
        exp = False
        try:
            exp = q.ref()
        except Exception:
            exp = False
        if exp:
            # changes nothing that is signed (e.g. the same value drawn again)
            c.count("alteration-without-effect")
            continue
        got = proj(q)
        c.eq(got, False, "altered signature accepted: " + k, n=n, rows=rows)
        c.count("alterations")
        c.distinct("alter", k, n, rows, ds)


def fam_image(c):
    """Key images with low-order parts: one key would have several images."""
    rng = c.rng
    n = rng.choice([2, 2, 3, 5])
    rows, ds = rng.choice([(2, 1), (2, 1), (3, 2)])
    T = ed.torsion_points()[1:]
    t = T[c.idx % len(T)]
    s, idx, xx = honest(rng, n, rows, ds, torsion=t)
    c.ok(sigs.mlsag_verify(s.msg, s.pk, s.II, s.ss, s.cc, s.ds), "cheating signer broken")
    c.eq(proj(s), False, "signature with a second key image of the same key accepted", key="image-torsion", order=signers._ord8(t))
    c.count("cheating-images")
    c.distinct("image", n, rows, signers._ord8(t))


FAMILIES = {
    "history": dict(fn=cross.c21, quick={"tcry": 3, "py": 1}, thorough={"tcry": 60, "py": 6}, backends=("tcry", "py")),
    "sign": dict(fn=fam_sign, quick={"tcry": 130, "py": 6}, thorough={"tcry": 5000, "py": 200}, backends=("tcry", "py"), weight=2),
    "alter": dict(fn=fam_alter, quick={"tcry": 90, "py": 3}, thorough={"tcry": 4000, "py": 120}, backends=("tcry", "py"), weight=2),
    "image": dict(fn=fam_image, quick={"tcry": 14, "py": 2}, thorough={"tcry": 300, "py": 20}, backends=("tcry", "py"), weight=2),
}
