"""Concise ring signatures are complete, sound and linkable."""

from .. import cross, gen
from ..ref import cn, ed, sigs, signers
from ..ref.ed import L
from .C21 import P2, S2, int_of, otherp, others, point, pt_of, ring_size, ringkeys

RULE = (
    "rings of 1..16 members at every real position; project signatures judged by an independent verifier; honest, altered and false signatures (wrong secrets or amount, images with low-order parts, "
    "neutral images, signatures for a zero commitment difference) judged by the project's verifier against the independent one; nonces extracted with the secrets never repeat. "
    "distinct = (ring size, position, alteration, verdict)"
)
ASSUMPTIONS = ["scalars reach the verifier decoded, hence reduced; the auxiliary image may carry a low-order part (it is cleared by eight, as in Monero)"]


class Sig:
    __slots__ = ("msg", "dest", "mask", "pseudo", "ki", "d8", "s", "c1")

    def __init__(self, **k):
        for x in k:
            setattr(self, x, k[x])

    def copy(self):
        return Sig(**{k: (list(getattr(self, k)) if isinstance(getattr(self, k), list) else getattr(self, k)) for k in self.__slots__})

    def ref(self):
        return ed.in_prime_group(self.ki) and sigs.clsag_verify(self.msg, list(zip(self.dest, self.mask)), self.pseudo, self.ki, self.d8, self.s, self.c1) if len(self.dest) == len(self.mask) else False


def proj(s):
    from monero_glue.xmr import mlsag2

    try:
        r = mlsag2.verify_clsag(s.msg, [S2(x) for x in s.s], S2(s.c1), P2(s.ki), P2(s.d8), ringkeys(s.dest, s.mask), P2(s.pseudo))
    except Exception:
        return False
    return True if r is None else bool(r)


_nonces = {}


def fresh(c, v, what):
    c.observed += 1
    if v in _nonces:
        c.fail("signing randomness used twice", first=_nonces[v], now=what)
    _nonces[v] = what


def make(rng, n, idx, zero=False):
    x, a0, a1 = gen.rsc(rng), gen.rsc(rng), gen.rsc(rng)
    if zero:
        a1 = a0
    amt = rng.getrandbits(64)
    dest = [point(rng) for _ in range(n)]
    mask = [point(rng) for _ in range(n)]
    dest[idx] = ed.mulb(x)
    mask[idx] = cn.commit(a0, amt)
    return x, a0, a1, amt, dest, mask


def challenges(s):
    """The challenge used at each position, recomputed from the public signature."""
    from ..ref.sigs import _dom

    ring = list(zip(s.dest, s.mask))
    pb = b"".join(ed.enc(p) for p in s.dest)
    cb = b"".join(ed.enc(p) for p in s.mask)
    tail = ed.enc(s.ki) + ed.enc(s.d8) + ed.enc(s.pseudo)
    mp, mc = cn.hs(_dom("CLSAG_agg_0") + pb + cb + tail), cn.hs(_dom("CLSAG_agg_1") + pb + cb + tail)
    pre = _dom("CLSAG_round") + pb + cb + ed.enc(s.pseudo) + s.msg
    c, out, dd = s.c1, [], ed.mul8(s.d8)
    for i, (p, m) in enumerate(ring):
        out.append(c)
        cp, cc = mp * c % L, mc * c % L
        lp = ed.multiexp([(s.s[i], ed.B), (cp, p), (cc, ed.sub(m, s.pseudo))])
        rp = ed.multiexp([(s.s[i], cn.hash_to_ec(ed.enc(p))), (cp, s.ki), (cc, dd)])
        c = cn.hs(pre + ed.enc(lp) + ed.enc(rp))
    return out, mp, mc


def fam_sign(c):
    from monero_glue.xmr import mlsag2
    from monero_serialize import xmrserialize
    from monero_serialize.xmrtypes import CtKey

    rng = c.rng
    n = rng.choice([1] + [ring_size(rng, c.tier)] * 9) if c.backend == "tcry" else rng.choice([2, 3])
    idx = rng.choice([0, n - 1, rng.randrange(n)])
    wrong = rng.choice([None] * 6 + ["key", "mask", "amount", "neg", "index"])
    if n == 1 and wrong == "index":
        wrong = "key"
    x, a0, a1, amt, dest, mask = make(rng, n, idx)
    pseudo = cn.commit(a1, amt)
    xs, zs = x, a0
    if wrong == "key":
        xs = (x + rng.choice([1, L - 1, 2**64])) % L
    elif wrong == "mask":
        zs = (a0 + rng.choice([1, L - 1])) % L
    elif wrong == "amount":
        pseudo = cn.commit(a1, (amt + rng.choice([1, 2**63])) % 2**64)
    elif wrong == "neg":
        xs = (-x) % L
    elif wrong == "index":
        idx = (idx + 1) % n
    msg = gen.rb(rng, 32)
    sk = CtKey(dest=S2(xs), mask=S2(zs))
    buf = []
    r = mlsag2.generate_clsag_simple(msg, ringkeys(dest, mask), sk, S2(a1), P2(pseudo), idx, buf)
    r = [bytes(b) for b in (r if r is not None else buf)]
    c.eq((len(r), r[0]), (n + 3, cn.varint(n)), "layout of the signature", n=n)
    c.ok(all(len(b) == 32 and (i == n + 1 or int.from_bytes(b, "little") < L) for i, b in enumerate(r[1:], 0) if i < n + 1), "signature scalars not canonical")
    hp = cn.hash_to_ec(ed.enc(dest[idx]))
    ki = ed.mul(hp, xs)
    s = Sig(msg=msg, dest=dest, mask=mask, pseudo=pseudo, ki=ki, d8=ed.dec(r[n + 2]), s=[int.from_bytes(b, "little") for b in r[1 : n + 1]], c1=int.from_bytes(r[n + 1], "little"))
    exp = wrong is None
    c.eq(s.ref(), exp, "signature %s under the independent verifier" % ("refused" if exp else "of a wrong secret accepted"), n=n, idx=idx, wrong=wrong)
    c.eq(proj(s), exp, "the project's verifier gives the wrong verdict", n=n, idx=idx, wrong=wrong)
    if exp:
        z = (a0 - a1) % L
        c.eq(ed.enc(ed.mul8(s.d8)), ed.enc(ed.mul(hp, z)), "auxiliary key image differs from its definition")
        c.ok(ed.in_prime_group(s.d8), "auxiliary key image outside the subgroup")
        ch, mp, mc = challenges(s)
        fresh(c, (s.s[idx] + ch[idx] * (mp * x + mc * z)) % L, (c.idx, "alpha"))
        for i, v in enumerate(s.s):
            if i != idx:
                fresh(c, v, (c.idx, i))
    c.eq((int_of(sk.dest), int_of(sk.mask)), (xs, zs), "signing modified the input secrets")
    c.count("signatures")
    c.distinct("sign", n, idx, wrong)
    c.sample(dict(ring=n, real=idx, wrong=wrong))


def honest(rng, n, torsion=None, torsion_d=None, zero=False):
    idx = rng.randrange(n)
    x, a0, a1, amt, dest, mask = make(rng, n, idx, zero)
    pseudo = cn.commit(a1, amt)
    msg = gen.rb(rng, 32)
    I, d8, s, c1 = signers.clsag_sign(rng, msg, list(zip(dest, mask)), pseudo, x, (a0 - a1) % L, idx, torsion, torsion_d)
    return Sig(msg=msg, dest=dest, mask=mask, pseudo=pseudo, ki=I, d8=d8, s=s, c1=c1)


def alter(rng, s):
    q = s.copy()
    n = len(q.dest)
    k = rng.choice(["msg", "c1", "s", "s", "ki", "ki", "d8", "d8", "dest", "dest", "mask", "mask", "pseudo", "pseudo", "swap", "rot", "drop", "dup", "scount", "neutral", "shift", "swapkeys"])
    i = rng.randrange(n)
    if k == "msg":
        b = bytearray(q.msg)
        b[rng.randrange(32)] ^= 1 << rng.randrange(8)
        q.msg = bytes(b)
    elif k == "c1":
        q.c1 = others(rng, q.c1)
    elif k == "s":
        q.s[i] = others(rng, q.s[i])
    elif k == "ki":
        q.ki = otherp(rng, q.ki)
    elif k == "d8":
        q.d8 = otherp(rng, q.d8)
    elif k in ("dest", "mask"):
        v = getattr(q, k)
        v[i] = otherp(rng, v[i])
    elif k == "pseudo":
        q.pseudo = otherp(rng, q.pseudo)
    elif k == "swap":
        j = (i + 1) % n
        for v in (q.dest, q.mask):
            v[i], v[j] = v[j], v[i]
        if n < 2:
            q.c1 = (q.c1 + 1) % L
    elif k == "swapkeys":
        q.dest, q.mask = q.mask, q.dest
    elif k == "rot":
        if n < 2:
            q.c1 = (q.c1 + 1) % L
        q.dest, q.mask, q.s = q.dest[1:] + q.dest[:1], q.mask[1:] + q.mask[:1], q.s[1:] + q.s[:1]
    elif k == "drop":
        for v in (q.dest, q.mask, q.s):
            v.pop(i)
    elif k == "dup":
        for v in (q.dest, q.mask, q.s):
            v.insert(i, v[i])
    elif k == "scount":
        q.s.pop() if rng.random() < 0.5 else q.s.append(gen.rsc(rng))
    elif k == "neutral":
        q.d8 = ed.ID if rng.random() < 0.5 else q.d8
        if ed.is_id(q.d8) is False:
            q.ki = ed.ID
    elif k == "shift":
        # all commitments and the offset moved by the same point: differences stay, the statement does not
        e = point(rng)
        q.mask = [ed.add(m, e) for m in q.mask]
        q.pseudo = ed.add(q.pseudo, e)
    return q, k


def fam_alter(c):
    rng = c.rng
    n = rng.choice([1, 2, 2, 3, 4, 5, 11]) if c.backend == "tcry" else 2
    s = honest(rng, n)
    c.eq(s.ref(), True, "independent signer broken")
    c.eq(proj(s), True, "honest signature of an independent signer refused", n=n)
    for _ in range(6 if c.backend == "tcry" else 2):
        q, k = alter(rng, s)
        try:
            exp = q.ref()
        except Exception:
            exp = False
        if exp:
            c.count("alteration-without-effect")
            continue
        c.eq(proj(q), False, "altered signature accepted: " + k, n=n)
        c.count("alterations")
        c.distinct("alter", k, n)


def fam_image(c):
    rng = c.rng
    n = rng.choice([1, 2, 3, 5])
    T = ed.torsion_points()[1:]
    t = T[c.idx % len(T)]
    kind = ["image", "zero", "image", "zero-image", "image", "zero-torsion"][c.idx % 6]
    if kind == "image":
        s = honest(rng, n, torsion=t)
    elif kind == "zero-torsion":
        s = honest(rng, n, torsion_d=t, zero=True)
    elif kind == "zero":
        s = honest(rng, n, zero=True)
        c.ok(ed.is_id(s.d8), "independent signer broken")
    else:
        s = honest(rng, n, torsion=t, zero=True)
    c.eq(s.ref(), False, "independent verifier broken")
    c.eq(proj(s), False, "signature with %s accepted" % ("a second key image of the same key" if "image" in kind else "a neutral auxiliary image"), key=kind, n=n)
    c.count("cheating-images")
    c.distinct("image", n, kind, signers._ord8(t))


FAMILIES = {
    "history": dict(fn=cross.c22, quick={"tcry": 3, "py": 1}, thorough={"tcry": 60, "py": 6}, backends=("tcry", "py")),
    "sign": dict(fn=fam_sign, quick={"tcry": 140, "py": 6}, thorough={"tcry": 5000, "py": 200}, backends=("tcry", "py"), weight=2),
    "alter": dict(fn=fam_alter, quick={"tcry": 90, "py": 3}, thorough={"tcry": 4000, "py": 120}, backends=("tcry", "py"), weight=2),
    "image": dict(fn=fam_image, quick={"tcry": 24, "py": 2}, thorough={"tcry": 300, "py": 20}, backends=("tcry", "py"), weight=2),
}
