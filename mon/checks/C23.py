"""Key-image ring signatures and plain signatures are complete and sound."""

from .. import cross, gen
from ..ref import cn, ed, sigs, signers
from ..ref.ed import L
from .C21 import P2, S2, int_of, others, otherp, point, pt_of

RULE = (
    "ring signatures over rings of 1..16 keys at every position, single-key signatures over data of 0..500 bytes and key-image export for main/sub-addresses with shared and additional transaction keys; "
    "project signatures judged by an independent verifier, honest, altered (message, key, image, scalar, order, count, out-of-range scalars, low-order parts) and cheating signatures judged by the project's "
    "verifier; nonces extracted with the secrets never repeat. distinct = (kind, ring size, position, alteration)"
)
ASSUMPTIONS = ["zero scalars are refused (stricter than Monero), never produced honestly"]

_nonces = {}


def fresh(c, v, what):
    c.observed += 1
    if v in _nonces:
        c.fail("signing randomness used twice", first=_nonces[v], now=what)
    _nonces[v] = what


def rawscalar(c, v):
    """scalar object with a value >= L."""
    from monero_glue.xmr import crypto

    if c.backend == "tcry":
        return crypto.decodeint_noreduce(v.to_bytes(32, "little"))
    s = crypto.decodeint(ed.scenc(1))
    s.v = v
    return s


def ring_ok(prefix, ki, pubs, sig):
    """sig: list of (c, r) scalar objects or ints."""
    from monero_glue.xmr import ring_ct

    conv = [[S2(x) if isinstance(x, int) else x for x in e] for e in sig]
    try:
        r = ring_ct.check_ring_singature(prefix, P2(ki), [P2(p) for p in pubs], conv)
    except Exception:
        return False
    return bool(r)


def ring_size(rng, c):
    if c.backend == "py":
        return rng.choice([1, 1, 2, 3])
    return rng.choice([1, 1, 1, 2, 3, 4, 5, 7, 11, 16])


def fam_ring(c):
    from monero_glue.xmr import ring_ct

    rng = c.rng
    n = ring_size(rng, c)
    idx = rng.choice([0, n - 1, rng.randrange(n)])
    x = rng.choice([gen.rsc(rng)] * 6 + [1, 2, L - 1])
    pubs = [point(rng) for _ in range(n)]
    pubs[idx] = ed.mulb(x)
    I = ed.mul(cn.hash_to_ec(ed.enc(pubs[idx])), x)
    prefix = gen.rb(rng, rng.choice([32, 32, 32, 0, 1, 33, 100]))
    wrong = rng.choice([None] * 5 + ["sec", "image", "index"])
    xs, im, at = x, I, idx
    if wrong == "sec":
        xs = (x + 1) % L or 2
    elif wrong == "image":
        im = otherp(rng, I)
    elif wrong == "index":
        if n == 1:
            wrong = None
        else:
            at = (idx + 1) % n
    test = rng.random() < 0.4
    sk = S2(xs)
    pobj = [P2(p) for p in pubs]
    try:
        sig = ring_ct.generate_ring_signature(prefix, P2(im), pobj, sk, at, test)
    except Exception as e:
        c.ok(wrong is not None, "honest signing refused", err=repr(e)[:200], n=n, idx=idx)
        c.count("refused-to-sign")
        c.distinct("ring-refused", n, wrong, test)
        return
    if test:
        c.ok(wrong is None, "checked signing accepted a wrong secret or image", wrong=wrong)
    ints = [(int_of(a), int_of(b)) for a, b in sig]
    exp = wrong is None
    c.eq(len(ints), n, "number of signature elements")
    c.eq(int_of(sk), xs, "signing modified the secret")
    c.eq([ed.enc(pt_of(p)) for p in pobj], [ed.enc(p) for p in pubs], "signing modified the ring")
    c.eq(sigs.ring_sig_verify(prefix, im, pubs, ints), exp, "verdict of the independent verifier", n=n, idx=idx, wrong=wrong)
    c.eq(ring_ok(prefix, im, pubs, ints), exp, "verdict of the project's verifier", n=n, idx=idx, wrong=wrong)
    if exp:
        fresh(c, (ints[idx][1] + ints[idx][0] * x) % L, (c.idx, idx))
        for i, (a, b) in enumerate(ints):
            if i != idx:
                fresh(c, a, (c.idx, i, "c"))
                fresh(c, b, (c.idx, i, "r"))
    c.count("ring-signatures")
    c.distinct("ring", n, idx, wrong, test, len(prefix))
    c.sample(dict(ring=n, real=idx, wrong=wrong, message=len(prefix)))


def alter_ring(c, rng, prefix, ki, pubs, sig):
    """-> (kind, prefix, ki, pubs, sig, definitely_changed)."""
    k = rng.choice(["msg", "msglen", "img", "img", "key", "key", "key", "c", "c", "r", "r", "range", "range", "swapsig", "swapkey", "swapcr", "surplus", "short", "shortkey", "zero", "neg", "shift"])
    pubs, sig = list(pubs), list(sig)
    n = len(pubs)
    i = rng.randrange(n)
    if k == "msg":
        if not prefix:
            return None
        b = bytearray(prefix)
        b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        prefix = bytes(b)
    elif k == "msglen":
        prefix = prefix + b"\0" if rng.random() < 0.5 or not prefix else prefix[:-1]
    elif k == "img":
        ki = otherp(rng, ki)
    elif k == "key":
        pubs[i] = otherp(rng, pubs[i])
    elif k == "c":
        sig[i] = (others(rng, sig[i][0]), sig[i][1])
    elif k == "r":
        sig[i] = (sig[i][0], others(rng, sig[i][1]))
    elif k == "range":
        # the same residue, out of range: same point equations, must be refused
        e = list(sig[i])
        w = rng.randrange(2)
        m = rng.choice([1, 1, 2, 7])
        e[w] = rawscalar(c, e[w] + m * L)
        sig[i] = tuple(e)
    elif k == "swapsig":
        sig = sig[1:] + sig[:1]
    elif k == "swapkey":
        pubs = pubs[1:] + pubs[:1]
    elif k == "swapcr":
        sig[i] = (sig[i][1], sig[i][0])
    elif k == "surplus":
        sig.append(rng.choice([(0, 1), (1, 1), (gen.rsc(rng), gen.rsc(rng)), sig[0]]))
    elif k == "short":
        sig.pop(rng.randrange(n))
    elif k == "shortkey":
        pubs.pop(rng.randrange(n))
    elif k == "zero":
        sig[i] = (0, 0)
    elif k == "neg":
        sig = [((-a) % L, (-b) % L) for a, b in sig]
    elif k == "shift":
        if n < 2:
            return None
        # keeps the sum of challenges
        j = (i + 1) % n
        sig[i] = ((sig[i][0] + 1) % L, sig[i][1])
        sig[j] = ((sig[j][0] - 1) % L, sig[j][1])
    return k, prefix, ki, pubs, sig


def fam_ring_alter(c):
    rng = c.rng
    n = ring_size(rng, c)
    idx = rng.randrange(n)
    x = gen.rsc(rng)
    pubs = [point(rng) for _ in range(n)]
    pubs[idx] = ed.mulb(x)
    prefix = gen.rb(rng, rng.choice([32, 32, 0, 65]))
    ki, sig = signers.ring_sign(rng, prefix, pubs, x, idx)
    c.ok(sigs.ring_sig_verify(prefix, ki, pubs, sig), "independent signer broken")
    c.ok(ring_ok(prefix, ki, pubs, sig), "honest signature of an independent signer refused", n=n, idx=idx)
    for _ in range(8 if c.backend == "tcry" else 3):
        a = alter_ring(c, rng, prefix, ki, pubs, sig)
        if a is None:
            continue
        k, p2, k2, q2, s2 = a
        if any(isinstance(v, int) is False for e in s2 for v in e):
            exp = False
        else:
            exp = sigs.ring_sig_verify(p2, k2, q2, s2)
        if exp:
            c.count("alteration-without-effect")
            continue
        c.ok(not ring_ok(p2, k2, q2, s2), "altered ring signature accepted: " + k, n=n)
        c.count("alterations")
        c.distinct("ring-alter", k, n)


def fam_ring_image(c):
    rng = c.rng
    n = rng.choice([1, 1, 2, 3])
    idx = rng.randrange(n)
    x = gen.rsc(rng)
    pubs = [point(rng) for _ in range(n)]
    pubs[idx] = ed.mulb(x)
    T = ed.torsion_points()[1:]
    t = T[c.idx % len(T)]
    prefix = gen.rb(rng, 32)
    ki, sig = signers.ring_sign(rng, prefix, pubs, x, idx, torsion=t)
    c.ok(not sigs.ring_sig_verify(prefix, ki, pubs, sig), "independent verifier broken")
    c.ok(not ring_ok(prefix, ki, pubs, sig), "second key image of the same key accepted", key="image-torsion")
    c.count("cheating-images")
    c.distinct("ring-image", n, signers._ord8(t))


def sch_ok(data, cc, r, pub):
    from monero_glue.xmr import crypto

    try:
        v = crypto.check_signature(data, S2(cc) if isinstance(cc, int) else cc, S2(r) if isinstance(r, int) else r, P2(pub))
    except Exception:
        return False
    return bool(v)


def fam_plain(c):
    from monero_glue.xmr import crypto

    rng = c.rng
    x = rng.choice([gen.rsc(rng)] * 6 + [1, L - 1])
    data = gen.rb(rng, rng.choice([0, 1, 31, 32, 32, 33, 64, 135, 136, 500]))
    P = ed.mulb(x)
    if rng.random() < 0.5:
        priv = S2(x)
        a, b, pub = crypto.generate_signature(data, priv)
        c.eq(int_of(priv), x, "signing modified the secret")
        cc, r = int_of(a), int_of(b)
        c.eq(ed.enc(pt_of(pub)), ed.enc(P), "public key of the signature")
        fresh(c, (r + cc * x) % L, (c.idx, "plain"))
        c.count("plain-signatures")
    else:
        cc, r, _ = signers.schnorr_sign(rng, data, x)
    c.ok(sigs.schnorr_verify(data, cc, r, P), "signature refused by the independent verifier")
    c.ok(sch_ok(data, cc, r, P), "honest signature refused")
    for _ in range(5 if c.backend == "tcry" else 3):
        k = rng.choice(["data", "len", "c", "r", "key", "key", "range", "swap", "neg"])
        d2, c2, r2, p2 = data, cc, r, P
        if k == "data":
            if not data:
                continue
            bb = bytearray(data)
            bb[rng.randrange(len(bb))] ^= 1 << rng.randrange(8)
            d2 = bytes(bb)
        elif k == "len":
            d2 = data + rng.choice([b"\0", b"\1"])
        elif k == "c":
            c2 = others(rng, cc)
        elif k == "r":
            r2 = others(rng, r)
        elif k == "key":
            p2 = otherp(rng, P)
        elif k == "range":
            m = rng.choice([1, 2, 7]) * L
            if rng.random() < 0.5:
                c2 = rawscalar(c, cc + m)
            else:
                r2 = rawscalar(c, r + m)
        elif k == "swap":
            c2, r2 = r, cc
        else:
            c2, r2 = (-cc) % L, (-r) % L
        if isinstance(c2, int) and isinstance(r2, int) and sigs.schnorr_verify(d2, c2, r2, p2):
            c.count("alteration-without-effect")
            continue
        c.ok(not sch_ok(d2, c2, r2, p2), "altered signature accepted: " + k, data=len(data))
        c.count("alterations")
        c.distinct("plain-alter", k, len(data))
    c.distinct("plain", len(data), x in (1, L - 1))


def fam_export(c):
    """Key image export: image right, its signature right, foreign outputs refused."""
    from monero_glue.xmr import monero, ring_ct

    rng = c.rng
    acc = monero.AccountCreds.new_wallet(S2(gen.rsc(rng)), S2(gen.rsc(rng)), rng.choice([0, 1, 2]))
    a, b = int_of(acc.view_key_private), int_of(acc.spend_key_private)
    A, B = ed.mulb(a), ed.mulb(b)
    subs = {ed.enc(B): (0, 0)}
    idxs = [(0, 1), (1, 0), (3, rng.randrange(1, 40)), (rng.randrange(1, 9), rng.randrange(300))]
    for ix in idxs:
        subs[ed.enc(cn.subaddr_pub(a, B, *ix)[0])] = ix
    ix = rng.choice([(0, 0)] + idxs)
    D = next(ed.dec(k) for k, v in subs.items() if v == ix)
    oi = rng.choice([0, 1, 5, 127, 128, 300])
    rkey = gen.rsc(rng)
    extra = rng.random() < 0.4
    # derivation for a subaddress uses r*D with R=r*D (single) or additional keys
    R = ed.mulb(rkey)
    der = cn.derivation(R, a)
    pub = cn.derive_pub(der, oi, D)
    x = (cn.deriv_scalar(der, oi) + b + (0 if ix == (0, 0) else cn.subaddr_m(a, *ix))) % L
    c.ok(ed.eq(ed.mulb(x), pub), "reference broken")
    add = []
    mainR = R
    if extra:
        mainR = point(rng)
        add = [point(rng) for _ in range(oi + 1)]
        add[oi] = R
    foreign = rng.random() < 0.25
    if foreign:
        pub = ed.add(pub, ed.B)
    if ix == (0, 0):
        c.count("to-main")
    args = (acc, subs, P2(pub), P2(mainR), [P2(q) for q in add], oi)
    try:
        ki, sig = ring_ct.export_key_image(*args, test=rng.random() < 0.7, verify=rng.random() < 0.7)
    except Exception as e:
        c.ok(foreign, "export of an owned output refused", err=repr(e)[:200], ix=ix, oi=oi, extra=extra)
        c.count("foreign-refused")
        c.distinct("export-foreign", ix == (0, 0), extra)
        return
    c.ok(not foreign, "key image exported for a foreign output")
    I = ed.mul(cn.hash_to_ec(ed.enc(pub)), x)
    c.eq(ed.enc(pt_of(ki)), ed.enc(I), "exported key image", ix=ix)
    s = [(int_of(p), int_of(q)) for p, q in sig]
    c.ok(sigs.ring_sig_verify(ed.enc(I), I, [pub], s), "signature of the exported key image refused")
    fresh(c, (s[0][1] + s[0][0] * x) % L, (c.idx, "export"))
    c.count("exports")
    c.distinct("export", ix == (0, 0), extra, oi)


FAMILIES = {
    "history": dict(fn=cross.c23, quick={"tcry": 3, "py": 1}, thorough={"tcry": 60, "py": 6}, backends=("tcry", "py")),
    "ring": dict(fn=fam_ring, quick={"tcry": 110, "py": 5}, thorough={"tcry": 6000, "py": 150}, backends=("tcry", "py"), weight=2),
    "ring-alter": dict(fn=fam_ring_alter, quick={"tcry": 90, "py": 4}, thorough={"tcry": 5000, "py": 120}, backends=("tcry", "py"), weight=2),
    "ring-image": dict(fn=fam_ring_image, quick={"tcry": 14, "py": 2}, thorough={"tcry": 200, "py": 14}, backends=("tcry", "py"), weight=1),
    "plain": dict(fn=fam_plain, quick={"tcry": 150, "py": 6}, thorough={"tcry": 8000, "py": 200}, backends=("tcry", "py"), weight=1),
    "export": dict(fn=fam_export, quick={"tcry": 60, "py": 3}, thorough={"tcry": 3000, "py": 100}, backends=("tcry", "py"), weight=1),
}
