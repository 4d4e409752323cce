"""Calls that differ in a single argument, made in one process in random order and repeated.

Every helper of a table is called with arguments from pools of a few values, so that nearly every pair
of calls agrees in all arguments but one. What is expected depends on the arguments alone; results of
earlier calls and the arguments themselves are read again at the end.
"""

import hashlib

from . import gen
from .ref import b58m, cn, ed, keccak, secp
from .ref.ed import L


def S(pool):
    from monero_glue.xmr import crypto

    return [(x, crypto.decodeint(ed.scenc(x)), lambda o: bytes(crypto.encodeint(o))) for x in pool]


def P(pool):
    from monero_glue.xmr import crypto

    return [(x, crypto.decodepoint(ed.enc(x)), lambda o: bytes(crypto.encodepoint(o))) for x in pool]


def V(pool):
    return [(x, x, lambda o: bytes(o) if isinstance(o, (bytes, bytearray)) else o) for x in pool]


def BA(pool):
    """byte strings, some of them mutable"""
    return [(x, bytearray(x) if i % 2 else x, bytes) for i, x in enumerate(pool)]


def near(rng, n, k=3):
    """byte strings that agree at one end"""
    a = gen.rb(rng, n)
    out = [a, a[: n // 2] + gen.rb(rng, n - n // 2), gen.rb(rng, n // 2) + a[n // 2 :]]
    while len(out) < k:
        x = bytearray(a)
        x[rng.randrange(n)] ^= 1 << rng.randrange(8)
        out.append(bytes(x))
    return out[:k]


def nsc(rng, k=3):
    """scalars whose encodings agree at one end"""
    out = []
    for x in near(rng, 32, k):
        out.append(int.from_bytes(x[:31] + bytes([x[31] & 15]), "little") or 1)
    return out


def history(c, ops, n):
    """ops: {name: (function, canonical form of a result, reference, [argument pool])}"""
    rng = c.rng
    names = sorted(ops)
    first = {}
    for name in names:
        for j, pool in enumerate(ops[name][3]):
            for i, (_, o, back) in enumerate(pool):
                first[(name, j, i)] = back(o)
    kept = []
    seen = set()
    for step in range(n):
        name = names[step % len(names)]
        fn, canon, ref, pools = ops[name]
        last = [k for k in kept if k[0] == name]
        if last and rng.random() < 0.5:
            # a neighbour of an earlier call
            ix = list(rng.choice(last)[1])
            j = rng.randrange(len(ix))
            ix[j] = rng.randrange(len(pools[j]))
            ix = tuple(ix)
        else:
            ix = tuple(rng.randrange(len(p)) for p in pools)
        exp = ref(*(pools[j][i][0] for j, i in enumerate(ix)))
        args = [pools[j][i][1] for j, i in enumerate(ix)]
        det = dict(op=name, args=[pools[j][i][0] if not isinstance(pools[j][i][0], tuple) or len(pools[j][i][0]) != 4 else ed.enc(pools[j][i][0]) for j, i in enumerate(ix)])
        if exp is None:
            c.refused(lambda: fn(*args), "accepted in one order of calls", **det)
            continue
        got = fn(*args)
        c.eq(canon(got), exp, "result depends on earlier calls", **det)
        if (name, ix) in seen:
            c.count("history_repeats")
        seen.add((name, ix))
        kept.append((name, ix, got, exp, canon, det))
        c.count("history_calls")
    for name, ix, got, exp, canon, det in kept:
        c.eq(canon(got), exp, "a later call changed an earlier result", **det)
    for name in names:
        for j, pool in enumerate(ops[name][3]):
            for i, (_, o, back) in enumerate(pool):
                c.eq(back(o), first[(name, j, i)], "a call changed its argument", op=name, position=j)
    for name, ix in seen:
        c.distinct("history", name, ix)


def ints(x):
    from monero_glue.xmr import crypto

    return bytes(crypto.encodeint(x))


def pts(x):
    from monero_glue.xmr import crypto

    return bytes(crypto.encodepoint(x))


def c18(c):
    from monero_glue.xmr import crypto, monero
    from monero_glue.xmr.sub import tsx_helper

    rng = c.rng
    sec = nsc(rng)
    pub = [ed.mulb(gen.rsc(rng)) for _ in range(2)]
    pub.append(ed.add(pub[0], ed.torsion_points()[3]))
    idx = [0, 1, 3, 1 << 31]
    Pp, Sp = P(pub), S(sec)
    ix = V(idx)

    def cred(a, b):
        return monero.AccountCreds.new_wallet(a, b)

    def table(a, b, acc, mi):
        return monero.compute_subaddresses(cred(a, b), acc, [mi, 5])

    def rtable(a, b, acc, mi):
        return sorted((ed.enc(cn.subaddr_pub(a, ed.mulb(b), acc, m)[0]), (acc, m)) for m in {mi, 5})

    def recv(a, b, acc, mi, i, r):
        """is an output paid to (acc, mi) of the wallet found by the wallet"""
        Da, Ca = monero.generate_sub_address_keys(a, crypto.scalarmult_base(b), acc, mi)
        sub = (acc, mi) != (0, 0)
        R = crypto.scalarmult(Da, r) if sub else crypto.scalarmult_base(r)
        out = crypto.derive_public_key(crypto.generate_key_derivation(Ca, r), i, Da)
        w = cred(a, b)
        xi, ki, _ = monero.generate_key_image_helper(w, monero.compute_subaddresses(w, acc, [mi]), out, R, [], i)
        return xi, ki

    def rrecv(a, b, acc, mi, i, r):
        D, C = cn.subaddr_pub(a, ed.mulb(b), acc, mi)
        x = (cn.derive_sec(cn.derivation(C, r), i, b) + (0 if (acc, mi) == (0, 0) else cn.subaddr_m(a, acc, mi))) % L
        return ed.scenc(x), ed.enc(cn.key_image(x))

    g = lambda r: tuple(pts(x) for x in r)
    pids = V([bytes(8), gen.rb(rng, 8)])
    ops = {
        "subaddress table": (table, lambda t: sorted((bytes(k), v) for k, v in t.items()), rtable, [Sp, Sp, ix, ix]),
        "subaddress keys": (monero.generate_sub_address_keys, g, lambda a, B, j, m: tuple(ed.enc(x) for x in cn.subaddr_pub(a, B, j, m)) if (j, m) != (0, 0) else (ed.enc(B), ed.enc(ed.mulb(a))), [Sp, Pp, ix, ix]),
        "subaddress spend key": (lambda a, B, j, m: monero.get_subaddress_spend_public_key(a, B, major=j, minor=m), pts, lambda a, B, j, m: ed.enc(cn.subaddr_pub(a, B, j, m)[0]) if (j, m) != (0, 0) else ed.enc(B), [Sp, Pp, ix, ix]),
        "key derivation": (crypto.generate_key_derivation, pts, lambda q, k: ed.enc(cn.derivation(q, k)), [Pp, Sp]),
        "derivation to scalar": (crypto.derivation_to_scalar, ints, lambda d, i: ed.scenc(cn.deriv_scalar(d, i)), [Pp, ix]),
        "derived public key": (crypto.derive_public_key, pts, lambda d, i, q: ed.enc(cn.derive_pub(d, i, q)), [Pp, ix, Pp]),
        "derived secret key": (crypto.derive_secret_key, ints, lambda d, i, b: ed.scenc(cn.derive_sec(d, i, b)), [Pp, ix, Sp]),
        "subaddress of an output": (monero.derive_subaddress_public_key, pts, lambda q, d, i: ed.enc(ed.sub(q, ed.mulb(cn.deriv_scalar(d, i)))), [Pp, Pp, ix]),
        "received output": (recv, lambda r: (ints(r[0]), pts(r[1])), rrecv, [Sp, Sp, ix, ix, ix, Sp]),
        "payment id": (lambda p, q, k: tsx_helper.encrypt_payment_id(p, q, k), bytes, lambda p, q, k: cn.xor8(p, cn.pid8_key(cn.derivation(q, k))), [pids, Pp, Sp]),
        "key image": (lambda p, k: monero.generate_key_image(pts(p), k), pts, lambda p, k: ed.enc(cn.key_image(k, ed.enc(p))), [Pp, Sp]),
    }
    history(c, ops, 90 if c.backend == "tcry" else 22)


def c33(c):
    from monero_glue.xmr import crypto, monero, ring_ct
    from monero_serialize.xmrtypes import EcdhTuple

    rng = c.rng
    ms = nsc(rng) + [0]
    am = [0, 1, rng.getrandbits(64), 2**64 - 1]
    sh = near(rng, 31)
    sh = [x + b"\x00" for x in sh]
    sk = nsc(rng)
    r = gen.rsc(rng)

    def enc(m, a, s, v2):
        return ring_ct.ecdh_encode(EcdhTuple(mask=m, amount=crypto.sc_init(a)), derivation=s, v2=v2)

    def fields(m, a, s, v2):
        if v2:
            return bytes(32), cn.xor8(a.to_bytes(8, "little"), cn.amount_key(s)) + bytes(24), cn.commitment_mask(s)
        h = cn.hs(s)
        return ed.scenc((m + h) % L), ed.scenc((a + cn.hs(ed.scenc(h))) % L), m

    def renc(m, a, s, v2):
        return fields(m, a, s, v2)[1]

    # what an independent sender wrote for the first key, read with either of them
    def dec(m, a, k, v2):
        s = ed.enc(ed.mul(ed.mulb(sk[0]), r))
        f = fields(m, a, s, v2)
        e = EcdhTuple(mask=crypto.decodeint(f[0]), amount=crypto.decodeint(f[1]))
        e.senderPk = crypto.decodepoint(ed.enc(ed.mulb(r)))
        return ring_ct.ecdh_decode(e, receiver_sk=k, v2=v2)

    def rdec(m, a, k, v2):
        s = ed.enc(ed.mul(ed.mulb(sk[0]), r))
        f = fields(m, a, s, v2)
        t = ed.enc(ed.mul(ed.mulb(r), k))
        if v2:
            return ed.scenc(cn.commitment_mask(t)), cn.xor8(f[1][:8], cn.amount_key(t)) + bytes(24)
        h = cn.hs(t)
        return ed.scenc((int.from_bytes(f[0], "little") - h) % L), ed.scenc((int.from_bytes(f[1], "little") - cn.hs(ed.scenc(h))) % L)

    two = lambda e: (ints(e.mask), ints(e.amount))
    M, A, SH, K, F = S(ms), V(am), BA(sh), S(sk), V([False, True])
    Pq = P([ed.mulb(gen.rsc(rng)), cn.H, cn.commit(5, 5)])
    ops = {
        "commitment": (crypto.gen_c, pts, lambda m, a: ed.enc(cn.commit(m, a)), [M, A]),
        "commitment over another base": (lambda m, k, q: crypto.add_keys2(m, k, q), pts, lambda m, k, q: ed.enc(ed.add(ed.mulb(m), ed.mul(q, k))), [M, K, Pq]),
        "proof form": (ring_ct.bp_comm_to_v, pts, lambda q: ed.enc(ed.mul(q, pow(8, -1, L))), [Pq]),
        "sum": (lambda p, q, t: ring_ct.sum_Ci([p, q, t]), pts, lambda p, q, t: ed.enc(ed.add(ed.add(p, q), t)), [Pq, Pq, Pq]),
        "sum of one": (lambda p: ring_ct.sum_Ci([p]), pts, lambda p: ed.enc(p), [Pq]),
        "mask": (monero.commitment_mask, ints, lambda s: ed.scenc(cn.commitment_mask(bytes(s))), [SH]),
        "amount key": (monero.ecdh_hash, bytes, lambda s: cn.amount_key(bytes(s)), [SH]),
        "hide": (enc, lambda e: ints(e.amount), lambda m, a, s, v: renc(m, a, bytes(s), v), [M, A, SH, F]),
        "reveal": (dec, two, rdec, [V(ms), A, K, F]),
    }
    history(c, ops, 110 if c.backend == "tcry" else 26)


def c17(c):
    from monero_glue.xmr import crypto

    rng = c.rng
    base = near(rng, 32) + near(rng, 135)[:2] + near(rng, 136)[:2] + [b"", b"\0"]
    m = BA(base)
    key = BA(near(rng, 32))
    cnt = V([1, 2, 10])

    def into(x):
        b = bytearray(32)
        crypto.keccak_hash_into(b, x)
        return b

    def kdf(k, s, n):
        if c.backend == "tcry":
            return keccak.pbkdf2_keccak(bytes(k), bytes(s), 32, n)
        return hashlib.pbkdf2_hmac("sha256", bytes(k), bytes(s), n, 32)

    def two(x, y):
        k = crypto.get_keccak(x)
        j = k.copy()
        k.update(y)
        return k.digest(), j.digest()

    ops = {
        "hash": (crypto.keccak_hash, bytes, lambda x: keccak.keccak256(bytes(x)), [m]),
        "hash into": (into, bytes, lambda x: keccak.keccak256(bytes(x)), [m]),
        "double hash": (crypto.keccak_2hash, bytes, lambda x: keccak.keccak256(keccak.keccak256(bytes(x))), [m]),
        "forked hash": (two, lambda r: tuple(bytes(x) for x in r), lambda x, y: (keccak.keccak256(bytes(x) + bytes(y)), keccak.keccak256(bytes(x))), [m, m]),
        "hash to scalar": (crypto.hash_to_scalar, ints, lambda x: ed.scenc(cn.hs(bytes(x))), [m]),
        "hash to point": (crypto.hash_to_point, pts, lambda x: ed.enc(cn.hash_to_ec(bytes(x))), [V(near(rng, 32))]),
        "mac": (crypto.compute_hmac, bytes, lambda k, x: keccak.hmac_keccak256(bytes(k), bytes(x)), [key, m]),
        "stretched": (lambda k, s, n: crypto.pbkdf2(bytes(k), bytes(s), count=n), bytes, kdf, [key, key, cnt]),
    }
    history(c, ops, 90 if c.backend == "tcry" else 24)


def c25(c):
    from monero_glue.misc import b58_mnr
    from monero_glue.xmr import monero

    rng = c.rng
    k = V(near(rng, 32))
    net = V([0, 1, 2])
    pid = V([None] + near(rng, 8))
    sub = V([False, True])

    def ref(s, v, n, p, u):
        if u and p:
            return None
        return b58m.addr_encode(b58m.TAGS[n][2 if u else 1 if p else 0], s + v + (p or b""))

    def dec(s, v, n, p, u):
        a = ref(s, v, n, p, u)
        if a is None:
            raise ValueError
        return monero.decode_addr(a)

    def rdec(s, v, n, p, u):
        return None if u and p else (n, 2 if u else 1 if p else 0, s, v, p, ref(s, v, n, p, u))

    def canon(a):
        kind = 1 if a.is_integrated else 2 if a.is_sub_address else 0
        return a.net_type, kind, bytes(a.spend_key), bytes(a.view_key), None if a.payment_id is None else bytes(a.payment_id), bytes(a.addr)

    ops = {
        "encode": (lambda s, v, n, p, u: monero.public_addr_encode(monero.build_address(s, v), u, n, p), bytes, ref, [k, k, net, pid, sub]),
        "decode": (dec, canon, rdec, [k, k, net, pid, sub]),
        "blocks": (lambda x: b58_mnr.b58encode(data_bin=x), bytes, lambda x: b58m.encode(x), [V(near(rng, 16) + near(rng, 9))]),
    }
    history(c, ops, 90 if c.backend == "tcry" else 40)


def ix(n):
    return V(list(range(n)))


def safe(fn):
    def f(*a):
        try:
            return bool(fn(*a))
        except Exception:
            return False

    return f


def memo(fn):
    d = {}

    def f(*a):
        if a not in d:
            d[a] = fn(*a)
        return d[a]

    return f


def c21(c):
    from .checks import C21
    from .ref import signers, sigs

    from monero_glue.xmr import mlsag2

    rng = c.rng
    n = 2
    x = gen.rsc(rng)
    z = gen.rsc(rng)
    am = rng.getrandbits(50)
    fam = []
    at = rng.randrange(n)
    # two signatures by the same key in the same place of two rings
    for _ in range(2):
        dest = [ed.mulb(gen.rsc(rng)) for _ in range(n)]
        dest[at] = ed.mulb(x)
        mask = [cn.commit(gen.rsc(rng), rng.getrandbits(40)) for _ in range(n)]
        mask[at] = cn.commit(z, am)
        a1 = gen.rsc(rng)
        pseudo = cn.commit(a1, am)
        msg = gen.rb(rng, 32)
        pk = [[d, ed.sub(m, pseudo)] for d, m in zip(dest, mask)]
        II, ss, cc = signers.mlsag_sign(rng, msg, pk, [x, (z - a1) % L], at, 1)
        fam.append((dest, mask, pseudo, msg, II, ss, cc))
    objs = [C21.to_mg(C21.Sig(msg=f[3], pk=None, II=f[4], ss=f[5], cc=f[6], ds=1)) for f in fam]
    rings = [[[C21.ringkeys(d[0], m[1]) for m in fam] for d in fam]][0]
    psd = [C21.P2(f[2]) for f in fam]

    def fn(m, i, d, k, p):
        return mlsag2.ver_rct_mg_simple(fam[m][3], objs[i], rings[d][k], psd[p])

    @memo
    def ref(m, i, d, k, p):
        pk = [[a, ed.sub(b, fam[p][2])] for a, b in zip(fam[d][0], fam[k][1])]
        return sigs.mlsag_verify(fam[m][3], pk, fam[i][4], fam[i][5], fam[i][6], 1)

    agree(c, "verify", fn, ref, 5, 60 if c.backend == "tcry" else 14)


def c22(c):
    from .checks import C21, C22

    from monero_glue.xmr import mlsag2

    rng = c.rng
    n = 2
    a = C22.honest(rng, n)
    b = C22.honest(rng, n)
    S2, P2 = C21.S2, C21.P2
    fam = [a, b]
    ss = [[S2(x) for x in q.s] for q in fam]
    c1 = [S2(q.c1) for q in fam]
    ki = [P2(q.ki) for q in fam]
    d8 = [P2(q.d8) for q in fam]
    psd = [P2(q.pseudo) for q in fam]
    rings = [[C21.ringkeys(q.dest, r.mask) for r in fam] for q in fam]

    def fn(m, s, k, i, d, r, w, p):
        v = mlsag2.verify_clsag(fam[m].msg, ss[s], c1[k], ki[i], d8[d], rings[r][w], psd[p])
        return True if v is None else v

    @memo
    def ref(m, s, k, i, d, r, w, p):
        q = C22.Sig(msg=fam[m].msg, s=fam[s].s, c1=fam[k].c1, ki=fam[i].ki, d8=fam[d].d8, dest=fam[r].dest, mask=fam[w].mask, pseudo=fam[p].pseudo)
        return bool(q.ref())

    agree(c, "verify", fn, ref, 8, 60 if c.backend == "tcry" else 12)


def agree(c, name, fn, ref, k, n):
    """verdicts over mixtures of two honest signatures, the honest ones coming back in between"""
    rng = c.rng
    fn = safe(fn)
    for step in range(n):
        w = rng.randrange(2)
        ixs = [w] * k
        if step % 3:
            ixs[rng.randrange(k)] = 1 - w
            if rng.random() < 0.2:
                ixs[rng.randrange(k)] = 1 - w
        exp = bool(ref(*ixs))
        c.eq(fn(*ixs), exp, "verdict depends on earlier calls", op=name, parts=ixs)
        c.count("history_accepted" if exp else "history_refused")
        c.distinct("history", name, ixs)


def c23(c):
    from .checks import C21, C23
    from .ref import signers, sigs

    from monero_glue.xmr import crypto, ring_ct

    rng = c.rng
    n = 2
    x = gen.rsc(rng)
    fam = []
    for _ in range(2):
        pubs = [ed.mulb(gen.rsc(rng)) for _ in range(n)]
        at = rng.randrange(n)
        pubs[at] = ed.mulb(x)
        pre = gen.rb(rng, 32)
        I, sig = signers.ring_sign(rng, pre, pubs, x, at)
        other = ed.mul(I, 3)
        data = gen.rb(rng, 32)
        cc, r, pub = signers.schnorr_sign(rng, data, x + len(fam))
        fam.append((pre, I if not fam else other, pubs, sig, data, cc, r, pub))
    S2, P2 = C21.S2, C21.P2
    ki = [P2(f[1]) for f in fam]
    pubs = [[P2(p) for p in f[2]] for f in fam]
    sg = [[[S2(v) for v in e] for e in f[3]] for f in fam]
    # the second image is no image of the key: nothing made with it is valid, the first pair always is
    good = signers.ring_sign(rng, fam[1][0], fam[1][2], x, fam[1][2].index(next(p for p in fam[1][2] if ed.eq(p, ed.mulb(x)))))
    fam[1] = fam[1][:3] + (good[1],) + fam[1][4:]
    sg[1] = [[S2(v) for v in e] for e in good[1]]

    @memo
    def ref(m, i, p, s):
        return sigs.ring_sig_verify(fam[m][0], fam[i][1], fam[p][2], fam[s][3])

    agree(c, "ring", lambda m, i, p, s: ring_ct.check_ring_singature(fam[m][0], ki[i], pubs[p], sg[s]), ref, 4, 40 if c.backend == "tcry" else 10)
    # same image, the rings and messages mixed
    agree(c, "ring of one image", lambda m, p, s: ring_ct.check_ring_singature(fam[m][0], ki[0], pubs[p], sg[s]), lambda m, p, s: ref(m, 0, p, s), 3, 30 if c.backend == "tcry" else 8)
    cs, rs, pk = [S2(f[5]) for f in fam], [S2(f[6]) for f in fam], [P2(f[7]) for f in fam]
    agree(
        c,
        "plain",
        lambda d, k, r, p: crypto.check_signature(fam[d][4], cs[k], rs[r], pk[p]),
        memo(lambda d, k, r, p: sigs.schnorr_verify(fam[d][4], fam[k][5], fam[r][6], fam[p][7])),
        4,
        40 if c.backend == "tcry" else 10,
    )


def c24(c):
    from .checks import C21, C24
    from .ref import signers, sigs

    from monero_glue.xmr import ring_ct

    rng = c.rng
    am = rng.getrandbits(64)
    # two proofs for the same amount
    fam = [signers.borromean_range_sign(rng, am, gen.rsc(rng)) for _ in range(2)]
    Cs = [C21.P2(f[0]) for f in fam]

    def fn(C, a, b, e, k):
        R = C24.to_rsig(fam[a][1], fam[b][2], fam[e][3], fam[k][4], True)
        return ring_ct.ver_range(Cs[C], R, decode=True)

    ref = memo(lambda C, a, b, e, k: sigs.borromean_range_verify(fam[C][0], fam[a][1], fam[b][2], fam[e][3], fam[k][4]))
    agree(c, "range", fn, ref, 5, 9)


def c19(c):
    from .checks import C19
    from .ref import bpprove, sigs

    from monero_glue.xmr import bulletproof as bp

    rng = c.rng
    am = C19.amount(rng)
    ps = [bpprove.prove(rng, [am], [C19.mask(rng)]) for _ in range(2)]
    names = ["V", "A", "S", "T1", "T2", "taux", "mu", "L", "R", "a", "b", "t"]
    b = bp.BulletProofBuilder()

    def mix(*w):
        q = C19.copy(ps[w[0]])
        for k, i in zip(names, w):
            setattr(q, k, getattr(ps[i], k))
        return q

    ref = memo(lambda *w: sigs.bp_verify(mix(*w)))
    # one verifier object for all of it
    agree(c, "range proof", lambda *w: b.verify(C19.to_proj(mix(*w))), ref, len(names), 14)
    agree(c, "two proofs", lambda *w: b.verify_batch([C19.to_proj(mix(*w)), C19.to_proj(ps[0])]), ref, len(names), 8)


def c29(c):
    """the helpers with few keys, nonces and messages that agree at one end; encryptors are judged by what they wrote"""
    from monero_glue.xmr import crypto
    from monero_glue.xmr.enc import aescbc, aesgcm, chacha, chacha_poly

    from .ref import symm

    rng = c.rng
    keys = near(rng, 32)
    ivs = near(rng, 12)
    msgs = near(rng, 48, 4) + near(rng, 17)[:2] + [b"", b"\0"]
    blocks = near(rng, 48, 4) + near(rng, 16)
    aads = [None, b""] + near(rng, 16)
    used = set()

    def fresh(what, iv):
        c.ok((what, bytes(iv)) not in used, "nonce reused", key="nonce", op=what)
        used.add((what, bytes(iv)))

    def cp_enc(k, m, a):
        iv, ct, tag = chacha_poly.encrypt(k, m, a)
        fresh("poly", iv)
        c.eq(bytes(ct), symm.aead_seal(k, bytes(iv), m, a or b""), "sealed text depends on earlier calls", k=k, m=m, a=a)
        return m

    def cp_pack(k, m, a):
        b = bytes(chacha_poly.encrypt_pack(k, m, a))
        fresh("poly", b[:12])
        c.eq(b[12:], symm.aead_seal(k, b[:12], m, a or b""), "sealed text depends on earlier calls", k=k, m=m, a=a)
        return m

    def gcm_enc(k, m, a):
        iv, ct, tag = aesgcm.encrypt(k, m, a)
        fresh("gcm", iv)
        e = symm.gcm_seal(k, bytes(iv), m, a or b"")
        c.eq((bytes(ct), bytes(tag)), (bytes(e[0]), bytes(e[1])), "sealed text depends on earlier calls", k=k, m=m, a=a)
        return m

    def ch_enc(k, m):
        b = bytes(chacha.encrypt(k, m))
        fresh("chacha", b[:8])
        c.eq(b[8:], symm.chacha20(k, b[:8], m), "ciphertext depends on earlier calls", k=k, m=m)
        return m

    one = lambda k, m, *a: m
    # what was sealed with one key, nonce and data, opened with another of each
    sealed = {}

    def seal(k, v, m, a):
        t = (k, v, m, a)
        if t not in sealed:
            sealed[t] = symm.aead_seal(k, v, m, a or b"")
        return sealed[t]

    def cp_dec(k, v, m, a, k2, v2, a2):
        return chacha_poly.decrypt(k2, v2, seal(k, v, m, a), a2)

    def cp_unpack(k, v, m, a, k2, v2, a2):
        return chacha_poly.decrypt_pack(k2, v2 + seal(k, v, m, a), a2)

    def r_dec(k, v, m, a, k2, v2, a2):
        return m if (k, v, a or b"") == (k2, v2, a2 or b"") else None

    def gcm_dec(k, v, m, a, k2, v2, a2):
        ct, tag = symm.gcm_seal(k, v, m, a or b"")
        return aesgcm.decrypt(k2, v2, ct, tag, a2)

    K, I, M, A, B = V(keys), V(ivs), V(msgs), V(aads), V(blocks)
    I8, I16 = V(near(rng, 8)), V(near(rng, 16))
    k2, i2, a2 = V(keys[:2]), V(ivs[:2]), V([None] + aads[2:4])
    ops = {
        "poly encrypt": (cp_enc, bytes, one, [K, M, A]),
        "poly encrypt packed": (cp_pack, bytes, one, [K, M, A]),
        "poly decrypt": (cp_dec, bytes, r_dec, [k2, i2, M, a2, k2, i2, a2]),
        "poly decrypt packed": (cp_unpack, bytes, r_dec, [k2, i2, M, a2, k2, i2, a2]),
        "gcm encrypt": (gcm_enc, bytes, one, [K, M, A]),
        "gcm decrypt": (gcm_dec, bytes, r_dec, [k2, i2, M, a2, k2, i2, a2]),
        "cbc encrypt": (aescbc.encrypt, bytes, lambda k, m, v: symm.cbc(k, v, m), [K, B, I16]),
        "cbc decrypt": (aescbc.decrypt, bytes, lambda k, m, v: symm.cbc(k, v, m, False), [K, B, I16]),
        "chacha encrypt": (ch_enc, bytes, one, [K, M]),
        "chacha decrypt": (lambda k, v, m: chacha.decrypt(k, v + m), bytes, lambda k, v, m: symm.chacha20(k, v, m), [K, I8, M]),
    }
    history(c, ops, 240)
    # what was sealed is opened again after all that, with the key and data it belongs to
    for t, ct in sealed.items():
        c.eq(bytes(chacha_poly.decrypt(t[0], t[1], ct, t[3])), t[2], "opens no more", k=t[0], iv=t[1], aad=t[3])


def c29x(c):
    """the wallet cipher with two keys and files that agree at one end"""
    import pycryptonight

    from monero_glue.xmr import crypto
    from monero_glue.xmr.enc import chacha

    from .ref import symm

    rng = c.rng
    raw = pycryptonight.cn_slow_hash
    slow = memo(lambda b: raw(b))
    chacha.pycryptonight.cn_slow_hash = lambda d: slow(bytes(d))
    try:
        sk = nsc(rng)
        sk.append(L - sk[0])
        msgs = near(rng, 40)
        non = near(rng, 8)[:2]
        rs = [gen.rsc(rng) for _ in range(2)]

        @memo
        def sealed(k, v, m, r):
            b = non[v] + symm.chacha20(slow(ed.scenc(sk[k])), non[v], msgs[m])
            cc = cn.hs(cn.keccak256(b) + ed.enc(ed.mulb(sk[k])) + ed.enc(ed.mulb(rs[r])))
            return b, ed.scenc(cc) + ed.scenc((rs[r] - cc * sk[k]) % L)

        def dec(k2, k, v, m, r, m2):
            return chacha.decrypt_xmr(crypto.decodeint(ed.scenc(sk[k2])), sealed(k, v, m, r)[0] + sealed(k, v, m2, r)[1])

        def enc(k, m):
            b = bytes(chacha.encrypt_xmr(crypto.decodeint(ed.scenc(sk[k])), msgs[m]))
            c.eq(b[8:-64], symm.chacha20(slow(ed.scenc(sk[k])), b[:8], msgs[m]), "ciphertext depends on earlier calls")
            cc, r = int.from_bytes(b[-64:-32], "little"), int.from_bytes(b[-32:], "little")
            A = ed.mulb(sk[k])
            c.eq(cn.hs(cn.keccak256(b[:-64]) + ed.enc(A) + ed.enc(ed.add(ed.mul(A, cc), ed.mulb(r)))), cc, "signature depends on earlier calls")
            return msgs[m]

        ops = {
            "decrypt": (dec, bytes, lambda k2, k, v, m, r, m2: msgs[m] if k2 == k and m == m2 else None, [ix(4), ix(4), ix(2), ix(3), ix(2), ix(3)]),
            "encrypt": (enc, bytes, lambda k, m: msgs[m], [ix(4), ix(3)]),
            "decrypt plain": (
                lambda k2, k, v, m: chacha.decrypt_xmr(crypto.decodeint(ed.scenc(sk[k2])), sealed(k, v, m, 0)[0], authenticated=False),
                bytes,
                lambda k2, k, v, m: symm.chacha20(slow(ed.scenc(sk[k2])), non[v], sealed(k, v, m, 0)[0][8:]),
                [ix(4), ix(4), ix(2), ix(3)],
            ),
        }
        history(c, ops, 60 if c.backend == "tcry" else 18)
    finally:
        chacha.pycryptonight.cn_slow_hash = raw


def c27(c):
    """nodes of two wallets that share a key or a chain code, every step asked for again and again"""
    from monero_glue.misc.bip.bip32 import Wallet

    from .checks import C27

    rng = c.rng
    nets = rng.sample(C27.NETS, 2)
    k = [int.from_bytes(x, "big") % secp.N or 1 for x in near(rng, 32)]
    cc = near(rng, 32)[:2]
    nodes = [secp.Node(x, secp.mul(secp.G, x), y, 1, b"abcd", 7) for x in k for y in cc[: 2 if x == k[0] else 1]]
    # the same node met elsewhere in the tree
    nodes.append(secp.Node(k[0], nodes[0].pub, cc[0], 2, b"abcd", 7))
    nodes.append(secp.Node(k[0], nodes[0].pub, cc[0], 1, b"abce", 8))
    ids = [0, 1, 2**31 - 1]
    wal = {}

    def wallet(n, net, pub):
        t = (n, net, pub)
        if t not in wal or rng.random() < 0.3:
            nt = C27.net(nets[net])
            x = nodes[n].neuter() if pub else nodes[n]
            wal[t] = Wallet.deserialize(C27.b58check(x.ser(nt.EXT_PUBLIC_KEY if pub else nt.EXT_SECRET_KEY)), nets[net])
        return wal[t]

    def out(w, net):
        nt = C27.net(nets[net])
        return (
            str(w.serialize_b58(bool(w.private_key))),
            bytes(w.get_public_key_hex()).decode(),
            str(w.to_address()),
            w.depth,
            w.child_number,
        )

    def exp(n, net):
        nt = C27.net(nets[net])
        ser = n.ser(nt.EXT_SECRET_KEY) if n.k is not None else n.ser(nt.EXT_PUBLIC_KEY)
        return C27.b58check(ser), secp.ser(n.pub).hex(), C27.b58check(bytes([nt.PUBKEY_ADDRESS]) + secp.hash160(secp.ser(n.pub))), n.depth, n.num

    ckd = memo(lambda n, i, h: secp.ckd(nodes[n], ids[i], h))

    def step(n, net, pub, i, h):
        return C27.child(rng, wallet(n, net, pub), ids[i], h), net

    def rstep(n, net, pub, i, h):
        if pub and h:
            return None
        x = ckd(n, i, h)
        return exp(x.neuter() if pub else x, net)

    def path(n, net, i, h, j, g):
        w = wallet(n, net, False)
        return w.get_child_for_path("m/%d%s/%d%s" % (ids[i], "'" if h else "", ids[j], "'" if g else "")), net

    def rpath(n, net, i, h, j, g):
        return exp(secp.ckd(ckd(n, i, h), ids[j], g), net)

    def wif(n, net, comp):
        return wallet(n, net, False).export_to_wif() if comp else wallet(n, net, False).get_private_key_hex()

    canon = lambda r: out(*r)
    N, T, I = ix(len(nodes)), ix(2), ix(3)
    ops = {
        "child": (step, canon, rstep, [N, T, V([False, True]), I, V([False, True])]),
        "path": (path, canon, rpath, [N, T, I, V([False, True]), I, V([False, True])]),
        "node": (lambda n, net, pub: (wallet(n, net, pub), net), canon, lambda n, net, pub: exp(nodes[n].neuter() if pub else nodes[n], net), [N, T, V([False, True])]),
        "public copy": (lambda n, net: (wallet(n, net, False).public_copy(), net), canon, lambda n, net: exp(nodes[n].neuter(), net), [N, T]),
    }
    history(c, ops, 60)


def c27slip(c):
    """the same secrets on both curves"""
    from monero_glue.misc.bip.bip32 import Wallet

    rng = c.rng
    seeds = near(rng, 32)[:2]
    ids = [0, 1, 2**31 - 1]

    def fn(s, i, j):
        w = Wallet.from_master_secret(seeds[s], use_ed25519=True)
        return w.get_child_for_path("m/%d'/%d'" % (ids[i], ids[j]))

    def ref(s, i, j):
        n = secp.slip_ckd(secp.slip_ckd(secp.slip_master(seeds[s]), ids[i]), ids[j])
        return n[0].hex(), n[1].hex()

    def fn2(s, i, j):
        return Wallet.from_master_secret(seeds[s]).get_child_for_path("m/%d'/%d'" % (ids[i], ids[j]))

    def ref2(s, i, j):
        n = secp.ckd(secp.ckd(secp.master(seeds[s]), ids[i], True), ids[j], True)
        return n.k.to_bytes(32, "big").hex(), n.cc.hex()

    canon = lambda w: (bytes(w.get_private_key_hex()).decode(), bytes(w.chain_code).decode())
    history(c, {"ed25519": (fn, canon, ref, [ix(2), ix(3), ix(3)]), "secp256k1": (fn2, canon, ref2, [ix(2), ix(3), ix(3)])}, 30)
