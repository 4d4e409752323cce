"""Commitments and hidden amounts are exact."""

from .. import cross, gen
from ..ref import cn, ed
from ..ref.ed import L
from .C21 import P2, S2, int_of, pt_of

RULE = (
    "amounts over the whole 64-bit range (borders, powers of two, random), masks including 0, 1, L-1, shared secrets random; commitments by gen_c and add_keys2, sums and differences of commitments of random lists; "
    "hidden amounts in the long and the short format encoded by the code and decoded independently and the other way round, by derivation and by key pair; decoding from whole transactions with "
    "right, wrong and altered secrets, amounts, masks, commitments, repeated on the same transaction. distinct = (operation, amount class, format, verdict)"
)
ASSUMPTIONS = ["masks and amounts enter as reduced scalars; in the short format the mask is derived, the one handed in is ignored"]

BORDER = [0, 1, 2, 255, 256, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 2, (1 << 64) - 1, 10**12]


def amount(rng):
    return rng.choice(BORDER + [1 << rng.randrange(64), rng.getrandbits(rng.randrange(1, 65)), rng.getrandbits(64)])


def mask(rng):
    return rng.choice([0, 1, L - 1, gen.rsc(rng), gen.rsc(rng), gen.rsc(rng), gen.rsc(rng)])


def f_commit(c):
    """family 'commit': commitments and their sums"""
    from monero_glue.xmr import crypto, ring_ct

    rng = c.rng
    A, M, Cs = [], [], []
    for _ in range(rng.randrange(1, 6)):
        a, m = amount(rng), mask(rng)
        exp = ed.enc(cn.commit(m, a))
        C = crypto.gen_c(S2(m), a)
        c.eq(bytes(crypto.encodepoint(C)), exp, "commitment", amount=a, mask=m)
        C2 = crypto.add_keys2(S2(m), crypto.sc_init(a), crypto.xmr_H())
        c.eq(bytes(crypto.encodepoint(C2)), exp, "add_keys2 commitment", amount=a, mask=m)
        C3 = crypto.add_keys2(S2(m), S2(a), crypto.xmr_H())
        c.eq(bytes(crypto.encodepoint(C3)), exp, "add_keys2 commitment of a decoded amount", amount=a, mask=m)
        C4 = crypto.point_add(crypto.scalarmult_base(S2(m)), crypto.scalarmult_h(a))
        c.eq(bytes(crypto.encodepoint(C4)), exp, "mask and amount parts", amount=a, mask=m)
        A.append(a), M.append(m), Cs.append(C)
        V = ring_ct.bp_comm_to_v(C)
        c.eq(ed.enc(ed.mul8(pt_of(V))), exp, "proof form of a commitment", amount=a, mask=m)
        c.eq(int_of(crypto.sc_init(a)), a, "amount as a scalar")
        c.eq(crypto.sc_get64(crypto.sc_init(a)), a, "amount from a scalar")
        c.count("commitments")
        c.distinct("commit", a.bit_length(), m in (0, 1, L - 1))
    s = ring_ct.sum_Ci(Cs)
    c.eq(bytes(crypto.encodepoint(s)), ed.enc(cn.commit(sum(M) % L, sum(A))), "sum of commitments", amounts=A)
    for x, a, m in zip(Cs, A, M):
        c.eq(bytes(crypto.encodepoint(x)), ed.enc(cn.commit(m, a)), "summing changed a commitment")
    # balance: inputs equal outputs plus fee exactly when the difference is a commitment to zero
    if len(Cs) > 1:
        d = crypto.point_sub(s, Cs[0])
        c.eq(bytes(crypto.encodepoint(d)), ed.enc(cn.commit((sum(M) - M[0]) % L, sum(A) - A[0])), "difference of commitments")
    e = ring_ct.sum_Ci([])
    c.ok(crypto.point_eq(e, crypto.identity()), "empty sum")
    r = c.refused(lambda: crypto.sc_init(rng.choice([1 << 64, (1 << 64) + 5, 1 << 70])), "amount of more than 64 bits")


def enc_ref(shared, a, m, v2):
    """(mask, amount) fields, and the opening mask"""
    if v2:
        return bytes(32), cn.xor8(a.to_bytes(8, "little"), cn.amount_key(shared)) + bytes(24), cn.commitment_mask(shared)
    h = cn.hs(shared)
    hh = cn.hs(ed.scenc(h))
    return ed.scenc((m + h) % L), ed.scenc((a + hh) % L), m


def f_ecdh(c):
    """family 'ecdh': both formats, both directions"""
    from monero_glue.xmr import crypto, monero, ring_ct
    from monero_serialize.xmrtypes import EcdhTuple

    rng = c.rng
    for _ in range(4):
        a, m, sh = amount(rng), mask(rng), ed.scenc(gen.rsc(rng))
        c.eq(int_of(monero.commitment_mask(sh)), cn.commitment_mask(sh), "derived mask")
        c.eq(bytes(monero.ecdh_hash(sh)), cn.amount_key(sh), "amount key")
        for v2 in (False, True):
            em, ea, om = enc_ref(sh, a, m, v2)
            src = EcdhTuple(mask=S2(m), amount=S2(a))
            d = EcdhTuple() if rng.random() < 0.3 else None
            e = ring_ct.ecdh_encode(src, derivation=rng.choice([bytes, bytearray])(sh), v2=v2, dest=d)
            c.ok(d is None or e is d, "destination object")
            c.eq((int_of(src.mask), int_of(src.amount)), (m, a), "encoding changed what it was given")
            c.eq(bytes(crypto.encodeint(e.amount)), ea, "hidden amount", v2=v2, amount=a)
            if not v2:
                c.eq(bytes(crypto.encodeint(e.mask)), em, "hidden mask", amount=a)
            # decode what an independent sender wrote
            r = ring_ct.ecdh_decode(EcdhTuple(mask=crypto.decodeint(em), amount=crypto.decodeint(ea)), derivation=sh, v2=v2)
            c.eq((int_of(r.amount), int_of(r.mask)), (a, om), "decoded amount and mask", v2=v2)
            c.eq(crypto.sc_get64(r.amount), a, "decoded amount as a number", v2=v2)
            # by key pair
            sk = gen.rsc(rng)
            e = ring_ct.ecdh_encode(EcdhTuple(mask=S2(m), amount=S2(a)), receiver_pk=P2(ed.mulb(sk)), v2=v2)
            shp = ed.enc(ed.mul(pt_of(e.senderPk), sk))
            pm, pa, pom = enc_ref(shp, a, m, v2)
            c.eq(bytes(crypto.encodeint(e.amount)), pa, "amount hidden for a public key", v2=v2)
            r = ring_ct.ecdh_decode(e, receiver_sk=S2(sk), v2=v2)
            c.eq((int_of(r.amount), int_of(r.mask)), (a, pom), "amount decoded with the secret key", v2=v2)
            w = ring_ct.ecdh_decode(e, receiver_sk=S2(sk + 1), v2=v2)
            c.ok((int_of(w.amount), int_of(w.mask)) != (a, pom), "amount decoded with another secret key", v2=v2)
            c.count("encodings", 2)
            c.distinct("ecdh", v2, a.bit_length(), m in (0, 1, L - 1))


def f_tx(c):
    """family 'tx': decoding outputs of a transaction"""
    from monero_glue.xmr import crypto, monero
    from monero_serialize import xmrtypes as x

    rng = c.rng
    typ = rng.choice([1, 2, 3, 4, 4])
    v2 = typ == 4
    n = rng.choice([1, 2, 3, 5])
    D = ed.mul8(ed.mulb(gen.rsc(rng)))
    rv = x.RctSig()
    rv.type = typ
    rv.ecdhInfo, rv.outPk = [], []
    op = []
    for i in range(n):
        a, m = amount(rng), mask(rng)
        sh = ed.scenc(cn.deriv_scalar(D, i))
        em, ea, om = enc_ref(sh, a, m, v2)
        rv.ecdhInfo.append(x.EcdhTuple(mask=bytearray(em), amount=bytearray(ea)))
        rv.outPk.append(x.CtKey(dest=gen.rb(rng, 32), mask=ed.enc(cn.commit(om, a))))
        op.append((a, om))

    def read(i, d):
        r = monero.ecdh_decode_rv(rv, P2(d), i)
        return crypto.sc_get64(r[0]), int_of(r[1])

    snap = [(bytes(e.mask), bytes(e.amount)) for e in rv.ecdhInfo]

    def same():
        c.eq([(bytes(e.mask), bytes(e.amount)) for e in rv.ecdhInfo], snap, "decoding changed the transaction", type=typ)

    seq = list(range(n)) * 2
    rng.shuffle(seq)
    for i in seq:
        if rng.random() < 0.5:
            W = ed.mul8(ed.mulb(gen.rsc(rng)))
            c.refused(lambda: read(i, W), "output opened with another shared secret", type=typ)
            same()
            c.count("wrong_secrets")
        c.eq(read(i, D), op[i], "decoded output", type=typ, index=i)
        same()
        c.count("decoded")
    # another index is another secret
    if n > 1:
        i, j = rng.sample(range(n), 2)
        c.refused(lambda: monero.ecdh_decode_simple(rv, S2(cn.deriv_scalar(D, j)), i, v2=v2), "output opened with another index", type=typ)
    c.refused(lambda: read(n, D), "output beyond the last", type=typ)
    # altered fields
    for _ in range(4):
        i = rng.randrange(n)
        k = rng.choice(["amount", "commit", "mask", "type", "len"])
        e, o = rv.ecdhInfo[i], rv.outPk[i]
        keep = (e.mask, e.amount, o.mask, rv.type, list(rv.outPk))
        if k == "amount":
            b = bytearray(e.amount)
            b[rng.randrange(8)] ^= 1 << rng.randrange(8)
            if not v2:
                b = bytearray(ed.scenc(int.from_bytes(b, "little") % L))
            e.amount = b
        elif k == "commit":
            o.mask = ed.enc(cn.commit(op[i][1], (op[i][0] + 1) % (1 << 64)))
        elif k == "mask":
            if v2:
                o.mask = ed.enc(cn.commit(op[i][1] + 1, op[i][0]))
            else:
                e.mask = bytearray(ed.scenc((int.from_bytes(e.mask, "little") + 1) % L))
        elif k == "type":
            rv.type = rng.choice([0, 3, 4, 7, 99])
            if (rv.type == 3 and not v2) or (rv.type == 4 and v2):
                rv.type = 0
        else:
            rv.outPk = rv.outPk[:-1] if rng.random() < 0.5 else rv.outPk + [rv.outPk[0]]
        c.refused(lambda: read(i, D), "output with altered %s opened" % k, type=typ)
        e.mask, e.amount, o.mask, rv.type, rv.outPk = keep
        c.eq(read(i, D), op[i], "decoded output after restoring", type=typ)
        c.count("altered")
        c.distinct("tx", typ, n, k)


FAMILIES = {
    "history": dict(fn=cross.c33, quick={"tcry": 4, "py": 2}, thorough={"tcry": 100, "py": 20}, backends=("tcry", "py")),
    "commit": dict(fn=f_commit, quick=dict(tcry=40, py=10), thorough=dict(tcry=1500, py=150)),
    "ecdh": dict(fn=f_ecdh, quick=dict(tcry=40, py=8), thorough=dict(tcry=1500, py=120)),
    "tx": dict(fn=f_tx, quick=dict(tcry=60, py=10), thorough=dict(tcry=2000, py=150)),
}
