"""Ownership detection and spend-key derivation are exact."""

import collections

from .. import cross, gen
from ..ref import cn, ed, keccak
from ..ref.ed import L

RULE = (
    "random wallets with random subaddress tables; outputs paid to main address, listed and unlisted subaddresses and other wallets, through main or additional keys, at "
    "output positions up to 2^32, with wrong positions, swapped keys, low-order components in the transaction key; the verdict, the subaddress, the one-time secret and the key "
    "image are compared with an independent derivation. Key derivations, subaddresses, key generation and amount scanning are compared for edge values. "
    "histories of related values (sharing parts, repeated, interleaved) in one process, each judged alone; distinct = (payment kind, subaddress class, additional keys, position class, verdict)"
)
ASSUMPTIONS = [
    "an output that needs an additional key beyond the announced list is an error, not a verdict",
    "scanning of amounts covers the signature types the scanner names (long form: Full, Simple, Bulletproof; short form: Bulletproof2)",
]

IDX = [0, 1, 2, 15, 127, 128, 255, 256, 16383, 16384, 2**21, 2**31 - 1, 2**32 - 1]


def creds(w_a, w_b):
    from monero_glue.xmr import crypto, monero

    return monero.AccountCreds.new_wallet(crypto.decodeint(ed.scenc(w_a)), crypto.decodeint(ed.scenc(w_b)))


def subidx(rng):
    r = rng.random()
    if r < 0.25:
        return (0, 0)
    if r < 0.4:
        return (0, rng.choice([1, 2, 10, 2**32 - 1]))
    if r < 0.55:
        return (rng.choice([1, 3, 2**32 - 1]), 0)
    return (rng.choice([0, 1, 2, 7, 2**31, rng.getrandbits(32)]), rng.choice([0, 1, 2, 5, 255, 2**31, rng.getrandbits(32)]))


def P2(x):
    from monero_glue.xmr import crypto

    return crypto.decodepoint(ed.enc(x))


def S2(x):
    from monero_glue.xmr import crypto

    return crypto.decodeint(ed.scenc(x))


def E(p):
    from monero_glue.xmr import crypto

    return bytes(crypto.encodepoint(p))


def cls(i):
    return 0 if i == 0 else 1 if i < 128 else 2 if i < 2**14 else 3 if i < 2**31 else 4


def fam_own(c):
    from monero_glue.xmr import crypto, monero

    rng = c.rng
    a, b = gen.rsc(rng), gen.rsc(rng)
    cr = creds(a, b)
    Bp = ed.mulb(b)
    listed = {(0, 0)} if rng.random() < 0.9 else set()
    while len(listed) < 6:
        listed.add(subidx(rng))
    tbl = {}
    per = collections.defaultdict(list)
    for mj, mn in sorted(listed):
        per[mj].append(mn)
    for mj, mns in per.items():
        out = monero.compute_subaddresses(cr, mj, mns, tbl)
        c.ok(out is tbl, "table of subaddresses not extended in place")
    exp = {ed.enc(cn.subaddr_pub(a, Bp, *s)[0]): s for s in listed}
    c.eq({bytes(k): v for k, v in tbl.items()}, exp, "table of subaddresses")
    c.eq(monero.compute_subaddresses(cr, 5, [1]), {ed.enc(cn.subaddr_pub(a, Bp, 5, 1)[0]): (5, 1)}, "table of subaddresses (new)")
    a2, b2 = gen.rsc(rng), gen.rsc(rng)

    for _ in range(14 if c.backend == "tcry" else 4):
        who = rng.choice(["listed", "listed", "listed", "unlisted", "other"])
        if who == "listed":
            s = rng.choice(sorted(listed))
        else:
            s = subidx(rng)
            if s in listed and who == "unlisted":
                continue
        va, vb = (a2, b2) if who == "other" else (a, b)
        D, C = cn.subaddr_pub(va, ed.mulb(vb), *s)
        n_add = rng.choice([0, 0, 1, 2, 4])
        idx = rng.choice(IDX) if n_add == 0 else rng.randrange(n_add)
        via = "additional" if n_add and rng.random() < 0.6 else "main"
        r = gen.rsc(rng)
        R = ed.mul(D, r) if s != (0, 0) else ed.mulb(r)
        dv = cn.derivation(C, r)
        out = cn.derive_pub(dv, idx, D)
        if rng.random() < 0.15:
            R = ed.add(R, rng.choice(ed.torsion_points()))  # clearing the cofactor makes it the same derivation
        main = R if via == "main" else ed.mulb(gen.rsc(rng))
        adds = [ed.mulb(gen.rsc(rng)) for _ in range(n_add)]
        if via == "additional":
            adds[idx] = R
        use_idx, mine = idx, who == "listed"
        twist = None
        if mine and rng.random() < 0.4:
            twist = rng.choice(["idx", "main", "out", "swap", "short"])
            if twist == "idx":
                if n_add:
                    use_idx = (idx + 1) % n_add
                    mine = use_idx == idx
                else:
                    use_idx = idx + 1
                    mine = False
            elif twist == "main" and via == "main":
                main = ed.add(main, ed.B)
                mine = False
            elif twist == "out":
                out = ed.add(out, ed.B)
                mine = False
            elif twist == "swap" and via == "additional" and n_add > 1:
                j = (idx + 1) % n_add
                adds[idx], adds[j] = adds[j], adds[idx]
                mine = False
            elif twist == "short" and via == "additional":
                adds = adds[:idx]
                mine = None if adds else False
        oddtors = rng.random() < 0.1
        if oddtors and mine:
            out = ed.add(out, ed.torsion_points()[rng.randrange(1, 8)])
            mine = False
        det = dict(who=who, sub=s, via=via, idx=idx, used=use_idx, twist=twist, n_add=n_add)
        od = crypto.generate_key_derivation(P2(main), cr.view_key_private)
        ads = [crypto.generate_key_derivation(P2(x), cr.view_key_private) for x in adds]
        if mine is None:
            c.refused(lambda: monero.is_out_to_acc_precomp(tbl, P2(out), od, ads, use_idx), "missing additional key not reported", **det)
            c.refused(lambda: monero.generate_key_image_helper(cr, tbl, P2(out), P2(main), [P2(x) for x in adds], use_idx), "missing additional key not reported", **det)
            c.count("refused")
            continue
        if not mine and adds and use_idx >= len(adds):
            continue
        got = monero.is_out_to_acc_precomp(tbl, P2(out), od, ads if ads or rng.random() < 0.5 else None, use_idx)
        c.distinct(who, s == (0, 0), 0 in s, via, bool(n_add), cls(use_idx), twist, mine)
        c.count("verdicts")
        if not mine:
            c.ok(got is None, "a foreign output was taken for the wallet's own", got=str(got), **det)
            c.refused(
                lambda: monero.generate_key_image_helper(cr, tbl, P2(out), P2(main), [P2(x) for x in adds], use_idx),
                "a key image was made for a foreign output",
                **det
            )
            continue
        c.ok(got is not None, "the wallet's own output was not recognised", **det)
        c.eq(tuple(got[0]), s, "subaddress of the received output", **det)
        c.eq(E(got[1]), ed.enc(dv), "derivation of the received output", **det)
        xi, ki, rd = monero.generate_key_image_helper(cr, tbl, P2(out), P2(main), [P2(x) for x in adds], use_idx)
        x = (cn.derive_sec(dv, idx, b) + (0 if s == (0, 0) else cn.subaddr_m(a, *s))) % L
        c.eq(bytes(crypto.encodeint(xi)), ed.scenc(x), "one-time secret", **det)
        c.eq(ed.enc(ed.mulb(x)), ed.enc(out), "oracle: one-time secret opens the output")
        c.eq(E(ki), ed.enc(cn.key_image(x)), "key image", **det)
        c.eq(E(rd), ed.enc(cn.derivation(main, a)), "receiving derivation", **det)
        c.count("key_images")
        # the inner step refuses an inconsistent claim
        for bad in ("out", "idx", "sub", "deriv"):
            ar = [P2(out), got[1], use_idx, s]
            if bad == "out":
                ar[0] = P2(ed.add(out, ed.B))
            elif bad == "idx":
                ar[2] = use_idx + 1
            elif bad == "sub":
                ar[3] = (s[0], (s[1] + 1) % 2**32)
            else:
                ar[1] = P2(ed.add(dv, ed.B))
            c.refused(lambda: monero.generate_key_image_helper_precomp(cr, *ar), "one-time secret computed for keys that do not match the output", bad=bad, **det)
            c.count("refused")
        watch = creds(a, b)
        watch.spend_key_private = crypto.sc_0()
        c.refused(lambda: monero.generate_key_image_helper(watch, tbl, P2(out), P2(main), [P2(x) for x in adds], use_idx), "a watch-only wallet made a key image", **det)
        # multisig: only a part of the spend secret is known; the partial key image uses it
        part = gen.rsc(rng)
        ms = creds(a, b)
        ms.spend_key_private = S2(part)
        ms.multisig_keys = [1]
        xi, ki, _ = monero.generate_key_image_helper(ms, tbl, P2(out), P2(main), [P2(x) for x in adds], use_idx)
        xp = (cn.derive_sec(dv, idx, part) + (0 if s == (0, 0) else cn.subaddr_m(a, *s))) % L
        c.eq((bytes(crypto.encodeint(xi)), E(ki)), (ed.scenc(xp), ed.enc(cn.key_image(xp, ed.enc(out)))), "partial key image", **det)


def fam_derive(c):
    from monero_glue.xmr import crypto, monero

    rng = c.rng
    get = lambda s: bytes(crypto.encodeint(s))
    for _ in range(16 if c.backend == "tcry" else 5):
        k = rng.choice([1, 2, L - 1, gen.rsc(rng), gen.rsc(rng)])
        q = ed.mulb(gen.rsc(rng))
        if rng.random() < 0.3:
            q = ed.add(q, rng.choice(ed.torsion_points()))
        elif rng.random() < 0.1:
            q = rng.choice(ed.torsion_points())
        i = rng.choice(IDX + [rng.getrandbits(32)])
        base = gen.rsc(rng)
        dp = ed.mulb(gen.rsc(rng))
        c.eq(E(crypto.generate_key_derivation(P2(q), S2(k))), ed.enc(cn.derivation(q, k)), "key derivation", pub=ed.enc(q), sec=k)
        c.eq(get(crypto.derivation_to_scalar(P2(dp), i)), ed.scenc(cn.deriv_scalar(dp, i)), "derivation to scalar", i=i)
        c.eq(E(crypto.derive_public_key(P2(dp), i, P2(q))), ed.enc(cn.derive_pub(dp, i, q)), "derived public key", i=i)
        c.eq(get(crypto.derive_secret_key(P2(dp), i, S2(base))), ed.scenc(cn.derive_sec(dp, i, base)), "derived secret key", i=i)
        c.eq(E(monero.derive_subaddress_public_key(P2(q), P2(dp), i)), ed.enc(ed.sub(q, ed.mulb(cn.deriv_scalar(dp, i)))), "subaddress spend key of an output", i=i)
        s = subidx(rng)
        a, b = gen.rsc(rng), gen.rsc(rng)
        Bp = ed.mulb(b)
        D, C = cn.subaddr_pub(a, Bp, *s)
        m = cn.subaddr_m(a, *s)
        c.eq(get(crypto.get_subaddress_secret_key(S2(a), *s)), ed.scenc(m), "subaddress secret", sub=s)
        if s != (0, 0):
            c.eq(get(monero.get_subaddress_secret_key(S2(a), major=s[0], minor=s[1])), ed.scenc(m), "subaddress secret", sub=s)
            ix = type("I", (), dict(major=s[0], minor=s[1]))()
            c.eq(get(monero.get_subaddress_secret_key(S2(a), index=ix)), ed.scenc(m), "subaddress secret", sub=s)
        c.eq(E(monero.get_subaddress_spend_public_key(S2(a), P2(Bp), *s)), ed.enc(D), "subaddress spend key", sub=s)
        g = monero.generate_sub_address_keys(S2(a), P2(Bp), *s)
        c.eq((E(g[0]), E(g[1])), (ed.enc(D), ed.enc(C)), "subaddress keys", sub=s)
        pub = ed.enc(ed.mulb(base))
        c.eq(E(monero.generate_key_image(pub, S2(base))), ed.enc(cn.key_image(base)), "key image")
        seed = rng.choice([rng.randbytes(32), b"\xff" * 32, ed.scenc(L - 1), (L + 5).to_bytes(32, "little")])
        ss = int.from_bytes(seed, "little") % L
        vs = cn.hs(ed.scenc(ss))
        r = monero.generate_monero_keys(seed)
        c.eq((get(r[0]), E(r[1]), get(r[2]), E(r[3])), (ed.scenc(ss), ed.enc(ed.mulb(ss)), ed.scenc(vs), ed.enc(ed.mulb(vs))), "wallet keys from a seed", seed=seed)
        cr = creds(a, b)
        c.eq((E(cr.spend_key_public), E(cr.view_key_public), get(cr.spend_key_private), get(cr.view_key_private)), (ed.enc(Bp), ed.enc(ed.mulb(a)), ed.scenc(b), ed.scenc(a)), "wallet credentials")
        c.count("derivations", 10)
        c.distinct("derive", cls(i), s == (0, 0), 0 in s, k in (1, 2, L - 1))
    # payment ids are hidden with the shared secret and come back the same
    for _ in range(4):
        from monero_glue.xmr.sub import tsx_helper

        v = gen.rsc(rng)
        V = ed.mulb(v)
        r = gen.rsc(rng)
        pid = rng.randbytes(8)
        e = bytes(tsx_helper.encrypt_payment_id(pid, P2(V), S2(r)))
        c.eq(e, cn.xor8(pid, cn.pid8_key(cn.derivation(V, r))), "hidden payment id")
        c.eq(bytes(tsx_helper.encrypt_payment_id(e, P2(ed.mulb(r)), S2(v))), pid, "payment id revealed by the recipient")


def fam_scan(c):
    """amounts of received outputs, as the wallet scanner reads them from a transaction"""
    from monero_glue.xmr import crypto, monero
    from monero_serialize import xmrtypes

    rng = c.rng
    a, b = gen.rsc(rng), gen.rsc(rng)
    cr = creds(a, b)
    s = subidx(rng)
    tbl = {}
    monero.compute_subaddresses(cr, s[0], [s[1]], tbl)
    D, C = cn.subaddr_pub(a, ed.mulb(b), *s)
    T = xmrtypes.RctType
    for typ, short in ((T.Full, 0), (T.Simple, 0), (T.Bulletproof, 0), (T.Bulletproof2, 1)):
        n = rng.choice([1, 2, 3])
        r = gen.rsc(rng)
        R = ed.mulb(r) if s == (0, 0) else ed.mul(D, r)
        dv = cn.derivation(C, r)
        amounts, masks, tx = [], [], xmrtypes.Transaction()
        tx.vout, rv = [], xmrtypes.RctSig()
        rv.type, rv.ecdhInfo, rv.outPk = typ, [], []
        alter = rng.choice([None, None, "amount", "mask", "commitment"])
        if alter == "mask" and short:
            alter = "amount"
        for i in range(n):
            am = rng.choice([0, 1, 2**64 - 1, rng.getrandbits(64), rng.getrandbits(40)])
            sh = cn.deriv_scalar(dv, i)
            if short:
                mask = cn.commitment_mask(ed.scenc(sh))
                ea = cn.xor8(am.to_bytes(8, "little"), cn.amount_key(ed.scenc(sh))) + bytes(24)
                em = bytes(32)
            else:
                mask = gen.rsc(rng)
                h1 = cn.hs(ed.scenc(sh))
                h2 = cn.hs(ed.scenc(h1))
                em, ea = ed.scenc((mask + h1) % L), ed.scenc((am + h2) % L)
            cm = cn.commit(mask, am)
            if alter == "amount":
                ea = bytes([ea[0] ^ 1]) + ea[1:]
            elif alter == "mask":
                em = bytes([em[0] ^ 1]) + em[1:]
            elif alter == "commitment":
                cm = ed.add(cm, cn.H)
            amounts.append(am)
            masks.append(mask)
            k = ed.enc(cn.derive_pub(dv, i, D))
            tx.vout.append(xmrtypes.TxOut(amount=0, target=xmrtypes.TxoutToKey(key=k)))
            rv.ecdhInfo.append(xmrtypes.EcdhTuple(mask=em, amount=ea))
            rv.outPk.append(xmrtypes.CtKey(dest=k, mask=ed.enc(cm)))
        tx.rct_signatures = rv
        got = collections.defaultdict(int)
        outs = []
        od = crypto.generate_key_derivation(P2(R), cr.view_key_private)
        for i in range(n):
            info = monero.check_acc_out_precomp(tx.vout[i], tbl, od, [], i)
            c.ok(info.received and not info.error, "own output not found by the scanner", i=i, type=typ)
            if alter:
                c.refused(lambda: monero.scan_output(cr, tx, i, info, got, outs, False), "an altered amount was accepted by the scanner", alter=alter, type=typ)
                c.count("refused")
                continue
            info = monero.scan_output(cr, tx, i, info, got, outs, False)
            c.eq(info.amount, amounts[i], "scanned amount", type=typ)
            c.eq(bytes(crypto.encodeint(info.mask)), ed.scenc(masks[i]), "scanned mask", type=typ)
            x = (cn.derive_sec(dv, i, b) + (0 if s == (0, 0) else cn.subaddr_m(a, *s))) % L
            c.eq((bytes(crypto.encodeint(info.in_ephemeral)), E(info.ki)), (ed.scenc(x), ed.enc(cn.key_image(x))), "scanned keys", type=typ)
            c.count("scanned")
        if not alter:
            c.eq(dict(got), {s: sum(amounts)}, "money counted by the scanner")
            c.eq(outs, list(range(n)), "outputs counted by the scanner")
        c.distinct("scan", typ, n, alter, s == (0, 0))
        foreign = xmrtypes.TxOut(amount=0, target=xmrtypes.TxoutToKey(key=ed.enc(ed.mulb(gen.rsc(rng)))))
        info = monero.check_acc_out_precomp(foreign, tbl, od, [], 0)
        c.ok(not info.received and info.money_transfered == 0, "foreign output taken by the scanner")


FAMILIES = {
    "history": dict(fn=cross.c18, quick={"tcry": 4, "py": 2}, thorough={"tcry": 100, "py": 20}, backends=("tcry", "py")),
    "own": dict(fn=fam_own, quick={"tcry": 24, "py": 8}, thorough={"tcry": 1000, "py": 150}, backends=("tcry", "py"), weight=2),
    "derive": dict(fn=fam_derive, quick={"tcry": 16, "py": 8}, thorough={"tcry": 500, "py": 100}, backends=("tcry", "py"), weight=1),
    "scan": dict(fn=fam_scan, quick={"tcry": 16, "py": 6}, thorough={"tcry": 500, "py": 100}, backends=("tcry", "py"), weight=1),
}
