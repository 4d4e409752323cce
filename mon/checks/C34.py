"""The transaction builder produces faithful construction data."""

import contextlib
import io
import random

from .. import dev, gen
from ..harness import run
from ..ref import b58m, cn, ed
from ..ref import tx as T
from ..ref.ed import L

RULE = (
    "random builder call sequences (1..5 inputs of random amounts, accounts and subaddresses, with and without per-output keys, rings of 2..16, 1..5 destinations of every kind, change or exact spend, payment ids, shuffling, "
    "interleaved), the construction data and the transfers judged by an independent wallet, serialized and parsed back, described, and signed by the real host and device into a transaction judged by the consensus and recipient "
    "oracles; refusals. histories of related values (sharing parts, repeated, interleaved) in one process, each judged alone; distinct = (shape of inputs, outputs, change, payment id, ring)"
)
ASSUMPTIONS = ["inputs of an account other than the transaction's are announced as unspendable by the builder and not signed", "transactions have at least two outputs"]


class S:
    pass


def kin(rng):
    """wallets that share one of their keys"""
    ws = [gen.W(rng) for _ in range(3)]
    ws[1].__dict__.update(a=ws[0].a, A=ws[0].A)
    ws[2].__dict__.update(b=ws[0].b, B=ws[0].B)
    return ws


def make(c, rng, ws=None):
    from monero_glue.xmr import transaction_builder
    from monero_glue.xmr.sub.xmr_net import NetworkTypes as NT

    s = S()
    s.w = rng.choice(ws) if ws else gen.W(rng)
    s.others = [w for w in ws if w is not s.w] if ws else [gen.W(rng) for _ in range(rng.choice([1, 2, 3]))]
    b = s.b = transaction_builder.TransactionBuilder()
    b.prng = random.Random(rng.getrandbits(64))
    b.src_keys = dev.creds_of(s.w)
    creds = {id(w): dev.creds_of(w) for w in s.others + [s.w]}
    b.dest_keys = [creds[id(w)] for w in s.others]
    b.nettype = NT.TESTNET
    b.ring_size = s.ring = rng.choice([2, 3, 5, 11, 16])
    b.account_idx = s.account = rng.choice([0, 0, 1, 5, 300])
    b.fee = s.fee = rng.randrange(1, 1 << 20)
    n_in = rng.choice([1, 1, 2, 3, 5])
    n_out = rng.choice([1, 1, 2, 3, 5])
    s.exact = n_out > 1 and rng.random() < 0.25
    ins = [rng.choice([rng.getrandbits(40) + (1 << 22), rng.getrandbits(50) + (1 << 22), 1 << 60]) for _ in range(n_in)]
    left = sum(ins) - s.fee
    amts = []
    for i in range(n_out):
        last = i == n_out - 1
        a = left if last and s.exact else rng.choice([0 if n_out > 1 and i else 1, rng.randrange(1, left + 1), left // 3 + 1, left if last else 1])
        amts.append(a)
        left -= a
    s.outs, s.meta = [], []
    pid = rng.choice([None, None, 8, 32])
    kinds = [rng.choice(["std", "std", "sub", "own_sub"]) for _ in range(n_out)]
    if pid == 8:
        if n_out != 1 or not amts[0]:
            pid = None
        else:
            kinds = [rng.choice(["std", "sub"])]
    s.pid = gen.rb(rng, pid) if pid else b""
    s.integrated = None
    ops = [("in", a) for a in ins] + [("out", i) for i in range(n_out)] + ([("pid", 0)] if pid else [])
    rng.shuffle(ops)
    for k, x in ops:
        if k == "in":
            mi, ad = rng.choice([0, 0, 1, 2, 40, 255, 256, rng.randrange(1, 1000)]), rng.random() < 0.5
            run(b.gen_input(x, sub_minor=mi, additionals=ad) if rng.random() < 0.7 else b.gen_input(x, sub_major=s.account, sub_minor=mi, additionals=ad))
            s.meta.append((mi, ad, x))
        elif k == "pid":
            run(b.set_payment_id(s.pid))
        else:
            kd = kinds[x]
            w = s.w if kd == "own_sub" else rng.choice(s.others)
            mj, mn = (0, 0) if kd == "std" else (rng.choice([0, 0, 2]), rng.randrange(1, 30))
            if kd == "own_sub":
                mj = s.account
            d = gen.Dst("std" if kd == "std" else "sub", w, mj, mn, amts[x])
            if pid == 8 and kd == "std":
                d.kind, d.pid = "int", s.pid
                s.integrated = d
            s.outs.append(d)
            run(b.gen_output(d.amount, dest=creds[id(w)], sub_major=mj, sub_minor=mn, payment_id=d.pid))
    s.dests = list(s.outs)
    s.change_dst = None
    if not s.exact:
        run(b.gen_change())
        s.change_dst = gen.Dst("change", s.w, s.account, 0, left)
        s.outs.append(s.change_dst)
    s.shuffled = rng.random() < 0.5
    if s.shuffled:
        run(b.shuffle_outputs())
    s.set = run(b.build())
    return s


def outkey(d):
    return (bytes(d.addr.m_spend_public_key), bytes(d.addr.m_view_public_key), d.amount, bool(d.is_subaddress))


def judge(c, s, data, transfers):
    """construction data and transfers against the description"""
    c.eq(len(data.sources), len(s.meta), "number of inputs")
    c.eq(data.subaddr_account, s.account, "account")
    c.eq(data.unlock_time, 0, "unlock time")
    minors = set(data.subaddr_indices)
    c.ok(minors >= {m for m, _, _ in s.meta}, "subaddress index of an input is missing", inputs=[m for m, _, _ in s.meta], indices=sorted(minors))
    s.chain, s.owned, s.sources = gen.Chain(), [], list(data.sources)
    c.eq(list(data.selected_transfers), list(range(len(s.meta))), "selected transfers")
    for (mi, ad, amt), src, td in zip(s.meta, data.sources, transfers):
        c.eq(src.amount, amt, "input amount")
        idx = [o[0] for o in src.outputs]
        c.eq(len(idx), s.ring, "ring size")
        c.ok(idx == sorted(set(idx)), "ring references are not strictly ascending", idx=idx)
        keys = [bytes(o[1].dest) for o in src.outputs]
        c.eq(len(set(keys)), len(keys), "ring members repeat")
        for o in src.outputs:
            for e in (o[1].dest, o[1].mask):
                c.ok(ed.in_prime_group(ed.dec(bytes(e))), "ring member is not a point of the group")
        c.ok(0 <= src.real_output < s.ring, "real output place")
        P, C = keys[src.real_output], bytes(src.outputs[src.real_output][1].mask)
        mask = int.from_bytes(bytes(src.mask), "little")
        c.ok(mask < L and ed.enc(cn.commit(mask, amt)) == C, "amount and mask do not open the real output's commitment")
        cand = [bytes(src.real_out_tx_key)]
        adds = [bytes(x) for x in src.real_out_additional_tx_keys]
        c.eq(bool(adds), ad, "per-output keys")
        oi = src.real_output_in_tx_index
        if adds:
            c.ok(oi < len(adds), "per-output key of the real output is missing", index=oi, n=len(adds))
            cand.append(adds[oi])
        x = None
        for R in cand:
            h = cn.deriv_scalar(cn.derivation(ed.dec(R), s.w.a), oi)
            sec = (h + s.w.sub_secret(s.account, mi)) % L
            if ed.enc(ed.mulb(sec)) == P:
                x = sec
        c.ok(x is not None, "the wallet does not own the real output under the declared subaddress", minor=mi, additionals=ad)
        o = gen.Owned()
        o.ki = ed.enc(cn.key_image(x, P))
        o.amount, o.rct, o.major, o.minor, o.add_pubs = amt, True, s.account, mi, adds
        s.owned.append(o)
        for gi, e in src.outputs:
            s.chain.out[gi] = (bytes(e.dest), bytes(e.mask))
        c.ok(src.rct, "RingCT input")
        # the transfer the input comes from
        c.eq(bytes(td.m_key_image), o.ki, "key image of the transfer")
        c.eq(td.m_amount, amt, "amount of the transfer")
        c.eq(td.m_internal_output_index, oi, "output index of the transfer")
        c.eq(td.m_global_output_index, idx[src.real_output], "global index of the transfer")
        c.eq((td.m_subaddr_index.major, td.m_subaddr_index.minor), (s.account, mi), "subaddress of the transfer")
        c.eq(bytes(td.m_mask), bytes(src.mask), "mask of the transfer")
        c.ok(not td.m_spent, "transfer is unspent")
        c.ok(oi < len(td.m_tx.vout), "output index within the transfer's transaction")
        c.eq(bytes(td.m_tx.vout[oi].target.key), P, "key of the transfer's output")
        f = T.parse_extra(bytes(bytearray(td.m_tx.extra)))
        c.eq([v for k, v in f if k == 1], [bytes(src.real_out_tx_key)], "transaction key in the transfer's extra")
        c.eq([v for k, v in f if k == 4], [adds] if adds else [], "per-output keys in the transfer's extra")
        c.count("inputs")
    exp = sorted(d.key() for d in s.outs)
    got = [outkey(d) for d in data.splitted_dsts]
    c.eq(sorted(got), exp, "outputs", case=[repr(d) for d in s.outs])
    if not s.shuffled:
        c.eq(got, [d.key() for d in s.outs], "order of the outputs")
    c.eq(sorted(outkey(d) for d in data.dests), sorted(d.key() for d in s.dests), "destinations without the change")
    c.eq(outkey(data.change_dts) if data.change_dts else None, s.change_dst.key() if s.change_dst else None, "change")
    c.eq(sum(x.amount for x in data.sources) - sum(x.amount for x in data.splitted_dsts), s.fee, "inputs are outputs and fee")
    f = T.parse_extra(bytes(bytearray(data.extra)))
    c.eq(f, [(2, (b"\1" if len(s.pid) == 8 else b"\0") + s.pid)] if s.pid else [], "payment id in the extra")
    # put our description in the order of the outputs
    pool = list(s.outs)
    s.outs = []
    for g in got:
        i = next(i for i, d in enumerate(pool) if d.key() == g)
        s.outs.append(pool.pop(i))
    for d, e in zip(s.outs, data.splitted_dsts):
        if getattr(e, "original", None):
            raw = b58m.decode(e.original if isinstance(e.original, bytes) else e.original.encode())
            c.eq(raw[1:65], d.spend + d.view, "address of the destination")
        if hasattr(e, "is_integrated"):  # not part of the archive format
            c.eq(bool(e.is_integrated), d.kind == "int", "integrated destination")


def f_repeat(c):
    """family 'repeat': set after set by wallets that share keys"""
    ws = kin(c.rng)
    for _ in range(4):
        f_build(c, ws=ws)
    c.count("repeated")


def f_build(c, sign=False, ws=None):
    """family 'build': construction data"""
    from monero_glue.hwtoken import misc
    from monero_serialize import xmrtypes

    rng = c.rng
    s = make(c, rng, ws)
    tx = s.set.txes[0]
    c.eq(len(s.set.txes), 1, "one transaction")
    if s.change_dst is not None and (rng.random() < 0.6 or not sign):
        # (the serialization library has no form for absent change)
        raw = run(s.b.serialize_unsigned())
        back = xmrtypes.UnsignedTxSet()
        run(misc.parse_msg(bytes(raw), back))
        c.eq(bytes(run(misc.dump_msg(back))), bytes(raw), "construction data serialized again")
        tx, trs = back.txes[0], back.transfers
        c.count("reparsed")
    else:
        trs = s.set.transfers
    judge(c, s, tx, trs)
    if not sign:
        # description and the little helpers
        subs = None
        if rng.random() < 0.5:
            subs = {}
            s.b.precompute_subaddr(s.b.src_keys, subs, 1, 3)
            from monero_glue.xmr import monero

            monero.compute_subaddresses(s.b.src_keys, s.account, [m for m, _, _ in s.meta], subs)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            run(s.b.describe(s.set, s.b.src_keys, subs))
        c.ok("#transfers: %d" % len(s.meta) in out.getvalue(), "description of the set")
        ca = run(s.b.primary_change_address(s.b.src_keys, s.account))
        c.eq((bytes(ca.m_spend_public_key), bytes(ca.m_view_public_key)), s.w.addr(s.account, 0), "change address")
        ci = run(s.b.find_change_idx(tx))
        if s.change_dst is not None and s.change_dst.amount:
            c.ok(ci is not None and (s.outs[ci].spend, s.outs[ci].view) == (s.change_dst.spend, s.change_dst.view), "place of the change", ci=ci)
        c.count("described")
    c.count("built")
    c.distinct("build", len(s.meta), tuple(sorted((bool(m), a) for m, a, _ in s.meta)), tuple(sorted(d.kind for d in s.outs)), len(s.pid), s.ring, s.account != 0, s.shuffled)
    return s, tx


def f_sign(c):
    """family 'sign': what the host and the device make of it"""
    rng = c.rng
    s, tx = f_build(c, sign=True)
    if s.pid and len(s.pid) == 8 and s.change_dst and gen.needs_additional(s.outs, (s.change_dst.spend, s.change_dst.view)) and s.dests[0].is_sub:
        return
    s.unlock = 0
    d = dev.device(s.w)
    a = dev.agent(dev.Wire(d), (1, 10))

    async def go():
        await a.sign_transaction_data(tx, aux_data=dev.aux_for(s))
        return await a.serialized_tx()

    blob = run(go())
    t = dev.check_consensus(c, s, blob, (1, 10))
    dev.check_recipients(c, s, t)
    c.count("signed")
    c.distinct("sign", len(t.vin), len(t.vout), s.ring)


def f_refuse(c):
    """family 'refuse': what the builder must not build"""
    from monero_glue.xmr import transaction_builder
    from monero_glue.xmr.sub.xmr_net import NetworkTypes as NT

    rng = c.rng
    w = gen.W(rng)
    b = transaction_builder.TransactionBuilder()
    b.prng = random.Random(rng.getrandbits(64))
    b.src_keys = dev.creds_of(w)
    b.dest_keys = dev.creds_of(gen.W(rng)) if rng.random() < 0.5 else [dev.creds_of(gen.W(rng))]
    b.nettype, b.fee, b.ring_size = NT.TESTNET, 100, 3
    run(b.gen_input(1000))
    run(b.gen_output(rng.choice([901, 1000, 5000])))
    c.refused(lambda: run(b.gen_change()), "change although outputs and fee exceed the inputs")
    c.eq((len(b.outputs), b.change_idx), (1, None), "a refused change leaves an output behind")
    c.refused(lambda: run(b.gen_change(-1)), "negative change")
    for v in (0, 1, rng.randrange(1 << 40)):
        b2 = transaction_builder.TransactionBuilder()
        b2.src_keys, b2.dest_keys, b2.nettype, b2.fee, b2.ring_size = b.src_keys, b.dest_keys, b.nettype, b.fee, 3
        run(b2.gen_input(rng.choice([1000, 5000])))
        run(b2.gen_output(rng.choice([10, 901, 1000])))
        try:
            run(b2.gen_change(v))
            got = b2.outputs[-1].amount, b2.change_idx
        except Exception as e:
            got = repr(e)
        c.eq(got, (v, 1), "change of an explicit amount")
    c.refused(lambda: run(b.gen_output(5, sub_minor=rng.randrange(1, 9), payment_id=gen.rb(rng, 8))), "integrated subaddress")
    c.refused(lambda: run(b.gen_output(5, sub_major=1, payment_id=gen.rb(rng, 8))), "integrated subaddress")
    c.eq(len(b.outputs), 1, "a refused output stays")
    for n in (0, 7, 9, 16, 33):
        c.refused(lambda: run(b.set_payment_id(gen.rb(rng, n))), "payment id of %d bytes" % n)
    # two builders do not share state
    c.eq(len(transaction_builder.TransactionBuilder().outputs), 0, "builders share their outputs")
    c.count("refusals", 9)


FAMILIES = {
    "build": dict(fn=f_build, quick=40, thorough=900, backends=("tcry",)),
    "repeat": dict(fn=f_repeat, quick=8, thorough=120, backends=("tcry",)),
    "sign": dict(fn=f_sign, quick=24, thorough=300, backends=("tcry",), weight=3),
    "refuse": dict(fn=f_refuse, quick=4, thorough=20, backends=("tcry",)),
}
