"""Value is conserved against a lying host."""

from .. import dev, gen, host
from ..ref import cn, ed, tx as rtx
from ..ref.ed import L

RULE = (
    "an honest scenario is turned into a lie kept up consistently through the whole session (input amounts, masks, real ring position, ring members, "
    "transaction keys, output indices, ring form, foreign outputs, fee, counts, account; single, and compensated between inputs, outputs and the fee). "
    "Monitor: an input is signed only if its claimed commitment opens to the claimed amount and mask and its claimed output belongs to the wallet; a "
    "completed transaction must balance, pay the approved outputs and fee and carry valid proofs and signatures over the claimed rings. "
    "distinct = (lie, outcome step, version)"
)
ASSUMPTIONS = ["a ring the host invented is not on the chain, so signatures over it are worthless; only the claims are judged then"]


def ownership(w, src, account, minors):
    """one-time secret of the claimed output for the wallet's listed addresses, or None"""
    if not 0 <= (src.real_output or 0) < len(src.outputs):
        return None
    P = bytes(src.outputs[src.real_output or 0].key.dest)
    keys = [bytes(src.real_out_tx_key)]
    adds = [bytes(x) for x in src.real_out_additional_tx_keys or []]
    # output indices are 32-bit numbers
    i = (src.real_output_in_tx_index or 0) & 0xFFFFFFFF
    if i < len(adds):
        keys.append(adds[i])
    for k in keys:
        p = ed.dec(k)
        if p is None:
            continue
        d = cn.derivation(p, w.a)
        for m in {0} | set(minors):
            for acc in {account, 0}:
                x = cn.derive_sec(d, i, w.sub_secret(acc, m))
                if ed.enc(ed.mulb(x)) == P:
                    return x
    return None


def opens(src):
    e = src.outputs[src.real_output or 0].key
    return bytes(e.commitment) == ed.enc(cn.commit(int.from_bytes(bytes(src.mask), "little") % L, src.amount or 0))


# a lie: fn(c, s, h) -> label or None when it does not apply
def lie_amount(c, s, h):
    j = c.rng.randrange(h.n_in)
    k = c.rng.choice(["+1", "-1", "zero", "double", "huge", "bit"])
    a = h.src[j].amount
    h.src[j].amount = {"+1": a + 1, "-1": a - 1, "zero": 0, "double": 2 * a, "huge": (1 << 64) - 1, "bit": a ^ (1 << c.rng.randrange(40))}[k] & ((1 << 64) - 1)
    return "amount:" + k


def lie_amount_out(c, s, h):
    """an input is overstated and an output takes the difference"""
    j = c.rng.randrange(h.n_in)
    d = c.rng.choice([1, 1 << 20, 1 << 40])
    i = c.rng.randrange(h.n_out)
    h.src[j].amount += d
    bump(h, i, d)
    return "amount+output:%d" % d.bit_length()


def bump(h, i, d):
    was = (h.tsx.outputs[i].addr, h.tsx.outputs[i].amount)
    h.tsx.outputs[i].amount += d
    h.dst[i].amount += d
    ch = h.tsx.change_dts
    if ch is not None and bytes(ch.addr.spend_public_key) == bytes(was[0].spend_public_key) and (ch.amount or 0) == (was[1] or 0):
        ch.amount += d
    h.s.outs[i].amount += d


def lie_amount_fee(c, s, h):
    j = c.rng.randrange(h.n_in)
    d = c.rng.choice([1, 1 << 20])
    h.src[j].amount += d
    h.tsx.fee += d
    return "amount+fee"


def lie_two_inputs(c, s, h):
    if h.n_in < 2:
        return None
    i, j = c.rng.sample(range(h.n_in), 2)
    d = min(c.rng.choice([1, 1000]), h.src[j].amount)
    h.src[i].amount += d
    h.src[j].amount -= d
    return "amounts shifted"


def lie_swap_amounts(c, s, h):
    if h.n_in < 2 or h.src[0].amount == h.src[1].amount:
        return None
    a, b = h.src[0], h.src[1]
    a.amount, b.amount = b.amount, a.amount
    if c.rng.random() < 0.5:
        a.mask, b.mask = b.mask, a.mask
    return "amounts swapped"


def lie_mask(c, s, h):
    j = c.rng.randrange(h.n_in)
    k = c.rng.choice(["random", "zero", "one", "flip", "neg"])
    m = int.from_bytes(bytes(h.src[j].mask), "little")
    h.src[j].mask = ed.scenc({"random": gen.rsc(c.rng), "zero": 0, "one": 1, "flip": m ^ 1, "neg": (L - m) % L}[k])
    return "mask:" + k


def lie_mask_two(c, s, h):
    """mask sum kept over two inputs"""
    if h.n_in < 2:
        return None
    d = gen.rsc(c.rng)
    a, b = (int.from_bytes(bytes(h.src[k].mask), "little") for k in (0, 1))
    h.src[0].mask, h.src[1].mask = ed.scenc((a + d) % L), ed.scenc((b - d) % L)
    return "masks shifted"


def lie_real(c, s, h):
    j = c.rng.randrange(h.n_in)
    n = len(h.src[j].outputs)
    k = c.rng.choice(["other", "end", "big"])
    h.src[j].real_output = {"other": (h.src[j].real_output + 1) % n, "end": n, "big": 1 << 31}[k]
    return "real_output:" + k


def lie_txkey(c, s, h):
    j = c.rng.randrange(h.n_in)
    k = c.rng.choice(["random", "own", "flip", "identity", "invalid"])
    h.src[j].real_out_tx_key = {
        "random": ed.enc(ed.mulb(gen.rsc(c.rng))),
        "own": ed.enc(s.w.A),
        "flip": bytes([bytes(h.src[j].real_out_tx_key)[0] ^ 1]) + bytes(h.src[j].real_out_tx_key)[1:],
        "identity": ed.enc(ed.ID),
        "invalid": b"\xff" * 32,
    }[k]
    return "tx key:" + k


def lie_adds(c, s, h):
    j = c.rng.randrange(h.n_in)
    a = list(h.src[j].real_out_additional_tx_keys or [])
    k = c.rng.choice(["drop", "add", "shift", "garbage"])
    if k == "drop":
        if not a:
            return None
        a = []
    elif k == "add":
        a = a + [ed.enc(ed.mulb(gen.rsc(c.rng))) for _ in range(1 + (h.src[j].real_output_in_tx_index or 0))]
    elif k == "shift":
        if not a:
            return None
        a = a[1:] + a[:1]
    else:
        a = [b"\xfe" * 32] * (1 + (h.src[j].real_output_in_tx_index or 0))
    h.src[j].real_out_additional_tx_keys = a
    return "additional keys:" + k


def lie_txidx(c, s, h):
    j = c.rng.randrange(h.n_in)
    i = h.src[j].real_output_in_tx_index or 0
    k = c.rng.choice(["+1", "128", "big"])
    h.src[j].real_output_in_tx_index = {"+1": i + 1, "128": i + 128, "big": 1 << 40}[k]
    return "index in tx:" + k


def lie_decoy(c, s, h):
    """a decoy's key or commitment replaced: signature over a ring that does not exist"""
    j = c.rng.randrange(h.n_in)
    o = h.src[j].outputs
    i = c.rng.choice([x for x in range(len(o)) if x != h.src[j].real_output])
    if c.rng.random() < 0.5:
        o[i].key.dest = ed.enc(ed.mulb(gen.rsc(c.rng)))
    else:
        o[i].key.commitment = ed.enc(ed.mulb(gen.rsc(c.rng)))
    return "decoy"


def lie_commitment(c, s, h):
    """commitment of the spent output replaced: to fit an overstated amount, or not"""
    j = c.rng.randrange(h.n_in)
    e = h.src[j].outputs[h.src[j].real_output].key
    if c.rng.random() < 0.5:
        d = 1 << c.rng.randrange(30)
        h.src[j].amount += d
        bump(h, c.rng.randrange(h.n_out), d)
        e.commitment = ed.enc(cn.commit(int.from_bytes(bytes(h.src[j].mask), "little"), h.src[j].amount))
        return "invented commitment"
    e.commitment = ed.enc(ed.mulb(gen.rsc(c.rng)))
    return "commitment:random"


def lie_dest(c, s, h):
    j = c.rng.randrange(h.n_in)
    e = h.src[j].outputs[h.src[j].real_output].key
    k = c.rng.choice(["random", "neg", "plus torsion", "invalid"])
    P = ed.dec(bytes(e.dest))
    e.dest = {
        "random": ed.enc(ed.mulb(gen.rsc(c.rng))),
        "neg": ed.enc(ed.neg(P)),
        "plus torsion": ed.enc(ed.add(P, ed.torsion_points()[1 + c.rng.randrange(7)])),
        "invalid": b"\xff" * 31 + b"\x7f",
    }[k]
    return "dest:" + k


def lie_foreign(c, s, h):
    """an output of somebody else, with everything else true"""
    j = c.rng.randrange(h.n_in)
    w2 = gen.W(c.rng)
    o = gen.owned_output(c.rng, w2, s.chain, h.src[j].amount, 0, 0)
    h.src[j] = host.src_pb(gen.source_entry(c.rng, s.chain, o, len(h.src[j].outputs)))
    return "foreign output"


def lie_other_account(c, s, h):
    """own output, but of an account or subaddress the transaction did not declare"""
    j = c.rng.randrange(h.n_in)
    acc, mi = c.rng.choice([(s.account + 1, 0), (s.account + 1, 3), (s.account, 45)])
    if acc == s.account and mi in s.minors:
        return None
    o = gen.owned_output(c.rng, s.w, s.chain, h.src[j].amount, acc, mi)
    h.src[j] = host.src_pb(gen.source_entry(c.rng, s.chain, o, len(h.src[j].outputs)))
    return "undeclared own address"


def lie_dup_input(c, s, h):
    if h.n_in < 2:
        return None
    import copy

    d = h.src[1].amount
    h.src[1] = copy.deepcopy(h.src[0])
    if c.rng.random() < 0.5 and h.src[0].amount > d:
        bump(h, c.rng.randrange(h.n_out), h.src[0].amount - d)
    return "input used twice"


def lie_rct(c, s, h):
    j = c.rng.randrange(h.n_in)
    h.src[j].rct = not h.src[j].rct
    return "rct flag"


def lie_fee(c, s, h):
    k = c.rng.choice(["+1", "-1", "zero", "huge", "all"])
    f = h.tsx.fee
    h.tsx.fee = {"+1": f + 1, "-1": f - 1, "zero": 0, "huge": (1 << 64) - 1, "all": f + h.src[0].amount}[k]
    return "fee:" + k


def lie_fee_out(c, s, h):
    """fee raised at the expense of an output (a different, balanced transaction that the user sees)"""
    i = max(range(h.n_out), key=lambda x: h.dst[x].amount)
    d = c.rng.choice([1, 5, 1000])
    if h.dst[i].amount <= d:
        return None
    h.tsx.fee += d
    bump(h, i, -d)
    return "fee moved from output"


def lie_num_inputs(c, s, h):
    k = c.rng.choice([-1, 1])
    if h.tsx.num_inputs + k < 1:
        return None
    h.tsx.num_inputs += k
    return "num_inputs:%+d" % k


def lie_account(c, s, h):
    h.tsx.account = s.account + 1
    return "account"


def lie_outputs_sum(c, s, h):
    d = c.rng.choice([1, -1, 1 << 35, (1 << 63)])
    i = c.rng.randrange(h.n_out)
    if not 0 < h.dst[i].amount + d < 1 << 64:
        return None
    bump(h, i, d)
    return "output amount"


def lie_overflow(c, s, h):
    """outputs and fee sum to the inputs only modulo 2^64"""
    k = c.rng.choice(["fee", "outputs"])
    tot = sum(x.amount for x in h.src)
    if k == "fee":
        out = sum(x.amount for x in h.dst)
        d = (1 << 64) - 1 - h.dst[0].amount
        bump(h, 0, d)
        h.tsx.fee = (tot - (out + d)) % (1 << 64)
    else:
        half = (1 << 63) - 1
        d0, d1 = half - h.dst[0].amount, half - h.dst[1].amount
        if min(d0, d1) <= 0:
            return None
        bump(h, 0, d0)
        bump(h, 1, d1)
        h.tsx.fee = (tot - sum(x.amount for x in h.dst)) % (1 << 64)
    return "overflow:" + k


def lie_multisig(c, s, h):
    h.tsx.is_multisig = True
    return "multisig flag"


LIES = [v for k, v in sorted(globals().items()) if k.startswith("lie_")]


def judge(c, s, h, label, cfg):
    w = s.w
    steps = h.plan()
    if label.startswith("num_inputs"):
        # messages follow the declared count
        steps = steps if "+" in label else [x for x in steps if not (x[0] in ("inp", "vini", "sign") and x[1] >= h.tsx.num_inputs)]
        if "-" in label:
            h.n_in = h.tsx.num_inputs
    outcome = None
    try:
        h.go(steps)
    except host.Refused as r:
        outcome = r.step[0]
    except (IndexError, TypeError, KeyError) as e:
        outcome = "stuck"
    c.distinct(label, outcome, cfg)
    c.count("refused_at_%s" % outcome if outcome else "completed")
    # 1. every signed input was claimed truthfully
    for k in h.sigs:
        src = h.src[h.perm[k]]
        c.ok(opens(src), "input signed although its commitment does not open to the claimed amount and mask", lie=label, input=k)
        c.ok(ownership(w, src, h.tsx.account or 0, s.minors) is not None, "input signed although it does not belong to the wallet", lie=label)
        c.count("signed_inputs_judged")
    if outcome:
        if h.sigs:
            c.count("refused_after_some_signature")
        return
    # 2. a completed transaction balances
    shown = dev.pb_load(h.dev.iface.log[0][1][0], h.dev.iface.log[0][1][1])
    ins = sum(h.src[h.perm[k]].amount or 0 for k in range(h.n_in))
    outs = sum(d.amount or 0 for d in shown.outputs)
    c.eq(ins, outs + (shown.fee or 0), "claimed inputs do not cover the approved outputs and fee", lie=label)
    t = rtx.parse(h.blob())
    c.eq(t.fee, shown.fee or 0, "fee signed differs from the approved one", lie=label)
    rings = [[(bytes(o.key.dest), bytes(o.key.commitment)) for o in h.src[h.perm[k]].outputs] for k in range(h.n_in)]
    bad = rtx.verify(t, rings)
    # repeated key images make a transaction the network refuses, nothing is gained by it
    tolerate = ("descending", "duplicate ring", "amount not hidden")
    bad = [b for b in bad if not any(x in b for x in tolerate)]
    c.ok(not bad, "completed transaction is not balanced and proven", lie=label, problems=bad)
    c.count("completed_judged")


MUST = {  # lies that make the books wrong: never completed
    "amount:", "amount+fee", "amount+output", "amounts shifted", "mask:", "masks shifted", "real_output", "dest:", "foreign", "commitment:", "fee:", "output amount", "overflow", "num_inputs:+",
}


def f_lies(c):
    lie = LIES[c.idx % len(LIES)]
    s = gen.scenario(c.rng, n_in=c.rng.choice([1, 2, 2, 3]), n_out=c.rng.choice([2, 2, 3]), ring=c.rng.choice([2, 3]), change=True, pid=b"", cheap=True)
    cfg = dev.CFGS[c.rng.randrange(3)]
    h = host.RawHost(s, cfg)
    label = lie(c, s, h)
    if label is None:
        c.count("not_applicable")
        return
    judge(c, s, h, label, cfg)
    if any(label.startswith(m) for m in MUST):
        c.ok(h.final is None, "lie was signed", lie=label)
    c.sample(dict(lie=label, case=gen.describe(s)))


def f_pairs(c):
    """two lies at once"""
    s = gen.scenario(c.rng, n_in=c.rng.choice([2, 2, 3]), n_out=2, ring=2, change=True, pid=b"", cheap=True)
    cfg = dev.CFGS[c.rng.randrange(3)]
    h = host.RawHost(s, cfg)
    a, b = c.rng.sample(LIES, 2)
    try:
        la, lb = a(c, s, h), b(c, s, h)
    except (IndexError, KeyError):
        return
    if la and lb and "num_inputs" not in la + lb:
        judge(c, s, h, la + " & " + lb, cfg)


def f_switch(c):
    """truth first, then a different story from one message on (all data of that input consistent)"""
    s = gen.scenario(c.rng, n_in=c.rng.choice([1, 2, 3]), n_out=2, ring=2, change=True, pid=b"", cheap=True)
    cfg = dev.CFGS[c.rng.randrange(3)]
    h = host.RawHost(s, cfg)
    lie = c.rng.choice([lie_amount, lie_mask, lie_real, lie_decoy, lie_commitment, lie_txkey, lie_txidx, lie_dest, lie_adds, lie_swap_amounts])
    when = c.rng.choice(["vini", "sign"])
    plan = h.plan()
    k0 = next(i for i, st in enumerate(plan) if st[0] == when)
    h.go(plan[:k0])
    before = [dev.pb_dump(x) for x in h.src]
    label = lie(c, s, h)
    if label is None:
        return
    liars = {i for i in range(h.n_in) if dev.pb_dump(h.src[i]) != before[i]}
    ok = True
    for st in plan[k0:]:
        if not h.step(st):
            ok = False
            break
        c.ok(not (st[0] == when and h.perm[st[1]] in liars), "changed source data accepted", lie=label, step=st)
    c.ok(not ok or not liars, "session with changed source data completed", lie=label)
    c.distinct("switch", label, when)
    c.count("switched_stories")


FAMILIES = {
    "lies": dict(fn=f_lies, quick={"tcry": 10 * len(LIES), "py": 0}, thorough={"tcry": 80 * len(LIES), "py": 0}, weight=2),
    "pairs": dict(fn=f_pairs, quick=80, thorough=800, backends=("tcry",), weight=2),
    "switch": dict(fn=f_switch, quick=40, thorough=800, backends=("tcry",), weight=2),
}
