"""No transaction is signed unless range proofs cover all its outputs."""

import copy
import itertools

from .. import dev, gen, host, mut
from ..ref import cn, ed, sigs, tx as rtx
from ..ref.ed import L

RULE = (
    "host-chosen batchings (all compositions of the number of outputs, and lists that do not add up, contain zeros or huge numbers) and, for valid batchings, "
    "every kind of proof substitution at every batch end (other masks, amounts, order, batch, session; mutated, truncated, omitted, repeated, early, "
    "extra offloaded messages). Monitor: a session that ends in a signature has one proof per batch which an independent verifier accepts for exactly "
    "the batch's output commitments, and the ring signatures sign those proofs. distinct = (grouping, version, deviation, outcome)"
)
ASSUMPTIONS = ["independent Bulletproof verifier in mon/ref (self-tested)"]
INV8 = pow(8, L - 2, L)


def judge_signed(c, h, label):
    """the finished session's proofs cover the outputs, and the signatures sign them"""
    t = rtx.parse(h.blob())
    rings = [h.s.chain.ring(v.key_offsets) for v in t.vin]
    c.eq(len(t.bps), len(h.grouping), "number of proofs differs from the number of batches", label=label)
    off = 0
    for g, bp in zip(h.grouping, t.bps):
        bp.V = [ed.enc(ed.mul(ed.dec(p), INV8)) for p in t.out_pk[off : off + g]]
        c.ok(len(bp.V) == g and g > 0, "a batch covers no output", grouping=h.grouping, label=label)
        c.ok(sigs.bp_verify(bp), "signed transaction contains a range proof that does not verify", grouping=h.grouping, label=label)
        off += g
        c.count("proofs_verified")
    c.eq(off, len(t.out_pk), "outputs without range proof", grouping=h.grouping, label=label)
    bad = [b for b in rtx.verify(t, rings) if "range proof" not in b]
    c.ok(not bad, "signed transaction invalid", problems=bad, label=label)


def mk(c, n_out, cfg, grouping, n_in=1):
    s = gen.scenario(c.rng, n_in=n_in, n_out=n_out, ring=2, change=True, pid=b"", cheap=True)
    return s, host.RawHost(s, cfg, grouping=list(grouping))


def compositions(n):
    for k in range(n):
        for cuts in itertools.combinations(range(1, n), k):
            p = (0,) + cuts + (n,)
            yield [p[i + 1] - p[i] for i in range(len(p) - 1)]


VALID = [(n, cfg, g) for n in (2, 3, 4, 5) for g in compositions(n) for cfg in dev.CFGS]


def f_valid(c):
    n, cfg, g = VALID[(c.idx * 7) % len(VALID)] if c.tier == "quick" else VALID[c.idx % len(VALID)]
    if c.tier != "quick" and c.idx >= len(VALID):
        n = c.rng.choice([6, 7, 8, 9, 12, 16])
        g = []
        while sum(g) < n:
            g.append(c.rng.randrange(1, n - sum(g) + 1))
    s, h = mk(c, n, cfg, g)
    try:
        h.go()
    except host.Refused as r:
        c.fail("batching that covers the outputs in order was refused", grouping=g, cfg=cfg, step=r.step, error=str(r)[-300:])
    judge_signed(c, h, "valid")
    c.distinct("valid", tuple(g), cfg)
    c.count("valid_batchings")
    c.sample(dict(grouping=g, cfg=cfg, outputs=n))


def bad_groupings(c, n):
    r = c.rng
    cand = [
        [],
        [0],
        [n - 1],
        [n + 1],
        [0, n],
        [n, 0],
        [n, n],
        [n, 1],
        [1] * (n - 1),
        [1] * (n + 1),
        [n // 2, 0, n - n // 2],
        [n - 1, 0, 0],
        [1 << 32],
        [(1 << 64) - 1],
        [n, (1 << 64) - 1],
        [1, (1 << 64) - 1 + n],
        [1 << 63, 1 << 63, n],
        [16],
        [64],
        [n - 1, 2],
        [2, n],
    ]
    return [g for g in cand if sum(g) != n or any(x <= 0 for x in g)]


def run_any(c, h, label):
    """goes as far as the device lets it, whatever the batching; the host delivers the proofs that make most sense"""
    n = h.n_out
    plan = [st for st in host.RawHost.plan(h) if st[0] not in ("out", "bp")]
    k = plan.index(("allout",))
    pre, post = plan[:k], plan[k:]
    try:
        h.go(pre)
    except host.Refused as r:
        return r.step[0]
    try:
        i = 0
        pend = []
        for i in range(n):
            st = ("out", i)
            m = h.build(st) if not (h.offload and h.cfg[0] == 0) else None
            if m is None:
                m = host.M().MoneroTransactionSetOutputRequest(dst_entr=copy.deepcopy(h.dst[i]), dst_entr_hmac=bytes(h.dst_hmac[i]))
            pend.append(i)
            res = h.send(m)
            if dev.is_failure(res):
                return "out"
            h.absorb(st, res, m)
            if h.offload and h.cfg[0] >= 1 and c.rng.random() < 0.5:
                m = host.M().MoneroTransactionSetOutputRequest(
                    rsig_data=host.M().MoneroTransactionRsigData(rsig=host.prove([h.s.outs[x].amount for x in pend], [h.gamma[x] for x in pend])),
                    is_offloaded_bp=True,
                )
                res = h.send(m)
                if dev.is_failure(res):
                    return "bp"
                pend = []
                h.bps.append(bytes(m.rsig_data.rsig))
        h.go(post)
    except host.Refused as r:
        return r.step[0]
    except (IndexError, ValueError, TypeError) as e:
        return "stuck"
    return None


def f_invalid(c):
    n = c.rng.choice([2, 3, 3, 4, 5])
    cfg = dev.CFGS[c.idx % 3]
    gs = bad_groupings(c, n)
    for g in gs if c.tier != "quick" else c.rng.sample(gs, 7):
        s, h = mk(c, n, cfg, g)
        try:
            out = run_any(c, h, g)
        except host.Refused as r:
            out = r.step[0]
        c.distinct("invalid", n, tuple(g), cfg, out)
        c.count("invalid_batchings")
        c.observed += 1
        if out is None:
            # signed all the same: then everything must be covered
            judge_signed(c, h, "invalid batching %r" % (g,))


# proof substitutions: fn(c, h, a, b, msg, env) -> message or None
def sub_masks(c, h, a, b, m, env):
    g = list(h.gamma[a:b])
    i = c.rng.randrange(len(g))
    g[i] = ed.scenc(gen.rsc(c.rng))
    m.rsig_data.rsig = host.prove([d.amount for d in h.s.outs[a:b]], g)
    return m


def sub_amounts(c, h, a, b, m, env):
    x = [d.amount for d in h.s.outs[a:b]]
    i = c.rng.randrange(len(x))
    x[i] = c.rng.choice([x[i] ^ 1, 0 if x[i] else 1, x[i] ^ (1 << 63)])
    m.rsig_data.rsig = host.prove(x, h.gamma[a:b])
    return m


def sub_shift(c, h, a, b, m, env):
    """amounts moved between two outputs of the batch (their sum is right)"""
    if b - a < 2:
        return None
    x = [d.amount for d in h.s.outs[a:b]]
    x[0], x[1] = x[0] + 1, x[1] - 1
    if min(x) < 0:
        return None
    m.rsig_data.rsig = host.prove(x, h.gamma[a:b])
    return m


def sub_order(c, h, a, b, m, env):
    if b - a < 2:
        return None
    m.rsig_data.rsig = host.prove([d.amount for d in h.s.outs[a:b]][::-1], h.gamma[a:b][::-1])
    return m


def sub_fewer(c, h, a, b, m, env):
    if b - a < 2:
        return None
    m.rsig_data.rsig = host.prove([d.amount for d in h.s.outs[a : b - 1]], h.gamma[a : b - 1])
    return m


def sub_more(c, h, a, b, m, env):
    m.rsig_data.rsig = host.prove([d.amount for d in h.s.outs[a:b]] + [5], list(h.gamma[a:b]) + [ed.scenc(gen.rsc(c.rng))])
    return m


def sub_other_batch(c, h, a, b, m, env):
    if a == 0:
        return None
    m.rsig_data.rsig = h.bps[-1]
    return m


def sub_all(c, h, a, b, m, env):
    """one proof for everything so far"""
    if a == 0:
        return None
    m.rsig_data.rsig = host.prove([d.amount for d in h.s.outs[:b]], h.gamma[:b])
    return m


def sub_none(c, h, a, b, m, env):
    m.rsig_data.rsig = c.rng.choice([None, b""])
    return m


def sub_nodata(c, h, a, b, m, env):
    m.rsig_data = None
    return m


def sub_parts(c, h, a, b, m, env):
    """proof sent in the multi-part field"""
    p = bytes(m.rsig_data.rsig)
    m.rsig_data.rsig = None
    m.rsig_data.rsig_parts = [p]
    return m


def sub_session(c, h, a, b, m, env):
    m.rsig_data.rsig = env["other"][(a, b)]
    return m


def sub_bytes(c, h, a, b, m, env):
    p = bytearray(m.rsig_data.rsig)
    i = c.rng.randrange(len(p))
    p[i] ^= 1 << c.rng.randrange(8)
    m.rsig_data.rsig = bytes(p)
    return m


def sub_trunc(c, h, a, b, m, env):
    p = bytes(m.rsig_data.rsig)
    m.rsig_data.rsig = c.rng.choice([p[:-1], p[:-32], p[: 32 * 6], p[:32], b"\0"])
    return m


def sub_component(c, h, a, b, m, env):
    """a whole component replaced by another valid one"""
    p = bytearray(m.rsig_data.rsig)
    k = c.rng.randrange((len(p) - 2) // 32)
    o = 32 * k + (1 if k >= 6 else 0)
    n = p[192]
    if k >= 6 + n:
        o += 1
    pts = k < 4 or 6 <= k < 6 + 2 * n
    p[o : o + 32] = c.rng.choice([ed.enc(ed.mulb(gen.rsc(c.rng))), ed.enc(ed.ID)]) if pts else c.rng.choice([ed.scenc(gen.rsc(c.rng)), bytes(32)])
    m.rsig_data.rsig = bytes(p)
    return m


def sub_zero(c, h, a, b, m, env):
    """all scalars and points neutral"""
    p = bytearray(m.rsig_data.rsig)
    one = ed.enc(ed.ID)
    n = p[192]
    q = one * 4 + bytes(64) + bytes([n]) + one * n + bytes([n]) + one * n + bytes(96)
    m.rsig_data.rsig = q
    return m


def sub_counts(c, h, a, b, m, env):
    """fewer or more rounds than the batch needs"""
    p = bytes(m.rsig_data.rsig)
    n = p[192]
    Ls, Rs = p[193 : 193 + 32 * n], p[194 + 32 * n : 194 + 64 * n]
    tail = p[194 + 64 * n :]
    k = c.rng.choice(["drop", "drop-R", "add", "none"])
    if k == "drop":
        q = p[:192] + bytes([n - 1]) + Ls[:-32] + bytes([n - 1]) + Rs[:-32] + tail
    elif k == "drop-R":
        q = p[:192] + bytes([n]) + Ls + bytes([n - 1]) + Rs[:-32] + tail
    elif k == "add":
        e = ed.enc(ed.ID)
        q = p[:192] + bytes([n + 1]) + Ls + e + bytes([n + 1]) + Rs + e + tail
    else:
        q = p[:192] + b"\0\0" + tail
    m.rsig_data.rsig = q
    return m


SUBS = [v for k, v in sorted(globals().items()) if k.startswith("sub_")]


def f_subst(c):
    n = c.rng.choice([3, 3, 4, 5])
    cfg = dev.CFGS[c.idx % 3]
    g = c.rng.choice([x for x in compositions(n)])
    s, h = mk(c, n, cfg, g)
    # proofs of another session of the same transaction
    o = host.RawHost(s, cfg, grouping=list(g))
    other = {}
    real = o.prove

    def rec(a, b):
        other[(a, b)] = p = real(a, b)
        return p

    o.prove = rec
    o.go()
    # deterministic output masks would make the other session's proofs valid ones; use amounts changed by one then
    plan = h.plan()
    last = {i: st for i, st in enumerate(plan) if st[0] in ("bp",) or (st[0] == "out" and cfg[0] == 0)}
    for k, st in enumerate(plan):
        a, b = h.batch_of(st[1]) if st[0] in ("bp", "out") else (0, 0)
        if k in last and st[1] == b - 1:
            subs = SUBS if c.tier != "quick" else c.rng.sample(SUBS, 6)
            for f in subs:

                def br(f=f):
                    m = h.build(st)
                    orig = dev.pb_dump(m)
                    m2 = f(c, h, a, b, m, dict(other=other))
                    if m2 is None or dev.pb_dump(m2) == orig:
                        return
                    c.count("substitutions")
                    pr = bytes(m2.rsig_data.rsig) if m2.rsig_data is not None and m2.rsig_data.rsig else b""
                    res = h.send(m2)
                    c.distinct("subst", f.__name__, cfg, (a, b) == (0, n), b == n, dev.is_failure(res))
                    if dev.is_failure(res):
                        c.observed += 1
                        c.count("substitutions_refused")
                        # the session is dead
                        for x in plan[k:]:
                            try:
                                mm = h.build(x)
                            except Exception:
                                continue
                            c.ok(dev.is_failure(h.send(mm)), "message accepted after a refused proof", sub=f.__name__, accepted=x)
                        return
                    c.count("substitutions_accepted")
                    try:
                        h.absorb(st, res, dev.pb_load(dev.pb_dump(m2), m2.__class__) if pr else m2)
                    except Exception:
                        pass
                    try:
                        h.go(plan[k + 1 :])
                    except host.Refused:
                        return
                    judge_signed(c, h, f.__name__)

                c.fork(br)
        h.go([st])
    judge_signed(c, h, "honest")


def f_extra(c):
    """extra, early, repeated and omitted proof messages (host-side proofs with deterministic masks)"""
    n = c.rng.choice([3, 4, 5])
    cfg = dev.CFGS[c.idx % 2]
    g = c.rng.choice([x for x in compositions(n)])
    s, h = mk(c, n, cfg, g)
    plan = h.plan()
    m_ = host.M()
    for k, st in enumerate(plan):
        if st[0] in ("out", "bp", "allout"):

            def br(kind):
                lab = "%s before %s" % (kind, st[0])
                if kind == "omit":
                    rest = plan[k + 1 :]
                    if st[0] != "bp":
                        return
                else:
                    e = m_.MoneroTransactionSetOutputRequest(is_offloaded_bp=True)
                    if kind in ("proof", "proof+dst"):
                        try:
                            e.rsig_data = m_.MoneroTransactionRsigData(rsig=h.bps[-1] if h.bps else host.prove([1], [ed.scenc(gen.rsc(c.rng))]))
                        except Exception:
                            return
                    elif kind == "empty rsig":
                        e.rsig_data = m_.MoneroTransactionRsigData(rsig=b"")
                    if kind in ("empty+dst", "proof+dst"):
                        i = min(st[1] if st[0] == "out" else n - 1, n - 1)
                        e.dst_entr, e.dst_entr_hmac = copy.deepcopy(h.dst[i]), bytes(h.dst_hmac[i])
                    res = h.send(e)
                    c.count("extra_messages")
                    c.distinct("extra", kind, st[0], cfg, dev.is_failure(res))
                    c.ok(dev.is_failure(res), "surplus range-proof message accepted", message=kind, expected=st, grouping=g)
                    rest = plan[k:]
                for x in rest:
                    try:
                        mm = h.build(x)
                    except Exception:
                        break
                    res = h.send(mm)
                    c.count("messages_after_deviation")
                    c.ok(dev.is_failure(res), "message accepted after a deviation", deviation=lab, accepted=x, grouping=g)

            for kind in ("empty", "empty rsig", "empty+dst", "proof", "proof+dst", "omit"):
                c.fork(br, kind)
        h.go([st])
    judge_signed(c, h, "honest")


FAMILIES = {
    "valid": dict(fn=f_valid, quick=36, thorough=len(VALID) + 40, backends=("tcry",), weight=3),
    "invalid": dict(fn=f_invalid, quick=9, thorough=60, backends=("tcry",), weight=4),
    "subst": dict(fn=f_subst, quick=12, thorough=150, backends=("tcry",), weight=5),
    "extra": dict(fn=f_extra, quick=8, thorough=80, backends=("tcry",), weight=4),
}
