"""Data the device handed out cannot be altered, swapped or replayed."""

import copy

from .. import dev, gen, host, mut

RULE = (
    "one honest session per case; at every authenticated step the process is forked once per mutation (every field of the message, nested ones "
    "included: bit flips, truncation, extension, zero, drop, toggles, list edits, values and whole messages taken from another index or from "
    "other sessions of the same wallet and transaction; altered content together with a weakened tag). Refused: everything later in that session must be refused too. Accepted: the session is "
    "finished and the transaction must verify and pay exactly what was requested. distinct = (step kind, mutated field, mutation, version) tuples"
)
ASSUMPTIONS = ["independent reference implementation in mon/ref"]


def others_for(h, st, prev, cfg):
    """messages of the same step kind with other indices, and from earlier sessions"""
    o = []
    n = {"vini": h.n_in, "sign": h.n_in, "out": h.n_out}.get(st[0], 0)
    for i in range(n):
        if i != st[1]:
            try:
                o.append(("idx", h.build((st[0], i))))
            except (IndexError, TypeError):
                pass
    for label, p in prev:
        if st in p:
            o.append((label, p[st]))
    return o


def branch(c, h, s, cfg, st, rest, desc, mutator):
    """in a forked copy: send the altered message and judge"""
    sent = {}

    def m(msg):
        x = mutator(msg)
        sent["same"] = mut.same(x, msg)
        return x

    ok = h.step(st, m)
    if sent["same"]:
        c.ok(ok, "unaltered message refused", step=st)
        return
    c.observed += 1
    c.distinct(st[0], generic(desc), cfg)
    if not ok:
        c.count("altered_refused")
        signed = dict(h.sigs)
        # the session is dead
        for x in [st] + rest[:2] + [("allout",)] + [("sign", i) for i in range(h.n_in)] + [("final",)]:
            try:
                msg = h.build(x)
            except Exception:
                continue
            r = h.send(msg)
            c.ok(dev.is_failure(r), "message accepted after the session was refused", after="%s %s" % (st, desc), accepted=x)
            c.count("messages_after_refusal")
        c.eq(set(h.sigs), set(signed), "signature after refusal")
        return
    c.count("altered_accepted")
    try:
        h.go(rest)
    except host.Refused:
        c.count("accepted_then_refused")
        return
    t = dev.check_consensus(c, s, h.blob(), cfg)
    dev.check_recipients(c, s, t)
    c.count("accepted_without_effect")


def generic(desc):
    return ".".join(p for p in desc.replace(":", ".:").split(".") if not p.isdigit())


def session_messages(s, cfg, d, upto=None):
    """an honest session's messages by step (on the same device, before the attacked one)"""
    h = host.RawHost(s, cfg, d)
    msgs = {}

    def hook(st):
        def m(msg):
            msgs[st] = copy.deepcopy(msg)
            return msg

        return m

    p = h.plan()
    h.go(p if upto is None else p[:upto], hook)
    return msgs


def f_fields(c, n_in=None, n_out=None, per_step=None):
    n_in = n_in or c.rng.choice([1, 2, 2, 3])
    n_out = n_out or c.rng.choice([2, 2, 3])
    s = gen.scenario(c.rng, n_in=n_in, n_out=n_out, ring=2, change=True)
    cfg = dev.CFGS[c.idx % len(dev.CFGS)]
    d = dev.device(s.w)
    prev = [("old-session", session_messages(s, cfg, d))]
    # another transaction of the same wallet
    s2 = gen.scenario(c.rng, n_in=n_in, n_out=n_out, ring=2, change=True, wallet=s.w)
    prev.append(("other-tx", session_messages(s2, cfg, d)))
    h = host.RawHost(s, cfg, d)
    plan = h.plan()
    budget = per_step or (14 if c.tier == "quick" else 60)
    for k, st in enumerate(plan):
        if st[0] in ("vini", "out", "bp", "sign", "perm"):
            msg = h.build(st)
            ms = mut.mutations(c.rng, msg, others_for(h, st, prev, cfg))
            c.count("mutations_available", len(ms))
            if len(ms) > budget:
                # always keep the whole-message swaps, sample the fields
                whole = [x for x in ms if x[0].startswith("*")]
                rest_m = [x for x in ms if not x[0].startswith("*")]
                ms = c.rng.sample(whole, min(len(whole), 3)) + c.rng.sample(rest_m, budget - min(len(whole), 3))
            for desc, mutator in ms:
                c.fork(branch, c, h, s, cfg, st, plan[k + 1 :], desc, mutator)
        h.go([st])
    t = dev.check_consensus(c, s, h.blob(), cfg)
    c.count("honest_sessions")
    c.distinct("session", gen.shape_key(s), cfg)
    c.sample(dict(case=gen.describe(s), cfg=cfg, steps=len(plan)))


def f_seal(c):
    """targeted: the sealed per-input secrets and tags of the signing step"""
    s = gen.scenario(c.rng, n_in=c.rng.choice([2, 3]), n_out=2, ring=2, change=True, cheap=True)
    cfg = dev.CFGS[c.idx % len(dev.CFGS)]
    d = dev.device(s.w)
    prev = [("old-session", session_messages(s, cfg, d))]
    h = host.RawHost(s, cfg, d)
    plan = h.plan()
    names = ("vini", "vini_hmac", "pseudo_out", "pseudo_out_hmac", "pseudo_out_alpha", "spend_key")
    for k, st in enumerate(plan):
        if st[0] == "sign":
            ms = mut.mutations(c.rng, h.build(st), others_for(h, st, prev, cfg))
            ms = [x for x in ms if x[0].split(":")[0] in names or x[0].startswith("*")]
            for desc, mutator in ms if c.tier != "quick" else c.rng.sample(ms, min(len(ms), 30)):
                c.fork(branch, c, h, s, cfg, st, plan[k + 1 :], desc, mutator)
            # consistent swaps of several fields with another input
            for i in range(h.n_in):
                if i != st[1]:
                    o = h.build(("sign", i))
                    for grp in (("pseudo_out", "pseudo_out_hmac"), ("pseudo_out", "pseudo_out_hmac", "pseudo_out_alpha"), ("vini", "vini_hmac"), ("vini", "vini_hmac", "src_entr"), ("src_entr", "spend_key"), ("vini", "vini_hmac", "src_entr", "spend_key")):

                        def mm(m, o=o, grp=grp):
                            m = copy.deepcopy(m)
                            for g in grp:
                                setattr(m, g, copy.deepcopy(getattr(o, g)))
                            return m

                        c.fork(branch, c, h, s, cfg, st, plan[k + 1 :], "+".join(grp) + ":from-idx", mm)
        h.go([st])
    dev.check_consensus(c, s, h.blob(), cfg)
    c.count("honest_sessions")


def weak_tags(names):
    """weakened authentication tags: what remains proves nothing"""

    def w(fn):
        def m(msg):
            for n in names:
                v = getattr(msg, n)
                setattr(msg, n, fn(bytes(v)) if fn else None)
            return msg

        return m

    return [
        ("empty", w(lambda v: b"")),
        ("drop", w(None)),
        ("one-byte", w(lambda v: v[:1])),
        ("zeros", w(lambda v: bytes(len(v)))),
        ("short-zeros", w(lambda v: bytes(4))),
        ("self", w(lambda v: v + v)),
    ]


def f_weak(c):
    """altered content together with a weakened tag"""
    n_in, n_out = c.rng.choice([1, 2]), c.rng.choice([2, 3])
    s = gen.scenario(c.rng, n_in=n_in, n_out=n_out, ring=2, change=True, cheap=True)
    other = gen.W(c.rng)
    cfg = dev.CFGS[c.idx % len(dev.CFGS)]
    d = dev.device(s.w)
    prev = [("old-session", session_messages(s, cfg, d))]
    h = host.RawHost(s, cfg, d)
    plan = h.plan()
    for k, st in enumerate(plan):
        msg = h.build(st) if st[0] in ("vini", "out", "sign") else None
        tags = [n for n in vars(msg) if n.endswith("hmac") and getattr(msg, n)] if msg is not None else []
        if tags:
            ms = [x for x in mut.mutations(c.rng, msg, others_for(h, st, prev, cfg)) if not x[0].startswith("*") and "hmac" not in x[0].split(":")[0]]
            ms = c.rng.sample(ms, min(len(ms), 6))
            if getattr(msg, "dst_entr", None) is not None and msg.dst_entr.addr is not None:

                def thief(m):
                    m = copy.deepcopy(m)
                    a = m.dst_entr.addr
                    a.spend_public_key, a.view_public_key = other.addr()
                    return m

                ms += [("dst_entr.addr:thief", thief)] * 4
            for desc, mutator in ms:
                for wd, weaken in c.rng.sample(weak_tags(tags), 2 if c.tier == "quick" else 6):
                    c.count("weak_tags")
                    c.fork(branch, c, h, s, cfg, st, plan[k + 1 :], desc + "+tag-" + wd, lambda m, a=mutator, b=weaken: b(a(m)))
        h.go([st])
    dev.check_consensus(c, s, h.blob(), cfg)
    c.count("honest_sessions")


def f_indices(c):
    """many inputs and outputs: tags must be bound to the exact index, also beyond one-byte varints"""
    n_in = 3 if c.tier == "quick" else c.rng.choice([3, 5, 8])
    s = gen.scenario(c.rng, n_in=n_in, n_out=c.rng.choice([4, 5]), ring=2, change=True, pid=b"")
    # equal amounts and equal destinations make swapped entries differ in the index only
    d0 = s.dests[0]
    for x in s.dests[1:]:
        tot = x.amount + d0.amount
        x.wallet, x.major, x.minor, x.kind = d0.wallet, d0.major, d0.minor, d0.kind
    cfg = dev.CFGS[c.idx % len(dev.CFGS)]
    h = host.RawHost(s, cfg)
    plan = h.plan()
    for k, st in enumerate(plan):
        if st[0] in ("out", "vini", "sign"):
            n = h.n_out if st[0] == "out" else h.n_in
            for i in range(n):
                if i == st[1]:
                    continue
                o = h.build((st[0], i))
                c.fork(branch, c, h, s, cfg, st, plan[k + 1 :], "*:whole-from-%d" % i, lambda m, o=o: o)
                if st[0] == "out":

                    def tag(m, o=o):
                        m = copy.deepcopy(m)
                        m.dst_entr_hmac = o.dst_entr_hmac
                        return m

                    c.fork(branch, c, h, s, cfg, st, plan[k + 1 :], "dst_entr_hmac:from-idx", tag)
        h.go([st])
    dev.check_consensus(c, s, h.blob(), cfg)


def f_wide(c):
    """more than 128 inputs: what belongs to one index must not pass for an index a byte away"""
    n_in = 129 + c.rng.randrange(1, 4) if c.tier == "quick" or c.rng.random() < 0.7 else 257 + c.rng.randrange(3)
    s = gen.scenario(c.rng, n_in=n_in, n_out=2, ring=2, change=True, account=0, pid=b"", shape=["std"], cheap=True)
    cfg = dev.CFGS[c.idx % len(dev.CFGS)]
    h = host.RawHost(s, cfg)
    plan = h.plan()
    # original index of the input at a position, and back (known once the permutation is)
    grp = (
        ("pseudo_out", "pseudo_out_hmac"),
        ("pseudo_out_alpha",),
        ("spend_key",),
        ("pseudo_out", "pseudo_out_hmac", "pseudo_out_alpha"),
        ("vini", "vini_hmac"),
        ("src_entr", "spend_key"),
        ("src_entr", "vini", "vini_hmac"),
        ("src_entr", "vini", "vini_hmac", "spend_key"),
        ("src_entr", "vini", "vini_hmac", "pseudo_out", "pseudo_out_hmac", "pseudo_out_alpha"),
    )
    pairs = {}
    for k, st in enumerate(plan):
        if st[0] in ("vini", "sign"):
            if not pairs:
                for d in (128, 256):
                    for i in range(n_in - d):
                        # positions whose original indices, and positions themselves, lie d apart
                        pairs.setdefault(i + d, set()).add(i)
                        if h.perm:
                            a, b = h.perm.index(i + d), h.perm.index(i)
                            pairs.setdefault(a, set()).add(b)
                            pairs.setdefault(b, set()).add(a)
            for j in sorted(pairs.get(st[1], ())):
                if j == st[1]:
                    continue
                try:
                    o = h.build((st[0], j))
                except (IndexError, TypeError, KeyError):
                    continue
                c.count("wide_swaps")
                c.fork(branch, c, h, s, cfg, st, plan[k + 1 :], "*:whole-a-byte-away", lambda m, o=o: o)
                names = set(vars(h.build(st)))
                for g in grp:
                    g = [x for x in g if x in names and getattr(o, x) is not None]
                    if not g:
                        continue

                    def mm(m, o=o, g=g):
                        m = copy.deepcopy(m)
                        for x in g:
                            setattr(m, x, copy.deepcopy(getattr(o, x)))
                        return m

                    if c.tier != "quick" or c.rng.random() < 0.5:
                        c.fork(branch, c, h, s, cfg, st, plan[k + 1 :], "+".join(g) + ":a-byte-away", mm)
        h.go([st])
    dev.check_consensus(c, s, h.blob(), cfg)
    c.count("honest_sessions")
    c.distinct("wide", n_in, cfg)


FAMILIES = {
    "wide": dict(fn=f_wide, quick=2, thorough=8, backends=("tcry",), weight=20),
    "fields": dict(fn=f_fields, quick=20, thorough=240, backends=("tcry",), weight=6),
    "weak": dict(fn=f_weak, quick=8, thorough=120, backends=("tcry",), weight=5),
    "seal": dict(fn=f_seal, quick=6, thorough=90, backends=("tcry",), weight=5),
    "indices": dict(fn=f_indices, quick=3, thorough=30, backends=("tcry",), weight=5),
}
