"""Key image export is correct, complete and bound to the announced outputs."""

import copy

from .. import dev, gen, kis, mut
from ..harness import run
from ..ref import cn, ed, sigs
from ..ref.ed import L

RULE = (
    "agent: the real host exports wallet outputs generated by the reference model (lengths 0, 1, 9, 10, 11, 19..21, 30 and random; main, subaddress, additional keys, "
    "odd output positions, payment ids in the extra) through the real device, every key image and proof is recomputed / verified independently; hostile: sessions "
    "whose processed sequence deviates from the announced one (omit, surplus, duplicate, reorder, altered fields, foreign and near-miss outputs, moved step "
    "borders, wrong count or hash, finishing twice, steps before start or after the end); the key may be released exactly when the processed sequence is the announced one. "
    "distinct = (length, shape) and (deviation, field) keys"
)
ASSUMPTIONS = ["independent reference implementation in mon/ref"]


def agent_export(c, k, d):
    a = dev.agent(dev.Wire(d))
    res = run(a.import_outputs(k.transfers()))
    out = [(bytes(ki), bytes(s[0]), bytes(s[1])[:32]) for ki, s in res]
    return a, res, out


def fam_agent(c):
    rng = c.rng
    w = gen.W(rng)
    n = [0, 1, 9, 10, 11, 20, 21, 30, 19, 2, 129, 258][c.idx] if c.idx < 12 else rng.randrange(0, 26)
    if c.backend == "py":
        n = [3, 11, 0, 10][c.idx % 4]
    k = kis.KI(c, w, n)
    d = dev.device(w)
    a, res, out = agent_export(c, k, d)
    k.check(c, out)
    for ki, s in res:
        c.eq((len(bytes(ki)), len(bytes(s[0])), len(bytes(s[1]))), (32, 32, 32), "lengths of key image and proof")
    conf = [x for x in d.iface.log if x[0] == "confirm_ki_sync"]
    c.eq(len(conf), 1, "confirmations asked")
    # steps: every output exactly once, no batch over ten
    steps = [dev.pb_load(raw, cls) for m, cls, raw, _, _ in a.trezor.log if cls.__name__ == "MoneroKeyImageSyncStepRequest"]
    tot = [t for s in steps for t in s.tdis]
    c.eq(len(tot), n, "outputs sent")
    c.ok(all(0 < len(s.tdis) <= 10 for s in steps), "batch sizes")
    for t, o in zip(tot, k.outs):
        c.eq((bytes(t.out_key), bytes(t.tx_pub_key), t.internal_output_index), (ed.enc(o.P), ed.enc(o.R), o.oidx), "output sent")
        c.eq([bytes(x) for x in t.additional_tx_pub_keys or []], [ed.enc(x) for x in o.add_pubs], "additional keys sent")
    init = dev.pb_load(a.trezor.log[0][2], a.trezor.log[0][1])
    c.eq((init.num, bytes(init.hash)), (n, k.hash()), "commitment to the outputs")
    c.distinct("agent", n, tuple(sorted({(o.major != 0, o.minor != 0, bool(o.add_pubs), o.oidx > 15) for o in k.outs})))
    # the same device exports again, and fresh proofs are made
    if n and n <= 11:
        _, _, out2 = agent_export(c, k, d)
        k.check(c, out2)
        c.ok(all(x[1:] != y[1:] for x, y in zip(out, out2)), "proof repeats between exports")


def near_miss(rng, k, i):
    """(label, td, owned?) an output close to owned output i that is not the wallet's, as claimed"""
    o = k.outs[i]
    td = k.td(o)
    kind = rng.randrange(7)
    if kind == 0:
        w2 = gen.W(rng)
        o2 = gen.owned_output(rng, w2, None, 5, 0, 0)
        return "foreign wallet", k.td(o2)
    if kind == 1:
        w2 = copy.copy(k.w)
        w2.b = gen.rsc(rng)
        w2.B = ed.mulb(w2.b)
        w2._sub = {}
        return "same view key, other spend key", k.td(gen.owned_output(rng, w2, None, 5, 0, 0))
    if kind == 2:
        w2 = copy.copy(k.w)
        w2.a = gen.rsc(rng)
        w2.A = ed.mulb(w2.a)
        w2._sub = {}
        return "same spend key, other view key", k.td(gen.owned_output(rng, w2, None, 5, 0, 0))
    if kind == 3:
        td.internal_output_index = o.oidx + rng.choice([1, 2, 128])
        if o.add_pubs:
            td.additional_tx_pub_keys = [ed.enc(x) for x in o.add_pubs] + [ed.enc(ed.mulb(gen.rsc(rng)))] * 2
        return "wrong output position", td
    if kind == 4:
        td.out_key = ed.enc(ed.mulb(gen.rsc(rng)))
        return "random output key", td
    if kind == 5:
        td.tx_pub_key = ed.enc(ed.mulb(gen.rsc(rng)))
        td.additional_tx_pub_keys = None
        return "random transaction key", td
    td.out_key = ed.enc(ed.add(o.P, ed.B))
    return "shifted output key", td


def deviations(c, k):
    """[(label, announced (num, hash), list of step lists)]"""
    rng = c.rng
    n = len(k.tds)
    T = k.tds
    H = k.hash()
    res = []

    def add(label, seq, num=n, h=None, size=None):
        size = size or rng.choice([1, 2, 3, 10])
        res.append((label, (num, H if h is None else h), [seq[i : i + size] for i in range(0, len(seq), size)]))

    add("none", T)
    if n:
        i = rng.randrange(n)
        add("omit", T[:i] + T[i + 1 :])
        add("omit last", T[:-1])
        add("omit all", [])
        add("surplus repeated", T + [T[i]])
        add("duplicate instead", T[:i] + [T[(i + 1) % n]] + T[i + 1 :])
        extra = k.td(gen.owned_output(rng, k.w, None, 7, k.outs[0].major, k.outs[0].minor))
        add("surplus own", T + [extra])
        add("insert own", T[:i] + [extra] + T[i:])
        add("replace by own", T[:i] + [extra] + T[i + 1 :])
        add("announce fewer", T, num=n - 1)
        add("announce fewer, hash of fewer", T, num=n - 1, h=k.hash(T[:-1]))
        add("announce more", T, num=n + 1)
        add("announce more, hash of more", T, num=n + 1, h=k.hash(T + [extra]))
        add("hash flipped", T, h=bytes([H[0] ^ 1]) + H[1:])
        add("hash last byte", T, h=H[:-1] + bytes([H[-1] ^ 128]))
        add("hash truncated", T, h=H[:-1])
        add("hash empty", T, h=b"")
        add("hash of other list", T, h=k.hash(T[::-1]) if n > 1 else k.hash([extra]))
    if n > 1:
        add("reorder", T[::-1])
        add("swap in one step", [T[1], T[0]] + T[2:], size=10)
        add("split sum", T[:1] + T[2:] + [T[1]] if n > 2 else [T[1], T[0]])
    for lab, f in [("count zero", 0), ("count huge", 1 << 31)]:
        if n:
            add(lab, T, num=f)
    return res


def same(a, b):
    return kis.KI.td_hash(a) == kis.KI.td_hash(b)


def play(c, k, label, ann, steps, check_ki=True):
    """runs a session; judges every reply against the model"""
    d = dev.device(k.w) if not hasattr(k, "dev") else k.dev
    s = kis.Session(d)
    m = k.init_msg(ann[0], ann[1])
    r = s.init(m)
    c.count("sessions")
    if dev.is_failure(r):
        c.ok(label != "none", "honest start refused")
        return None
    done = []
    for st in steps:
        r = s.step(st)
        c.count("steps")
        if dev.is_failure(r):
            c.ok(label != "none", "honest step refused", message=str(r.message)[-200:])
            c.ok(len(done) + len(st) > ann[0] or not st or label.startswith("near") or label.startswith("alter"), "step within the announced number refused", label=label)
            # the session is over: nothing is released any more
            r2 = s.final()
            c.ok(dev.is_failure(r2), "key released after a refused step", label=label)
            r2 = s.step(st[:1])
            c.ok(dev.is_failure(r2), "step accepted after a refused step", label=label)
            return None
        c.eq(len(r.kis), len(st), "number of key images in a step", label=label)
        done += st
        c.ok(len(done) <= ann[0], "more outputs accepted than announced", label=label, announced=ann[0], done=len(done))
    r = s.final()
    legit = len(done) == ann[0] and k.hash(done) == bytes(ann[1])
    if dev.is_failure(r):
        c.ok(not legit, "key not released though the processed outputs are the announced ones", label=label)
        r2 = s.final()
        c.ok(dev.is_failure(r2), "key released by asking twice", label=label)
        c.count("final_refused")
        return None
    c.ok(legit, "key released though the processed outputs are not the announced ones", label=label, announced=ann[0], done=len(done))
    c.ok(label == "none" or label.startswith("ok") or legit, "deviation accepted", label=label)
    r2 = s.final()
    c.ok(dev.is_failure(r2), "key released twice", label=label)
    r2 = s.step(steps[0] if steps else k.tds[:1])
    c.ok(dev.is_failure(r2), "step accepted after the end", label=label)
    c.count("keys_released")
    # what was exported is right for exactly the processed outputs
    for td, (ki, cc, rr) in zip(done, s.open(r.enc_key)):
        c.ok(
            sigs.ring_sig_verify(ki, ed.dec(ki), [ed.dec(bytes(td.out_key)[:32])], [(int.from_bytes(cc, "little"), int.from_bytes(rr, "little"))]),
            "exported proof does not verify",
            label=label,
        )
        own = [o for o in k.outs if ed.enc(o.P) == bytes(td.out_key)[:32]]
        if own:
            c.eq(ki, own[0].ki, "key image", label=label)
    return d


def fam_hostile(c):
    rng = c.rng
    w = gen.W(rng)
    n = rng.choice([0, 1, 1, 2, 3, 4, 5])
    k = kis.KI(c, w, n)
    k.dev = dev.device(w)  # one device through all of them: failures must stay contained as well
    for label, ann, steps in deviations(c, k):
        c.distinct("deviation", label, min(n, 3))
        if label == "count huge":
            ann = (ann[0], ann[1])
        play(c, k, label, ann, steps)
    # restart in the middle: the announced outputs of the first session do not count
    if n > 1:
        s = kis.Session(k.dev)
        s.init(k.init_msg())
        s.step(k.tds[:1])
        r = s.init(k.init_msg())
        c.ok(not dev.is_failure(r), "new session refused")
        s.kis = []
        s.step(k.tds[1:])
        c.ok(dev.is_failure(s.final()), "outputs of an abandoned session were counted")
    # an empty step
    s = kis.Session(k.dev)
    s.init(k.init_msg())
    r = s.step([])
    if not dev.is_failure(r):
        for ch in k.chunks():
            s.step(ch)
        c.ok(not dev.is_failure(s.final()), "empty step spoils the session although it was accepted")
    # before the start
    s = kis.Session(dev.device(w))
    c.ok(dev.is_failure(s.final()), "key released without a session")
    s = kis.Session(dev.device(w))
    c.ok(dev.is_failure(s.step(k.tds[:1])), "step accepted without a session")
    play(c, k, "none", (n, k.hash()), k.chunks())


def fam_alter(c):
    """single fields of the outputs, announced honestly / announced as altered"""
    rng = c.rng
    w = gen.W(rng)
    n = rng.choice([1, 2, 3])
    k = kis.KI(c, w, n)
    k.dev = dev.device(w)
    i = rng.randrange(n)
    o = k.outs[i]
    others = [("other", k.tds[(i + 1) % n])] if n > 1 else []
    muts = mut.mutations(rng, k.tds[i], others)
    for desc, f in muts:
        td = f(k.tds[i])
        if td.out_key is None or td.tx_pub_key is None:
            continue
        c.distinct("alter", desc)
        seq = k.tds[:i] + [td] + k.tds[i + 1 :]
        try:
            h2 = k.hash(seq)
        except Exception:
            continue
        # announced as the honest list: released only if the content is the same
        play(c, k, "alter " + desc, (n, k.hash()), [[t] for t in seq])
        # announced as altered: an output that is not ours must be refused, one that is ours must be right
        play_announced(c, k, "alter " + desc, seq, h2, i)
    for _ in range(10):
        lab, td = near_miss(rng, k, i)
        c.distinct("near", lab)
        seq = k.tds[:i] + [td] + k.tds[i + 1 :]
        play_announced(c, k, lab, seq, k.hash(seq), i, must_refuse=not owned(k, td))


def owned(k, td, main=True):
    """does the wallet own what the details claim (reference model)"""
    w = k.w
    # decoders read the first 32 bytes of the buffer they are given
    P = ed.dec(bytes(td.out_key)[:32])
    R = ed.dec(bytes(td.tx_pub_key)[:32])
    if P is None or R is None:
        return False
    idx = td.internal_output_index or 0
    cand = [R]
    ad = td.additional_tx_pub_keys or []
    if idx & 0xFFFFFFFF < len(ad):
        q = ed.dec(bytes(ad[idx & 0xFFFFFFFF])[:32])
        if q is not None:
            cand.append(q)
    subs = {w.addr(o.major, o.minor)[0] for o in k.outs} | ({w.addr()[0]} if main else set())
    # output positions are 32-bit numbers: a wider one denotes its low half (same key image, same proof)
    idxs = {idx, idx & 0xFFFFFFFF} if main else {idx}
    return any(ed.enc(ed.sub(P, ed.mulb(cn.deriv_scalar(cn.derivation(q, w.a), i)))) in subs for q in cand for i in idxs)


def play_announced(c, k, label, seq, h, i, must_refuse=None):
    s = kis.Session(k.dev)
    r = s.init(k.init_msg(len(seq), h))
    if dev.is_failure(r):
        return
    own = owned(k, seq[i])
    for j, td in enumerate(seq):
        r = s.step([td])
        if dev.is_failure(r):
            c.ok(j == i, "honest output refused", label=label)
            c.ok(not owned(k, td, main=False) or badly(td), "own output refused", label=label)
            c.count("foreign_refused")
            return
        if j == i:
            c.ok(own, "key image exported for an output the wallet does not own", label=label)
    r = s.final()
    c.ok(not dev.is_failure(r), "export of the announced outputs not released", label=label)
    for td, (ki, cc, rr) in zip(seq, s.open(r.enc_key)):
        c.ok(
            sigs.ring_sig_verify(ki, ed.dec(ki), [ed.dec(bytes(td.out_key)[:32])], [(int.from_bytes(cc, "little"), int.from_bytes(rr, "little"))]),
            "exported proof does not verify",
            label=label,
        )
        o = [o for o in k.outs if ed.enc(o.P) == bytes(td.out_key)[:32]]
        if o:
            c.eq(ki, o[0].ki, "key image", label=label)
    c.count("altered_but_own")


def badly(td):
    """malformed in a part the derivation may not use"""
    if len(bytes(td.out_key)) != 32 or len(bytes(td.tx_pub_key)) != 32:
        return True
    for x in td.additional_tx_pub_keys or []:
        if ed.dec(bytes(x)) is None:
            return True
    return td.internal_output_index is None or ed.dec(bytes(td.tx_pub_key)) is None or bool(td.additional_tx_pub_keys) and len(td.additional_tx_pub_keys) <= td.internal_output_index


FAMILIES = {
    "agent": dict(fn=fam_agent, quick={"tcry": 20, "py": 2}, thorough={"tcry": 200, "py": 8}, backends=("tcry", "py"), weight=2),
    "hostile": dict(fn=fam_hostile, quick={"tcry": 24, "py": 1}, thorough={"tcry": 240, "py": 6}, backends=("tcry", "py"), weight=2),
    "alter": dict(fn=fam_alter, quick={"tcry": 24, "py": 1}, thorough={"tcry": 240, "py": 6}, backends=("tcry", "py"), weight=2),
}
