"""The host never accepts a transaction the device's replies do not support."""

import copy

from .. import dev, gen, kis, mut, refdev
from ..harness import run
from ..ref import cn, ed, sigs, tx as rtx
from ..ref.ed import L

RULE = (
    "sign: one signing run per case; at every reply the process is forked per alteration (every field: flips, truncation, extension, drop, zero, list edits, "
    "values and whole replies of other indices, steps and sessions, failures) and the host goes on: an error reply must raise; anything returned must be "
    "consensus-valid and pay the request, except that an altered ring signature or commitment of a sign reply, which the host is not asked to verify, may yield a "
    "transaction with the requested content and an invalid signature; pairs of consistently altered hashes must never yield a valid transaction with other content. "
    "refresh / export: live refresh against a reference device that answers honestly, with every field altered, and with forged key images (wrong output, torsion "
    "component, foreign proof). distinct = (reply, field alteration) keys"
)
ASSUMPTIONS = ["the host does not verify ring signatures itself: the network does"]


def drive(co):
    try:
        while True:
            co.send(None)
    except StopIteration as e:
        return e.value


def judge(c, s, cfg, co, wire, req, rep, desc, new):
    """in a fork: the reply `rep` is replaced by `new`"""
    kind = rep.__class__.__name__
    fired = []

    def hook(i, method, m, out):
        if fired:
            return out
        fired.append(1)
        return new

    wire.res_hook = hook
    c.count("altered_replies")
    c.distinct(kind, generic(desc), cfg)
    c.observed += 1
    try:
        blob = drive(co)
    except Exception:
        c.count("host_refused")
        return
    c.ok(not dev.is_failure(new), "error reply of the device was ignored", reply=kind)
    c.count("host_returned")
    if kind == "MoneroTransactionAllOutSetAck":
        if not desc.startswith("consistent"):
            c.eq(bytes(new.tx_prefix_hash or b""), bytes(rep.tx_prefix_hash), "hash the device did not confirm accepted", alteration=desc)
    t = None
    try:
        t = rtx.parse(blob)
        rings = [s.chain.ring(v.key_offsets) for v in t.vin]
        bad = rtx.verify(t, rings)
    except rtx.Bad as e:
        bad = [str(e)]
    if not bad:
        t = dev.check_consensus(c, s, blob, cfg)
        dev.check_recipients(c, s, t)
        c.count("returned_faithful")
        return
    if kind == "MoneroTransactionSignInputAck":
        # only what the sign replies carry may be wrong
        rest = [b for b in bad if not (b.startswith("ring signature") or b.startswith(("input ", "not a curve point")) or b == "commitments do not balance")]
        if t is None:
            # unparsable ring signature / commitment sizes
            c.count("returned_network_rejects")
            return
        c.ok(not rest, "altered sign reply changed the content of the transaction", alteration=desc, problems=rest)
        dev.check_recipients(c, s, t)
        c.eq(sorted(v.k_image for v in t.vin), sorted(o.ki for o in s.owned), "key images after an altered sign reply")
        c.eq((t.fee, t.unlock_time), (s.fee, s.unlock), "fee and unlock time after an altered sign reply")
        c.count("returned_network_rejects")
        return
    if desc.startswith("consistent"):
        c.ok(any(b.startswith("ring signature") for b in bad), "content altered with its hash passes", problems=bad)
        c.count("returned_network_rejects")
        return
    c.fail("host returned a transaction the device's replies do not support", reply=kind, alteration=desc, problems=bad[:4])


def generic(desc):
    return ".".join(p for p in desc.replace(":", ".:").split(".") if not p.isdigit())


def failure():
    from monero_glue import messages as M

    return M.Failure(code=99, message="device says no")


def fam_sign(c):
    rng = c.rng
    n_in = rng.choice([1, 2, 2])
    n_out = rng.choice([2, 2, 3])
    s = gen.scenario(rng, n_in=n_in, n_out=n_out, ring=2, cheap=True)
    cfg = dev.CFGS[c.idx % 3]
    # replies of an earlier session of the same request
    old = dev.sign(s, cfg).wire.log
    old = [(cls, dev.pb_load(raw, cls)) for _, _, _, cls, raw in old]
    d = dev.device(s.w)
    wire = dev.Wire(d)
    wire.pause = True
    a = dev.agent(wire, cfg)
    co = dev.sign_coro(s, a)
    seen = []
    per = 6 if c.tier == "quick" else 14
    while True:
        try:
            co.send(None)
        except StopIteration as e:
            blob = e.value
            break
        if wire.cur is None:
            continue
        i, method, req, rep = wire.cur
        cls = rep.__class__
        others = [("same-kind", m) for k, m in seen if k is cls][-1:]
        if i < len(old) and old[i][0] is cls:
            others.append(("old-session", old[i][1]))
        cand = mut.mutations(rng, rep, others)
        cand = [(dd, f) for dd, f in cand]
        # spread the sample over the fields
        rng.shuffle(cand)
        by = {}
        for dd, f in cand:
            by.setdefault(generic(dd).split(":")[0], []).append((dd, f))
        pick = []
        while len(pick) < per and by:
            for k in list(by):
                pick.append(by[k].pop())
                if not by[k]:
                    del by[k]
        alts = []
        for dd, f in pick[: max(per, 0)]:
            alts.append((dd, f(rep)))
        alts.append(("failure", failure()))
        prev = [m for k, m in seen if k is not cls]
        if prev and rng.random() < 0.5:
            alts.append(("other-step", copy.deepcopy(rng.choice(prev))))
        if cls.__name__ == "MoneroTransactionAllOutSetAck":
            alts += consistent(c, rng, a, rep, s)
        for dd, new in alts:
            if mut.same(new, rep):
                continue
            c.fork(judge, c, s, cfg, co, wire, req, rep, dd, new, timeout=60)
        seen.append((cls, copy.deepcopy(rep)))
    t = dev.check_consensus(c, s, blob, cfg)
    dev.check_recipients(c, s, t)


def consistent(c, rng, a, rep, s):
    """content altered together with the hash over it: the host cannot tell, the network must"""
    from monero_glue.xmr import monero

    res = []
    h = bytes(rep.tx_prefix_hash)
    for cut in (None, b"", h[:1], h[: rng.randrange(1, 32)], h + b"\0", h[:31] + bytes([h[31] ^ 1])):
        # content altered, or not, with a hash that is not its hash
        new = copy.deepcopy(rep)
        new.tx_prefix_hash = cut
        if rng.random() < 0.5:
            ex = bytearray(bytes(rep.extra))
            ex[rng.randrange(1, 33)] ^= 1 << rng.randrange(8)
            new.extra = bytes(ex)
        res.append(("hash", new))
    for k in range(2):
        new = copy.deepcopy(rep)
        tx = copy.copy(a.ct.tx)
        ex = bytearray(bytes(rep.extra))
        if k == 0:
            ex += b"\x02\x09\x01" + gen.rb(rng, 8)
        else:
            ex[1:33] = ed.enc(ed.mulb(gen.rsc(rng)))
        tx.extra = list(ex)
        new.extra = bytes(ex)
        new.tx_prefix_hash = bytes(run(monero.get_transaction_prefix_hash(tx)))
        res.append(("consistent:%d" % k, new))
    return res


def fam_refresh(c):
    from monero_glue.xmr import crypto

    rng = c.rng
    w = gen.W(rng)
    rd = refdev.RefDevice(rng, w)
    wire = dev.Wire(dev.device(w))
    wire.peer["live_refresh"] = rd.live_refresh
    a = dev.agent(wire)
    tors = ed.torsion_points()
    view = lambda: crypto.decodeint(ed.scenc(w.a))
    outs = [gen.owned_output(rng, w, None, 5, rng.choice([0, 0, 1]), rng.choice([0, 1, 5])) for _ in range(4)]
    run(a.live_refresh_start())
    recs = []

    def ask(o):
        R = o.R
        x_main = None
        cand = [o.R] + ([o.add_pubs[o.oidx]] if o.add_pubs else [])
        for q in cand:
            D = cn.derivation(q, w.a)
            if ed.eq(ed.mulb((cn.deriv_scalar(D, o.oidx) + w.sub_secret(o.major, o.minor)) % L), o.P):
                x_main = D
                break
        return (view(), ed.enc(o.P), ed.enc(x_main), o.oidx, o.major, o.minor)

    for o in outs:
        ki = run(a.live_refresh(*ask(o)))
        c.eq(bytes(crypto.encodepoint(ki)), o.ki, "key image of a live refresh")
        c.count("refreshes")
        recs.append(o)
    o = outs[0]
    o2 = outs[1]
    cur = {}

    def hook(i, method, req, res):
        cur["res"] = res
        return cur["f"](req, res)

    wire.res_hook = hook
    cur["f"] = lambda q, r: r
    run(a.live_refresh(*ask(o2)))
    other = copy.deepcopy(cur["res"])
    run(a.live_refresh(*ask(o)))
    base = copy.deepcopy(cur["res"])
    muts = [(d, (lambda q, r, f=f: f(r))) for d, f in mut.mutations(rng, base, [("other-output", other), ("earlier", base)])]

    def sealed(ki, cc, rr, tail=b""):
        return lambda q, r: _ack(q, ki + ed.scenc(cc) + ed.scenc(rr) + tail)

    def _ack(q, plain):
        salt = gen.rb(rng, 32)
        k = refdev.host_key(w.a, bytes(q.out_key), salt)
        from monero_glue import messages as M

        return M.MoneroLiveRefreshStepAck(salt=salt, key_image=refdev.pack(rng, k, plain))

    def forged(xs, P, ki_pt, fake_P=None):
        """ring signature made with secret xs over another key image"""
        return ki_pt

    x, P = o.x, o.P
    good = ed.dec(o.ki)
    # someone else's key image, with a proof that is right for that one
    c2, r2 = refdev.ring_sig1(rng, o2.ki, o2.P, o2.x)
    muts.append(("other output's image and proof", sealed(o2.ki, c2, r2)))
    c1, r1 = refdev.ring_sig1(rng, o.ki, o.P, o.x)
    muts.append(("other output's image, this output's proof", sealed(o2.ki, c1, r1)))
    muts.append(("this image, other proof", sealed(o.ki, c2, r2)))
    rnd = ed.mulb(gen.rsc(rng))
    muts.append(("random image", sealed(ed.enc(rnd), c1, r1)))
    # proof of knowledge of x with an unrelated image (right hash chain, wrong second equation)
    for img in (rnd, ed.ID, good and ed.neg(good)):
        ki = ed.enc(img)
        cc, rr = refdev.ring_sig1(rng, ki, P, x)
        muts.append(("honest proof over a wrong image", sealed(ki, cc, rr)))
    for T in tors[1:]:
        img = ed.add(good, T)
        ki = ed.enc(img)
        for _ in range(200):
            k = gen.rsc(rng)
            Pe = ed.enc(P)
            cc = cn.hs(ki + ed.enc(ed.mulb(k)) + ed.enc(ed.mul(cn.hash_to_ec(Pe), k)))
            if cc % 8 == 0:
                muts.append(("image with a small-order component", sealed(ki, cc, (k - cc * x) % L)))
                break
    muts.append(("unreduced response", lambda q, r: _ack(q, o.ki + ed.scenc(c1) + (r1 + L).to_bytes(32, "little"))))
    muts.append(("failure", lambda q, r: failure()))
    for desc, f in muts:
        cur["f"] = f
        c.count("altered_answers")
        c.distinct("refresh", desc)
        c.observed += 1
        try:
            ki = run(a.live_refresh(*ask(o)))
        except Exception:
            c.count("answers_refused")
            continue
        c.ok(bytes(crypto.encodepoint(ki)) == o.ki, "live refresh accepted a wrong key image", alteration=desc)
        c.count("answers_harmless")
    # start and final
    for f in (a.live_refresh_start, a.live_refresh_final):
        cur["f"] = lambda q, r: failure()
        c.refused(lambda: run(f()), "error reply of live refresh ignored")
        cur["f"] = lambda q, r: r
        run(f())


def fam_export(c):
    """key image export: error replies and corrupted replies"""
    rng = c.rng
    w = gen.W(rng)
    n = rng.choice([1, 3, 11, 12])
    k = kis.KI(c, w, n)
    wire = dev.Wire(dev.device(w))
    a = dev.agent(wire)
    tr = k.transfers()
    total = 1 + (n + 9) // 10 + 1
    for at in range(total):
        wire2 = dev.Wire(dev.device(w))
        a2 = dev.agent(wire2)
        wire2.res_hook = lambda i, m, q, r: failure() if i == at else r
        c.refused(lambda: run(a2.import_outputs(tr)), "error reply of an export ignored", at=at)
        c.count("error_replies")
    # bit flips in any sealed key image are detected
    for _ in range(12):
        wire2 = dev.Wire(dev.device(w))
        a2 = dev.agent(wire2)
        at = 1
        j = rng.randrange(min(n, 10))
        fld = rng.choice(["iv", "blob", "blob", "key"])
        pos = rng.randrange(12 if fld == "iv" else 32 if fld == "key" else 96)

        def flip(b):
            b = bytearray(b)
            b[pos] ^= 1 << rng.randrange(8)
            return bytes(b)

        def hook(i, m, q, r):
            if fld == "key":
                if i == total - 1:
                    r.enc_key = flip(r.enc_key)
            elif i == at:
                setattr(r.kis[j], fld, flip(getattr(r.kis[j], fld)))
            return r

        wire2.res_hook = hook
        c.count("altered_replies")
        c.distinct("export", fld)
        c.observed += 1
        try:
            res = run(a2.import_outputs(tr))
        except Exception:
            continue
        c.fail("altered export reply accepted", field=fld, pos=pos)


FAMILIES = {
    "sign": dict(fn=fam_sign, quick=10, thorough=90, backends=("tcry",), weight=10),
    "refresh": dict(fn=fam_refresh, quick={"tcry": 10, "py": 1}, thorough={"tcry": 80, "py": 3}, backends=("tcry", "py"), weight=2),
    "export": dict(fn=fam_export, quick=6, thorough=40, backends=("tcry",), weight=1),
}
