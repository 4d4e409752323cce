"""Range proofs hide the amounts and are the same however they are computed."""

import asyncio
import copy as copymod
import os
import subprocess
import sys

from .. import gen
from ..ref import bpprove, cn, ed, sigs
from ..ref.ed import L
from . import C19
from .C19 import S2, amount, mask, to_ref

RULE = (
    "every proof made in the run (one-shot, non-incremental, random masks, offloaded with methods 0-3, many batch sizes and thresholds, state saved, restored or restored twice at any step) is verified "
    "independently for exactly its commitments and its transcript analysed with knowledge of the openings: blinding scalars and points never repeat, are not zero, equal or publicly recomputable, also "
    "between processes; rank attacks over many proofs decide whether the blinding vectors are shared; what the offloading host sees is not unblinded. distinct = (prover, outputs, method, batching, restore pattern)"
)
ASSUMPTIONS = [
    "set_prng (deterministic generator) and do_blind=False are test facilities: proofs made with them only have to verify",
    "offloading: M a power of two; batching at most MN/2, and for method 0 at most MN/4 and nprime_thresh; off2_thresh <= nprime_thresh (documented)",
]

_seen = {}


def fresh(c, kind, val, where):
    """val never appeared before in this process, in any role."""
    val = bytes(val)
    c.observed += 1
    if val in _seen:
        c.fail("blinding material repeated between proofs: %s" % kind, first=_seen[val], now=where)
    _seen[val] = (kind, where)


def itoi(x):
    return int.from_bytes(bytes(x), "little")


def attr(b, k):
    v = getattr(b, k, None)
    try:
        if isinstance(v, (bytes, bytearray)) and len(v) == 32:
            return itoi(v)
        if v is not None:
            from monero_glue.xmr import crypto

            return itoi(crypto.encodeint(v))
    except Exception:
        pass
    return None


def analyse(c, p, am, ms, where, secrets=None):
    """p: reference form, openings known."""
    n = len(am)
    M = 1
    while M < n:
        M *= 2
    MN = 64 * M
    y, z, x, xip, w = bpprove.challenges(p)
    sc = {k: itoi(getattr(p, k)) for k in ("taux", "mu", "a", "b", "t")}
    for k in ("A", "S", "T1", "T2", "taux", "mu"):
        fresh(c, k, getattr(p, k), where)
    aL = [(am[i // 64] >> (i % 64)) & 1 if i // 64 < n else 0 for i in range(MN)]
    G, H = zip(*(cn.bp_gen(i) for i in range(MN)))
    base = ed.multiexp([(1, g) for g, b in zip(G, aL) if b] + [(L - 1, h) for h, b in zip(H, aL) if not b])
    A8 = ed.mul8(ed.dec(p.A))
    S8 = ed.mul8(ed.dec(p.S))
    D = ed.sub(A8, base)  # alpha * B

    def is_alpha(v):
        return v is not None and ed.eq(ed.mulb(v % L), D)

    c.ok(not is_alpha(0), "the commitment to the bits is not blinded", where=where)
    c.ok(not is_alpha(sc["mu"]), "the blinding commitment is not blinded", where=where)
    c.ok(not is_alpha(sc["mu"] * ed.inv(1 + x)), "the two vector commitments share their blinding", where=where)
    # folded blinding vectors (their weights are public)
    wi = [ed.inv(v) for v in w]
    wa, wb = [1], [1]
    for q, qi in zip(w, wi):
        wa = [v for s in wa for v in (s * q % L, s * qi % L)]
        wb = [v for s in wb for v in (s * qi % L, s * q % L)]
    yp = [1]
    for _ in range(MN - 1):
        yp.append(yp[-1] * y % L)
    xi = ed.inv(x)
    fa = (sc["a"] - sum(u * (b - z) for u, b in zip(wa, aL))) * xi % L
    r0 = [(yp[i] * (aL[i] - 1 + z) + pow(z, 2 + i // 64, L) * (1 << (i % 64))) % L for i in range(MN)]
    fb = (sc["b"] - sum(u * r for u, r in zip(wb, r0))) * xi % L
    wb = [u * v % L for u, v in zip(wb, yp)]
    c.ok(fa and fb, "a blinding vector is zero", where=where)
    # blinding scalars from the prover's own state, believed only if they satisfy the proof's equations
    out = dict(fa=(wa, fa), fb=(wb, fb), x=x, mu=sc["mu"])
    tx = (sc["taux"] - sum(pow(z, j + 2, L) * m for j, m in enumerate(ms))) % L
    out["tx"] = tx
    secrets = secrets or {}
    al, rho = secrets.get("alpha"), secrets.get("rho")
    if is_alpha(al) and rho is not None and (al + rho * x - sc["mu"]) % L == 0:
        c.count("blinding-scalars-extracted")
        fresh(c, "alpha", ed.scenc(al), where)
        fresh(c, "rho", ed.scenc(rho), where)
        X = ed.sub(S8, ed.mulb(rho))
        fresh(c, "blinding vectors", ed.enc(X), where)
        ca, cb = fa * ed.inv(sum(wa)) % L, fb * ed.inv(sum(wb)) % L
        K = ed.multiexp([(ca, g) for g in G] + [(cb, h) for h in H])
        c.ok(not ed.eq(K, X), "the blinding vectors repeat a single value", where=where)
        for sl, sr in known_vectors(MN):
            c.ok(not ed.eq(ed.multiexp(list(zip(sl, G)) + list(zip(sr, H))), X), "the blinding vectors can be recomputed from public constants", where=where)
    t1, t2 = secrets.get("tau1"), secrets.get("tau2")
    if t1 is not None and t2 is not None and (t1 * x + t2 * x * x - tx) % L == 0:
        c.count("tau-extracted")
        fresh(c, "tau1", ed.scenc(t1), where)
        fresh(c, "tau2", ed.scenc(t2), where)
    c.ok(tx != 0, "the polynomial commitments are not blinded", where=where)
    c.count("transcripts")
    return out


_kv = {}


def known_vectors(MN):
    """What a constant-seeded expansion of the masks would give."""
    if MN > 128:
        return []
    if MN not in _kv:
        out = []
        try:
            from monero_glue.xmr import bulletproof as bp

            z, o, e = bytes(32), b"\x01" + bytes(31), b"\x08" + bytes(31)
            exp = lambda s: [itoi(v) for v in [bytes(bytearray(q.to(i))) for q in [bp.KeyVPrngMask(MN, s)] for i in range(MN)]]
            vs = {k: exp(k) for k in (z, o, e)}
            out = [(vs[z], vs[o]), (vs[o], vs[z]), (vs[z], vs[z]), (vs[o], vs[o]), (vs[o], vs[e]), (vs[z], vs[e])]
        except Exception:
            out = []
        _kv[MN] = out
    return _kv[MN]


def secrets_of(b):
    got = getattr(b, "_verif_sec", {})
    return {k: attr(b, k) if attr(b, k) is not None else got.get(k) for k in ("alpha", "rho", "tau1", "tau2")}


def watch(b):
    """Reads the blinding scalars whenever the prover calls its (public) progress hook."""
    got = {}

    def trace(*_):
        for k in ("alpha", "rho", "tau1", "tau2"):
            v = attr(b, k)
            if v is not None:
                got[k] = v

    b._verif_sec = got
    b.gc_trace = trace
    b.gc_fnc = None
    return b


def commits_ok(c, p, am, ms):
    c.eq([ed.enc(ed.mul8(ed.dec(v))) for v in p.V], [ed.enc(cn.commit(m, a)) for m, a in zip(ms, am)], "proof is not for commitments to these amounts and masks", amounts=am)


def fam_hide(c):
    from monero_glue.xmr import bulletproof as bp

    rng = c.rng
    n = 1 if c.backend == "py" else rng.choice([1, 1, 2])
    am, ms = [amount(rng) for _ in range(n)], [mask(rng) for _ in range(n)]
    for rep in range(2):
        how = rng.choice(["batch", "batch", "batch_", "random-masks"])
        b = watch(bp.BulletProofBuilder())
        if how == "random-masks":
            b.use_det_masks = False
        p = to_ref((b.prove_batch_ if how == "batch_" else b.prove_batch)([S2(a) for a in am], [S2(m) for m in ms]))
        commits_ok(c, p, am, ms)
        where = "%s %d/%s/%d" % (how, c.idx, c.family, rep)
        analyse(c, p, am, ms, where, secrets_of(b))
        c.distinct("hide", how, n)
    # the same builder used again
    watch(b)
    q = to_ref(b.prove_batch([S2(a) for a in am], [S2(m) for m in ms]))
    c.ok(sigs.bp_verify(q), "proof of a builder used twice does not verify", how=how)
    analyse(c, q, am, ms, where + " again", secrets_of(b))


def rank(rows):
    """Rank over the field of scalars."""
    rows = [list(r) for r in rows]
    rk = 0
    ncol = len(rows[0])
    for col in range(ncol):
        piv = next((i for i in range(rk, len(rows)) if rows[i][col]), None)
        if piv is None:
            continue
        rows[rk], rows[piv] = rows[piv], rows[rk]
        inv = ed.inv(rows[rk][col])
        pr = [v * inv % L for v in rows[rk]]
        rows[rk] = pr
        for i in range(rk + 1, len(rows)):
            f = rows[i][col]
            if f:
                r = rows[i]
                rows[i] = [(u - f * v) % L for u, v in zip(r, pr)]
        rk += 1
    return rk


def fam_rank(c):
    """If the blinding vector of the left (right) side were the same in all proofs, 66 proofs would be dependent."""
    from monero_glue.xmr import bulletproof as bp

    rng = c.rng
    how = ["batch", "offload", "batch_", "random-masks"][c.idx % 4]
    N = 66
    ra, rb, rm, rt = [], [], [], []
    for i in range(N):
        am, ms = [amount(rng)], [mask(rng)]
        b = bp.BulletProofBuilder()
        if how == "offload":
            b, p = offload(c, rng, am, ms, 2, 32, 32, 32, [])[:2]
        else:
            if how == "random-masks":
                b.use_det_masks = False
            p = to_ref((b.prove_batch_ if how == "batch_" else b.prove_batch)([S2(a) for a in am], [S2(m) for m in ms]))
        o = analyse(c, p, am, ms, "rank %s %d" % (how, i), {})
        ra.append(o["fa"][0] + [o["fa"][1]])
        rb.append(o["fb"][0] + [o["fb"][1]])
        rm.append([1, o["x"], o["mu"]])
        rt.append([o["x"], o["x"] ** 2 % L, o["tx"]])
    c.ok(rank(ra) == 65, "left blinding vector is the same in all proofs (recovered by elimination)", how=how)
    c.ok(rank(rb) == 65, "right blinding vector is the same in all proofs (recovered by elimination)", how=how)
    c.ok(rank(rm) == 3, "vector commitment blindings are the same in all proofs", how=how)
    c.ok(rank(rt) == 3, "polynomial commitment blindings are the same in all proofs", how=how)
    c.count("rank-attacks", 4)
    c.distinct("rank", how)


SNIP = """
from monero_glue.xmr import bulletproof as bp, crypto
for how in ("prove_batch", "prove_batch_"):
    p = getattr(bp.BulletProofBuilder(), how)([crypto.sc_init(5)], [crypto.sc_init(7)])
    print("PROOF", *[bytes(getattr(p, k)).hex() for k in ("A", "S", "T1", "T2", "taux", "mu")])
b = bp.BulletProofBuilder()
b.off_method = 2
b.prove_batch_off([crypto.sc_init(5)], [crypto.sc_init(7)])
print("PROOF", *[bytes(getattr(b, k)).hex() for k in ("A", "S", "T1", "T2") if getattr(b, k, None)])
"""


def fam_process(c):
    got = []
    for _ in range(2):
        r = subprocess.run([sys.executable, "-W", "ignore", "-c", SNIP], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ), timeout=200)
        lines = [l.split()[1:] for l in r.stdout.decode().splitlines() if l.startswith("PROOF")]
        c.ok(len(lines) == 3, "prover died in a fresh process", err=r.stderr.decode()[-800:])
        for l in lines:
            got += l
    c.eq(len(set(got)), len(got), "proofs made by different processes share blinding material")
    c.count("process-pairs")
    c.distinct("process", c.backend)


def offload(c, rng, am, ms, meth, npt, off2, bat, restore, blind=True, twin=None):
    """Runs the offloaded prover against the project's own offloading host. restore: steps after which the state
    is saved and restored ('all' for every one). Returns (builder secrets, proof, host view)."""
    from monero_glue.hwtoken import misc as tmisc
    from monero_glue.xmr import bulletproof as bp
    from monero_glue.xmr.bulletproof_cl import BulletproofClient, BulletproofFull

    st = dict(b=None, n=0, sec={}, proof=None)
    view = dict(sent=[], recv=[])

    async def messenger(p1=0, p2=0, params=None, buffers=None):
        view["recv"].append(buffers)
        if p1 == 0:
            b = bp.BulletProofBuilder()
            b.do_blind = blind
            b.gc_fnc = None
            b.off_method, b.nprime_thresh, b.off2_thresh, b.batching = params
            r = b.prove_batch_off([S2(a) for a in am], [S2(m) for m in ms], buffers)
        else:
            b = st["b"]
            r = b.prove_batch_off_step(buffers)
        n = st["n"]
        st["n"] += 1
        for k, v in secrets_of(b).items():
            if v is not None:
                st["sec"][k] = v
        final = isinstance(r, tuple) and len(r) == 2 and r[0] == 1
        if not final and (restore == "all" or n in restore):
            r2 = copymod.deepcopy(r)
            s = b.dump_state()
            keep = copymod.deepcopy(s)
            b2 = bp.BulletProofBuilder()
            b2.gc_fnc = None
            b2.load_state(s)
            b = b2
            r = r2
            if twin is not None and twin == n:
                # a second restoration of the same saved state must not be disturbed by the first one
                b3 = bp.BulletProofBuilder()
                b3.gc_fnc = None
                b3.load_state(keep)
                b = b3
            c.count("restores")
        st["b"] = b
        if final:
            st["proof"] = to_ref(r[1])
            m = BulletproofFull()
            for k in sigs.BP.__slots__:
                setattr(m, k, getattr(r[1], k))
            r = [await tmisc.dump_msg(m)]
        else:
            view["sent"].append(copymod.deepcopy(r))
        return r

    cl = BulletproofClient(len(am), messenger)
    cl.off_method, cl.nprime_thresh, cl.off2_thresh, cl.batching = meth, npt, off2, bat
    from ..harness import run

    got = to_ref(run(cl.compute_bp()))
    c.count("offload-steps", st["n"])
    c.eq({k: getattr(got, k) for k in got.__slots__}, {k: getattr(st["proof"], k) for k in got.__slots__}, "offloaded proof changed on its way to the host")
    b = type("Sec", (), dict(st["sec"]))()
    return b, got, view, st["n"]


def supported(meth, npt, off2, bat, MN):
    if off2 > npt or npt < 2 or off2 < 2:
        return False
    if bat > MN // 2:
        return False
    if meth == 0 and (bat > MN // 4 or bat > npt):
        return False
    return True


def fam_offload(c):
    rng = c.rng
    m = 1 if c.backend == "py" else rng.choice([1, 1, 2, 2, 4] + ([8, 16] if c.tier == "thorough" or c.idx % 24 == 7 else []))
    while True:
        meth = rng.choice([0, 1, 2, 3])
        npt, off2, bat = rng.choice([8, 16, 32, 64, 128]), rng.choice([4, 8, 16, 32, 64]), rng.choice([4, 8, 16, 32, 64, 128])
        if supported(meth, npt, off2, bat, 64 * m):
            break
    am, ms = [amount(rng) for _ in range(m)], [mask(rng) for _ in range(m)]
    mode = rng.choice(["all", "all", "none", "one", "some"])
    restore = dict(all="all", none=[], one=[rng.randrange(12)], some=rng.sample(range(40), 12))[mode]
    blind = rng.random() < 0.85
    twin = rng.randrange(10) if mode == "all" and rng.random() < 0.5 else None
    try:
        b, p, view, steps = offload(c, rng, am, ms, meth, npt, off2, bat, restore, blind, twin)
    except (IndexError, KeyError, AttributeError, TypeError, ValueError) as e:
        c.fail("offloaded prover failed: %s %s" % (type(e).__name__, str(e)[:100]), m=m, method=meth, nprime=npt, off2=off2, batching=bat, mode=mode)
    commits_ok(c, p, am, ms)
    c.ok(sigs.bp_verify(p), "offloaded proof does not verify", m=m, method=meth, nprime=npt, off2=off2, batching=bat, mode=mode, restore=restore, blind=blind)
    where = "offload %d m%d" % (c.idx, meth)
    analyse(c, p, am, ms, where, {k: getattr(b, k, None) for k in ("alpha", "rho", "tau1", "tau2")})
    if blind:
        host_view(c, p, view, 64 * m, bat, where)
    c.count("offloaded-proofs")
    c.distinct("off", m, meth, npt, off2, bat, mode, blind)
    c.sample(dict(outputs=m, method=meth, nprime_thresh=npt, off2_thresh=off2, batching=bat, restore=mode, steps=steps))


def host_view(c, p, view, MN, bat, where):
    """The vectors given to the host are blinded: they don't satisfy the proof's equations as they are."""
    lv, rv = [], []
    for r in view["sent"]:
        if isinstance(r, (tuple, list)) and len(r) == 2 and len(lv) < MN:
            bs = [b"".join(bytes(e) for e in q) if isinstance(q, (list, tuple)) else bytes(q.d) if hasattr(q, "d") else bytes(q) for q in r]
            if len(bs[0]) == len(bs[1]) and len(bs[0]) % 32 == 0:
                lv += [itoi(bs[0][i : i + 32]) for i in range(0, len(bs[0]), 32)]
                rv += [itoi(bs[1][i : i + 32]) for i in range(0, len(bs[1]), 32)]
    if len(lv) == MN:
        t = itoi(p.t)
        h = MN // 2
        ip = lambda a, b: sum(u * v for u, v in zip(a, b)) % L
        c.ok(ip(lv, rv) != t, "vectors handed to the host are not blinded", where=where)
        y, z, x, xip, w = bpprove.challenges(p)
        # folding the vectors as given must not lead to the proof's last scalars
        a, b = lv, rv
        for q in w:
            n, qi = len(a) // 2, ed.inv(q)
            a = [(q * u + qi * v) % L for u, v in zip(a[:n], a[n:])]
            b = [(qi * u + q * v) % L for u, v in zip(b[:n], b[n:])]
        c.ok(a[0] != itoi(p.a), "left vector handed to the host is not blinded", where=where)
        c.ok(b[0] != itoi(p.b), "right vector handed to the host is not blinded", where=where)
        c.ok(len(set(lv)) == MN and len(set(rv)) == MN, "vectors handed to the host repeat values", where=where)
        c.count("host-views")
        fresh(c, "blinded vector", ed.scenc(lv[0]), where)
    k = 0
    y, z, x, xip, w = bpprove.challenges(p)
    for bufs in view["recv"]:
        if isinstance(bufs, (tuple, list)) and len(bufs) == 6 and k < len(p.L):
            try:
                cL, cR = itoi(bufs[0]), itoi(bufs[1])
                Lp = ed.add(ed.dec(bytes(bufs[2])), ed.dec(bytes(bufs[3])))
                Rp = ed.add(ed.dec(bytes(bufs[4])), ed.dec(bytes(bufs[5])))
            except Exception:
                break
            c.ok(not ed.eq(ed.mul8(ed.dec(p.L[k])), ed.add(Lp, ed.mul(cn.H, cL * xip % L))), "the host computes the round values unblinded", where=where, round=k)
            c.ok(not ed.eq(ed.mul8(ed.dec(p.R[k])), ed.add(Rp, ed.mul(cn.H, cR * xip % L))), "the host computes the round values unblinded", where=where, round=k)
            c.count("offloaded-rounds")
            k += 1


def fam_runner(c):
    """The measuring tool (BulletproofMPCRunner: values 137*i blinded with 991*i, constant generator, state saved and
    restored at every step) against the project's own offloading host: the proof is one for those values."""
    from monero_glue.xmr import bulletproof as bp
    from monero_glue.xmr.bulletproof_cl import BulletproofClient, BulletproofMPCRunner
    from ..harness import run

    rng = c.rng
    m = 1 if c.backend == "py" else rng.choice([1, 2, 2, 4])
    while True:
        meth = rng.choice([0, 1, 2, 3])
        npt, off2, bat = rng.choice([8, 16, 32, 64]), rng.choice([4, 8, 16, 32, 64]), rng.choice([8, 16, 32, 64])
        if supported(meth, npt, off2, bat, 64 * m):
            break
    r = BulletproofMPCRunner()
    steps = [0]

    async def messenger(p1=0, p2=0, params=None, buffers=None):
        steps[0] += 1
        return await r.step(p1, p2, params, buffers)

    cl = BulletproofClient(m, messenger=messenger)
    cl.off_method, cl.nprime_thresh, cl.off2_thresh, cl.batching = meth, npt, off2, bat
    old = bp.PRNG if hasattr(bp, "PRNG") else None
    try:
        p = to_ref(run(cl.compute_bp()))
    except (IndexError, KeyError, AttributeError, TypeError, ValueError) as e:
        c.fail("step runner failed: %s %s" % (type(e).__name__, str(e)[:100]), m=m, method=meth, nprime=npt, off2=off2, batching=bat)
    finally:
        bp.set_prng(old)
    commits_ok(c, p, [137 * i for i in range(m)], [991 * i for i in range(m)])
    c.ok(sigs.bp_verify(p), "proof of the step runner does not verify", m=m, method=meth, nprime=npt, off2=off2, batching=bat)
    c.count("runner-proofs")
    c.count("offload-steps", steps[0])
    c.distinct("runner", m, meth, npt, off2, bat)


FAMILIES = {
    "runner": dict(fn=fam_runner, quick={"tcry": 6, "py": 0}, thorough={"tcry": 120, "py": 3}, backends=("tcry", "py"), weight=4),
    "rank": dict(fn=fam_rank, quick={"tcry": 2}, thorough={"tcry": 8}, backends=("tcry",), weight=30),
    "hide": dict(fn=fam_hide, quick={"tcry": 16, "py": 1}, thorough={"tcry": 500, "py": 20}, backends=("tcry", "py"), weight=3),
    "process": dict(fn=fam_process, quick={"tcry": 1, "py": 1}, thorough={"tcry": 3, "py": 2}, backends=("tcry", "py"), weight=10),
    "offload": dict(fn=fam_offload, quick={"tcry": 56, "py": 1}, thorough={"tcry": 1600, "py": 30}, backends=("tcry", "py"), weight=4),
}
