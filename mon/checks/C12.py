"""Failures stay contained in their session."""

import copy

from .. import dev, fault, gen, host, kis, mut
from ..harness import Violation, run
from ..ref import tx as rtx
from . import C06

RULE = (
    "fault: at every step kind of a signing or export session, in a forked copy, a fault is injected (exception at a random function entry or line of the "
    "project's code, exception of the user interface, altered message, reply lost); the failed session must be dead and the same device and process must then complete honest "
    "signing, export and query requests, judged by the independent oracles; agent: the same for the host object; resume: the session continues on a fresh device object from "
    "the saved state before each step (also after the interrupted step had already run once), under controlled randomness every reply must be byte-identical to the "
    "uninterrupted run; interleave: several agents and devices run in one process under a random scheduler, some failing. distinct = (step, fault site) and schedules"
)
ASSUMPTIONS = ["faults are exceptions and lost messages; the process itself survives or its state is what the device saved"]


def honest(c, d, w, rng, full=True):
    """the device still serves"""
    if full:
        s = gen.scenario(rng, wallet=w, n_in=rng.choice([1, 2]), n_out=rng.choice([2, 2, 3]), ring=2, cheap=True)
        cfg = dev.CFGS[rng.randrange(3)]
        h = host.RawHost(s, cfg, d).go()
        t = dev.check_consensus(c, s, h.blob(), cfg)
        dev.check_recipients(c, s, t)
        c.count("signings_after_fault")
    k = kis.KI(c, w, 2)
    k.check(c, k.go(d))
    M = host.M()
    r = run(dev.Wire(d).exchange("get_view_key", M.MoneroGetWatchKey(address_n=[], network_type=1)))
    c.ok(not dev.is_failure(r), "query refused after a fault")
    from ..ref import ed

    c.eq(bytes(r.watch_key), ed.scenc(w.a), "watch key after a fault")
    c.count("exports_after_fault")


def send_faulty(h, st, how, rng, mutator=None):
    """('ok'|'failure'|'raised', fired)"""
    try:
        if how[0] == "trace":
            msg = h.build(st)
            raw = dev.pb_load(dev.pb_dump(msg), msg.__class__)
            with fault.Tracer(how[1], how[2], how[3]) as tr:
                try:
                    res = run(h.dev.tsx_sign(raw))
                finally:
                    how.append(tr.fired)
            h.last = res
            if dev.is_failure(res):
                return "failure"
            res = dev.pb_load(dev.pb_dump(res), res.__class__)
            h.absorb(st, res, raw)
            return "ok"
        if how[0] == "ui":

            def on(name, a, k):
                if how[1] is None or name == how[1]:
                    how.append(name)
                    raise RuntimeError("display gone")

            h.dev.iface.on = on
            try:
                return "ok" if h.step(st) else "failure"
            finally:
                h.dev.iface.on = None
        return "ok" if h.step(st, mutator) else "failure"
    except Violation:
        raise
    except Exception:
        return "raised"


def calls_of(h, st, lines):
    msg = h.build(st)
    raw = dev.pb_load(dev.pb_dump(msg), msg.__class__)
    with fault.Tracer(None, lines=lines) as tr:
        run(h.dev.tsx_sign(raw))
    return tr.n


def branch(c, h, s, cfg, st, rest, how, donors, full, mutator=None):
    """runs in a fork"""
    n0 = len(h.dev.iface.log)
    if how[0] == "trace" and how[1] is None:
        # measure in a fork of the fork, so that warm-up and state stay out of it
        import os

        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.write(wr, b"%d" % calls_of(h, st, how[3]))
            finally:
                os._exit(0)
        os.close(wr)
        b = os.read(r, 64)
        os.close(r)
        os.waitpid(pid, 0)
        if not b:
            raise RuntimeError("could not measure the step")
        n = int(b)
        how[1] = c.rng.randrange(1, n + 1)
    out = send_faulty(h, st, how, c.rng, mutator)
    c.count("faults_injected")
    site = how[-1] if how[0] == "trace" else (how[0], how[1] if len(how) > 1 else "")
    c.distinct(st[0], how[0], site)
    c.count("fault_outcome_" + out)
    if how[0] == "drop":
        # the reply was lost; the host gives up
        pass
    elif out == "ok":
        # the fault was absorbed (or the message was harmless): the rest must still be right
        try:
            h.go(rest)
        except host.Refused:
            c.count("refused_later")
        else:
            t = dev.check_consensus(c, s, h.blob(), cfg)
            dev.check_recipients(c, s, t)
            return
    else:
        C06.dead(c, h, donors, (st, how[0]))
        ev = [e[0] for e in h.dev.iface.log[n0:]]
        if how[0] == "trace":
            c.ok("transaction_finished" not in ev or st[0] == "final", "success reported for a failed session", events=ev)
    honest(c, h.dev, s.w, c.rng, full)


def fam_sign(c):
    rng = c.rng
    s, cfg, grouping = C06.shape(c)
    donors = C06.donor(s, cfg, grouping)
    h = host.RawHost(s, cfg, grouping=grouping)
    plan = h.plan()
    heavy = {"out", "bp", "allin", "sign"}
    for k, st in enumerate(plan):
        hows = []
        exc = rng.choice([fault.Injected, ValueError, KeyError, OSError])
        hows.append(["trace", None, exc, st[0] not in heavy and rng.random() < 0.7])
        r = rng.random()
        if r < 0.34:
            hows.append(["ui", rng.choice([None, "transaction_step", "transaction_error"])])
        elif r < 0.67:
            hows.append(["drop"])
        else:
            hows.append(["mut"])
        if st[0] in ("init", "final", "allout"):
            hows.append(["ui", None])
        for how in hows:
            m = None
            if how[0] == "mut":
                ms = mut.mutations(rng, h.build(st))
                if not ms:
                    continue
                d, m = rng.choice(ms)
            c.rng.random()
            full = rng.random() < 0.3 or (k == len(plan) - 2 and how[0] == "trace")
            c.fork(branch, c, h, s, cfg, st, plan[k + 1 :], how, donors, full, m, timeout=100)
        if not h.step(st):
            raise host.Refused(st, h.last)
    t = dev.check_consensus(c, s, h.blob(), cfg)
    dev.check_recipients(c, s, t)
    c.distinct("shape", gen.shape_key(s), cfg)


def ki_branch(c, k, d, i, seq, how):
    s = kis.Session(d)
    r = None
    ok = True
    for j, (what, arg) in enumerate(seq):
        msg = {"init": lambda: k.init_msg(), "step": lambda: kis.M().MoneroKeyImageSyncStepRequest(tdis=arg), "final": lambda: kis.M().MoneroKeyImageSyncFinalRequest()}[what]()
        if j == i:
            c.count("faults_injected")
            try:
                if how == "ui":

                    def on(name, a, kk):
                        raise RuntimeError("display gone")

                    d.iface.on = on
                    try:
                        r = run(d.key_image_sync(msg))
                    finally:
                        d.iface.on = None
                elif how == "drop":
                    run(d.key_image_sync(msg))
                    break
                else:
                    with fault.Tracer(how[0], how[1], how[2]) as tr:
                        try:
                            r = run(d.key_image_sync(msg))
                        finally:
                            c.distinct("ki", what, tr.fired)
                ok = not dev.is_failure(r)
            except Violation:
                raise
            except Exception:
                ok = False
            c.distinct("ki", what, str(how)[:8], ok)
            if not ok:
                # dead
                for m2 in (kis.M().MoneroKeyImageSyncStepRequest(tdis=k.tds[:1]), kis.M().MoneroKeyImageSyncFinalRequest()):
                    r2 = run(s.w.exchange("key_image_sync", m2))
                    c.ok(dev.is_failure(r2), "export message accepted after a failure", at=what, how=str(how))
                break
            if what == "step":
                s.kis += r.kis
        else:
            r = run(s.w.exchange("key_image_sync", msg))
            c.ok(not dev.is_failure(r), "honest export message refused")
            if what == "step":
                s.kis += r.kis
    else:
        if r is not None and hasattr(r, "enc_key"):
            k.check(c, s.open(r.enc_key))
    honest(c, d, k.w, c.rng, c.rng.random() < 0.15)


def fam_ki(c):
    rng = c.rng
    w = gen.W(rng)
    n = rng.choice([1, 2, 3])
    k = kis.KI(c, w, n)
    seq = [("init", None)] + [("step", ch) for ch in k.chunks(rng.choice([1, 2]))] + [("final", None)]
    d = dev.device(w)
    k.check(c, k.go(d))
    for i, (what, _) in enumerate(seq):
        for how in ("ui", "drop", (rng.randrange(1, 25), ValueError, False), (rng.randrange(1, 80), fault.Injected, True), (rng.randrange(1, 8), KeyError, True)):
            c.fork(ki_branch, c, k, d, i, seq, how, timeout=60)
    # an abandoned signing session does not disturb an export and the other way round
    s = gen.scenario(rng, wallet=w, n_in=1, n_out=2, ring=2, cheap=True)
    h = host.RawHost(s, (1, 10), d)
    p = h.plan()
    h.go(p[: rng.randrange(1, len(p))])
    honest(c, d, w, rng, True)


def fam_agent(c):
    """the host object after an error"""
    rng = c.rng
    s = gen.scenario(rng, n_in=rng.choice([1, 2]), n_out=rng.choice([2, 3]), ring=2, cheap=True)
    cfg = dev.CFGS[rng.randrange(3)]
    M = host.M()
    r0 = dev.sign(s, cfg)
    total = len(r0.wire.log)
    wire = r0.wire
    a = r0.agent
    for _ in range(5):
        at = rng.randrange(total)
        how = rng.choice(["failure", "raise", "mutreq", "ui", "devexc"])
        base = wire.n

        def req(i, method, msg, at=at, base=base):
            if i - base != at:
                return msg
            if how == "raise":
                raise ConnectionError("cable")
            if how == "mutreq":
                ms = mut.mutations(rng, msg)
                if ms:
                    return rng.choice(ms)[1](msg)
            return msg

        def res(i, method, q, r, at=at, base=base):
            return M.Failure(message="no") if i - base == at and how in ("failure",) else r

        def on(name, aa, k):
            if wire.n - 1 - base == at and how in ("ui", "devexc"):
                raise RuntimeError("display gone")

        wire.req_hook, wire.res_hook = req, res
        r0.dev.iface.on = on
        s1 = s if rng.random() < 0.5 else gen.scenario(rng, wallet=s.w, n_in=rng.choice([1, 2]), n_out=rng.choice([2, 3, 4]), ring=2, cheap=True)
        c.count("faults_injected")
        c.distinct("agent", how, at)
        got = None
        try:
            got = run(dev.sign_coro(s1, a))
        except Exception:
            c.count("host_reported_error")
        wire.req_hook = wire.res_hook = r0.dev.iface.on = None
        if got is not None:
            if how == "mutreq":
                # the request altered on the wire is no honest session; what came out is judged by C05/C07/C13
                pass
            else:
                t = dev.check_consensus(c, s1, got, cfg)
                dev.check_recipients(c, s1, t)
        # the same agent and device go on
        s2 = rng.choice([s, gen.scenario(rng, wallet=s.w, n_in=rng.choice([1, 2]), n_out=rng.choice([2, 3]), ring=2, cheap=True)])
        try:
            blob = run(dev.sign_coro(s2, a))
        except Exception as e:
            c.fail("honest signing fails on an agent that saw a fault: %r" % (str(e)[-300:],), how=how, at=at)
        t = dev.check_consensus(c, s2, blob, cfg)
        dev.check_recipients(c, s2, t)
        c.count("agent_recoveries")


def fam_resume(c):
    rng = c.rng
    s, cfg, grouping = C06.shape(c)
    seed = rng.getrandbits(64)

    def play(mode):
        det = fault.Det(seed)
        h = host.RawHost(s, cfg, grouping=grouping)
        replies = []
        points = 0
        for k, st in enumerate(h.plan()):
            if mode != "plain" and k:
                if mode == "fresh" or mode == "snapshot-redo":
                    d2 = dev.device(s.w)
                    if mode == "snapshot-redo" and c.rng.random() < 0.7:
                        snap = copy.deepcopy(h.dev.tsx_state)
                        # the step runs once, the reply and the new state are lost
                        msg = h.build(st)
                        det.label(("lost", k))
                        run(h.dev.tsx_sign(dev.pb_load(dev.pb_dump(msg), msg.__class__)))
                        d2.tsx_state = snap
                        c.count("steps_redone")
                    elif mode == "snapshot-redo":
                        d2.tsx_state = copy.deepcopy(h.dev.tsx_state)
                    else:
                        d2.tsx_state = h.dev.tsx_state
                    points += 1
                    h.w.dev = h.dev = d2
            det.label(k)
            if not h.step(st):
                c.fail("honest step refused after resuming", step=st, mode=mode, message=str(h.last.message)[-300:])
            replies.append(h.w.log[-1][4])
        c.count("resume_points", points)
        return h, replies

    import hashlib
    import json
    import os

    def one(mode):
        h, rep = play(mode)
        t = dev.check_consensus(c, s, h.blob(), cfg)
        dev.check_recipients(c, s, t)
        with open(path + mode, "w") as f:
            json.dump([x.hex() for x in rep], f)

    import tempfile

    with tempfile.TemporaryDirectory() as td:
        path = td + "/"
        res = {}
        for mode in ("plain", "fresh", "snapshot-redo"):
            if not c.fork(one, mode, timeout=100):
                return
            res[mode] = json.load(open(path + mode))
    n = len(res["plain"])
    for mode in ("fresh", "snapshot-redo"):
        c.eq(len(res[mode]), n, "number of replies")
        for i in range(n):
            c.eq(res[mode][i], res["plain"][i], "reply of a resumed session differs from the uninterrupted one", mode=mode, step=i)
            c.count("replies_compared")
    c.distinct("resume", gen.shape_key(s), cfg, tuple(grouping or ()))


def fam_interleave(c):
    rng = c.rng
    n = rng.choice([2, 2, 3])
    jobs = []
    for i in range(n):
        s = gen.scenario(rng, n_in=rng.choice([1, 2]), n_out=rng.choice([2, 2, 3, 4]), ring=2, cheap=True)
        cfg = dev.CFGS[rng.randrange(3)]
        d = dev.device(s.w)
        wire = dev.Wire(d)
        wire.pause = True
        a = dev.agent(wire, cfg)
        jobs.append(dict(kind="sign", s=s, cfg=cfg, co=dev.sign_coro(s, a), wire=wire, bad=False))
    # one that fails on the way
    s = gen.scenario(rng, n_in=1, n_out=2, ring=2, cheap=True)
    wire = dev.Wire(dev.device(s.w))
    wire.pause = True
    at = rng.randrange(1, 8)

    def on(name, a, k, w=wire):
        if w.n > at:
            raise RuntimeError("display gone")

    wire.dev.iface.on = on
    jobs.append(dict(kind="sign", s=s, cfg=(1, 10), co=dev.sign_coro(s, dev.agent(wire)), wire=wire, bad=True))
    # key image exports, one of them on the device of a signing wallet's twin
    for w in (gen.W(rng), jobs[0]["s"].w):
        k = kis.KI(c, w, rng.choice([2, 11]))
        wire = dev.Wire(dev.device(w))
        wire.pause = True
        a = dev.agent(wire)
        jobs.append(dict(kind="ki", k=k, co=a.import_outputs(k.transfers()), wire=wire, bad=False))
    live = list(range(len(jobs)))
    order = []
    style = rng.randrange(3)
    while live:
        if style == 0:
            j = rng.choice(live)
        elif style == 1:
            j = live[len(order) % len(live)]
        else:
            j = order[-1] if order and order[-1] in live and rng.random() < 0.8 else rng.choice(live)
        order.append(j)
        job = jobs[j]
        try:
            job["co"].send(None)
        except StopIteration as e:
            job["res"] = e.value
            live.remove(j)
        except Exception as e:
            live.remove(j)
            job["err"] = e
    c.count("schedule_steps", len(order))
    c.distinct("schedule", tuple(order))
    for j, job in enumerate(jobs):
        if job["bad"]:
            c.ok("err" in job, "failing session reported success")
            continue
        c.ok("err" not in job, "interleaved session failed: %r" % (str(job.get("err"))[-300:],), kind=job["kind"])
        if job["kind"] == "sign":
            t = dev.check_consensus(c, job["s"], job["res"], job["cfg"])
            dev.check_recipients(c, job["s"], t)
        else:
            job["k"].check(c, [(bytes(ki), bytes(x[0]), bytes(x[1])[:32]) for ki, x in job["res"]])
        c.count("interleaved_sessions_checked")


FAMILIES = {
    "sign": dict(fn=fam_sign, quick={"tcry": 8}, thorough={"tcry": 60}, backends=("tcry",), weight=10),
    "ki": dict(fn=fam_ki, quick={"tcry": 8}, thorough={"tcry": 60}, backends=("tcry",), weight=3),
    "agent": dict(fn=fam_agent, quick={"tcry": 4}, thorough={"tcry": 40}, backends=("tcry",), weight=6),
    "resume": dict(fn=fam_resume, quick={"tcry": 10}, thorough={"tcry": 80}, backends=("tcry",), weight=4),
    "interleave": dict(fn=fam_interleave, quick={"tcry": 8}, thorough={"tcry": 80}, backends=("tcry",), weight=4),
}
