"""The signing protocol accepts only the one legal order of steps."""

import copy

from .. import dev, gen, host, mut
from . import C05

RULE = (
    "one session per case; before every step the process is forked once per message of a different kind than the expected one (messages of the running "
    "session where they can be built, recorded ones of an identical finished session otherwise): it must be refused and every later message too, "
    "until a new session is started, which must complete. Random message sequences are judged by an independent automaton. "
    "distinct = (expected step kind, sent step kind, session shape) and (event kind sequences)"
)
ASSUMPTIONS = ["messages of the expected kind with other content are the subject of C05 and C07"]

STEP = dict(inp=100, perm=200, vini=300, allin=350, out=400, allout=500, sign=700)


def expected_events(h, st):
    n = {"inp": h.n_in, "vini": h.n_in, "out": h.n_out, "sign": h.n_in}.get(st[0])
    if st[0] == "init":
        return [("confirm_transaction",)]
    if st[0] == "bp":
        return []
    if st[0] == "final":
        return [("transaction_finished",)]
    ev = [("transaction_step", STEP[st[0]]) + ((st[1], n) if n is not None else (None, None))]
    if st[0] == "allout":
        ev.append(("transaction_step", 600, None, None))
    if st[0] == "sign" and st[1] == n - 1:
        ev.append(("transaction_signed",))
    return ev


def norm(log):
    return [(e[0],) + (e[1] if e[0] == "transaction_step" else ()) for e in log]


def order_inputs(h, st):
    """a message of the legal kind and position"""
    return h.step(st)


def shape(c, big=False):
    n_in = c.rng.choice([1, 2, 2, 3])
    n_out = c.rng.choice([2, 2, 3, 3, 4])
    s = gen.scenario(c.rng, n_in=n_in, n_out=n_out, ring=2, change=True, cheap=True)
    cfg = dev.CFGS[c.idx % len(dev.CFGS)]
    grouping = None
    if n_out > 2 and c.rng.random() < 0.5:
        grouping = c.rng.choice([[2] + [1] * (n_out - 2), [1] * n_out, [n_out]])
        if cfg[0] == 0 and sum(1 for g in grouping if g & (g - 1)):
            grouping = [1] * n_out
    return s, cfg, grouping


def donor(s, cfg, grouping):
    h = host.RawHost(s, cfg, grouping=grouping)
    msgs = {}

    def hook(st):
        def m(msg):
            msgs[st] = copy.deepcopy(msg)
            return msg

        return m

    h.go(None, hook)
    return msgs


def dead(c, h, donors, after):
    """no message of the session is accepted any more"""
    for kind in ("inp", "perm", "vini", "allin", "out", "bp", "allout", "sign", "final"):
        for st, msg in donors.items():
            if st[0] != kind:
                continue
            live = msg
            try:
                live = h.build(st)
            except Exception:
                pass
            r = h.send(live)
            c.ok(dev.is_failure(r), "message accepted although the session was refused", after=after, accepted=st)
            c.count("messages_after_refusal")
            if kind not in ("vini", "out", "sign"):
                break


def wrong(c, h, st, exp, donors, again, tag):
    n = len(h.dev.iface.log)
    msg = None
    if c.rng.random() < 0.85:
        try:
            msg = h.build(st)
            c.count("live_messages")
        except Exception:
            pass
    msg = msg if msg is not None else donors[st]
    r = h.send(msg)
    c.distinct(exp[0], st[0], tag)
    c.count("wrong_messages")
    c.ok(dev.is_failure(r), "out-of-order message accepted", expected=exp, sent=st, tag=tag)
    ev = [e[0] for e in h.dev.iface.log[n:]]
    c.ok("transaction_signed" not in ev and "transaction_finished" not in ev, "success reported for a refused message", events=ev)
    dead(c, h, donors, (exp, st))
    if again:
        h2 = host.RawHost(h.s, h.cfg, h.dev, h.grouping).go()
        t = dev.check_consensus(c, h.s, h2.blob(), h.cfg)
        dev.check_recipients(c, h.s, t)
        c.count("sessions_after_refusal")


def f_order(c):
    s, cfg, grouping = shape(c)
    donors = donor(s, cfg, grouping)
    h = host.RawHost(s, cfg, grouping=grouping)
    plan = h.plan()
    tag = (h.n_in, h.n_out, tuple(h.grouping), cfg)
    for k, exp in enumerate(plan):
        kinds = {}
        for st in plan:
            if st[0] != exp[0] and st[0] != "init":
                kinds.setdefault(st[0], []).append(st)
        again = c.rng.choice(sorted(kinds))
        for kd, sts in kinds.items():
            pick = sts if c.tier != "quick" else {c.rng.choice(sts)}
            for st in pick:
                c.fork(wrong, c, h, st, exp, donors, kd == again and c.rng.random() < 0.35, tag)
        n = len(h.dev.iface.log)
        c.ok(h.step(exp), "legal message refused", step=exp, error=str(getattr(h.last, "message", ""))[-300:])
        c.eq(norm(h.dev.iface.log[n:]), expected_events(h, exp), "progress reported to the user", step=exp)
        c.count("progress_events", len(h.dev.iface.log) - n)
    # the finished session accepts nothing more
    c.fork(dead, c, h, donors, "finished")
    dev.check_consensus(c, s, h.blob(), cfg)
    c.count("complete_sessions")
    c.sample(dict(case=gen.describe(s), cfg=cfg, grouping=h.grouping, plan=plan))


def f_surplus(c):
    """too many inputs, vini, outputs, proofs or signatures, also when the count allows more data"""
    s, cfg, grouping = shape(c)
    h = host.RawHost(s, cfg, grouping=grouping)
    plan = h.plan()
    sent = {}
    for k, exp in enumerate(plan):
        prev = plan[k - 1] if k else None
        # the step before exp was the last of its kind: send each of that kind once more
        if prev and prev[0] != exp[0] and prev[0] != "init":
            again = [st for st in plan[:k] if st[0] == prev[0]]
            if "bp" in (prev[0], exp[0]) and exp[0] == "out":
                again = [prev]
            for st in again:

                def br(st=st):
                    r = h.send(copy.deepcopy(sent[st]))
                    c.count("surplus_messages")
                    c.distinct("surplus", exp[0], st[0], cfg)
                    c.ok(dev.is_failure(r), "surplus message accepted", sent=st, expected=exp)
                    for x in plan[k:]:
                        try:
                            m = h.build(x)
                        except Exception:
                            continue
                        c.ok(dev.is_failure(h.send(m)), "message accepted after a surplus one", sent=x, surplus=st)

                c.fork(br)

        def keep(m, exp=exp):
            sent[exp] = copy.deepcopy(m)
            return m

        c.ok(h.step(exp, keep), "legal message refused", step=exp)
    c.count("complete_sessions")


def f_missing(c):
    """every single step left out"""
    s, cfg, grouping = shape(c)
    h = host.RawHost(s, cfg, grouping=grouping)
    plan = h.plan()
    for k, exp in enumerate(plan):

        def br():
            """skip exp, go on with the rest as far as it can be built"""
            for x in plan[k + 1 :]:
                if x[0] == exp[0] and x[0] == "inp":
                    # inputs have no fixed order: leaving one out only shows at the end
                    pass
                try:
                    m = h.build(x)
                except Exception:
                    continue
                r = h.send(m)
                if dev.is_failure(r):
                    break
                c.count("accepted_after_gap")
                try:
                    h.absorb(x, r, m)
                except Exception:
                    pass
                c.ok(x[0] not in ("allout", "sign", "final"), "session went on without a step", missing=exp, accepted=x)
            c.count("missing_steps")
            c.distinct("missing", exp[0], cfg, tuple(h.grouping))
            for x in plan[k + 1 :]:
                try:
                    m = h.build(x)
                except Exception:
                    continue
                c.ok(dev.is_failure(h.send(m)), "message accepted after a gap was refused", missing=exp, accepted=x)

        def late():
            """a signature left out: nothing further"""
            for x in plan[k + 1 :]:
                r = h.send(h.build(x)) if x[0] != "final" else h.send(h.build(x))
                if x[0] == "final":
                    c.ok(dev.is_failure(r), "session finished without all signatures", missing=exp)

        if exp[0] not in ("sign", "final"):
            if k:
                c.fork(br)
        elif exp[0] == "sign":
            c.fork(late)
        h.go([exp])


def f_perm(c):
    """index lists that are no permutation"""
    n_in = c.rng.choice([1, 2, 2, 3, 4])
    s = gen.scenario(c.rng, n_in=n_in, n_out=2, ring=2, change=True, cheap=True)
    cfg = dev.CFGS[c.idx % 3]
    h = host.RawHost(s, cfg)
    rest = h.upto(("perm",))
    good = list(h.perm)
    cand = [[], good + [n_in], good[:-1], good + good, [0] * n_in if n_in > 1 else [1], [n_in - 1] * (n_in + 1), [x + 1 for x in good], good + [0]]
    if n_in > 1:
        b = list(good)
        b[0] = b[1]
        cand.append(b)
        cand.append([good[0]] * n_in)
        cand.append(good[:-1] + [n_in + 5])
        cand.append([1 << 31] + good[1:])

    def br(p):
        if not h.step(rest[0], lambda m: setattr(m, "perm", list(p)) or m):
            c.count("permutations_refused")
            for x in rest:
                try:
                    m = h.build(x)
                except Exception:
                    continue
                c.ok(dev.is_failure(h.send(m)), "message accepted after a refused permutation", accepted=x)
            return
        c.fail("index list that is no permutation was accepted", perm=p, inputs=n_in)

    for p in cand:
        c.distinct("perm", tuple(p))
        c.fork(br, p)

    h.go(rest)
    dev.check_consensus(c, s, h.blob(), cfg)


def f_random(c):
    """random message sequences against an independent automaton"""
    s, cfg, grouping = shape(c)
    if len(s.sources) > 2:
        s, cfg, grouping = shape(c)
    donors = donor(s, cfg, grouping)
    d = dev.device(s.w)
    n = 40 if c.tier == "quick" else 120
    h = host.RawHost(s, cfg, d, grouping)
    plan = h.plan()
    pos = None  # None: no session
    done = 0
    trace = []
    for _ in range(n):
        k = c.rng.random()
        if pos is None or k < 0.03:
            st = ("init",) if c.rng.random() < 0.8 else c.rng.choice(plan)
        elif pos < len(plan) and k < 0.93:
            st = plan[pos]
        else:
            st = c.rng.choice(plan)
        if st[0] == "init":
            h = host.RawHost(s, cfg, d, grouping)
            ok = h.step(st)
            exp = True
            pos = 1
        else:
            exp = pos is not None and pos < len(plan) and plan[pos] == st
            if pos is not None and pos < len(plan) and plan[pos][0] == st[0] and not exp:
                continue  # same kind, other index: not this monitor's subject
            if exp:
                ok = h.step(st)
                pos += 1
            else:
                try:
                    m = h.build(st)
                except Exception:
                    m = donors[st]
                ok = not dev.is_failure(h.send(m))
                pos = None
            if pos == len(plan):
                dev.check_consensus(c, s, h.blob(), cfg)
                done += 1
                pos = None
        trace.append((st, ok))
        c.count("messages")
        c.eq(ok, exp, "accept/refuse differs from the automaton", step=st, trace=trace[-12:])
    c.count("random_sessions_completed", done)
    c.distinct("random", tuple(x[0][0] + ("+" if x[1] else "-") for x in trace))


FAMILIES = {
    "order": dict(fn=f_order, quick={"tcry": 14, "py": 0}, thorough={"tcry": 200, "py": 4}, weight=5),
    "surplus": dict(fn=f_surplus, quick=9, thorough=150, backends=("tcry",), weight=2),
    "missing": dict(fn=f_missing, quick=12, thorough=200, backends=("tcry",), weight=3),
    "perm": dict(fn=f_perm, quick=12, thorough=200, backends=("tcry",), weight=2),
    "random": dict(fn=f_random, quick=20, thorough=400, backends=("tcry",), weight=3),
}
