"""Nothing is signed without the user approving exactly that transaction."""

from .. import dev, gen, host, kis
from ..harness import run
from ..ref import cn

RULE = (
    "sessions of the real device whose recording interface stores the serialized data it was asked to confirm and every later event; the shown "
    "outputs, amounts, payment id, fee, lock time and change are compared with what reference wallets find in the signed transaction; "
    "with every kind of refusal (False, None, 0, empty, exception) all further messages of the session, and those of a parallel approved "
    "session, must be refused. distinct = (answer kind, session shape, what was sent after the refusal)"
)
ASSUMPTIONS = ["independent reference implementation in mon/ref"]


def shown(d):
    name, a, k = d.iface.log[0]
    return dev.pb_load(a[0], a[1])


def addr(d):
    return bytes(d.addr.spend_public_key), bytes(d.addr.view_public_key)


def check_shown(c, s, tsx, t):
    """what was shown == what is in the transaction"""
    c.eq([(d.amount, addr(d), bool(d.is_subaddress)) for d in tsx.outputs],
         [(d.amount, (d.spend, d.view), d.is_sub) for d in s.outs], "outputs shown")
    c.eq(tsx.fee, t.fee, "fee shown")
    c.eq(tsx.unlock_time or 0, t.unlock_time, "lock time shown")
    c.eq(tsx.num_inputs, len(t.vin), "number of inputs shown")
    c.eq(bytes(tsx.payment_id or b""), s.pid, "payment id shown")
    if s.change_dst is None:
        c.ok(tsx.change_dts is None, "change shown though there is none")
    else:
        c.eq((tsx.change_dts.amount, addr(tsx.change_dts)), (s.change_dst.amount, (s.change_dst.spend, s.change_dst.view)), "change shown")
    dev.check_recipients(c, s, t)


def f_shown(c):
    s = gen.scenario(c.rng, n_in=c.rng.choice([1, 1, 2]), ring=2, pid=[None, gen.rb(c.rng, 8), gen.rb(c.rng, 32)][c.idx % 3],
                     n_out=c.rng.choice([2, 2, 3, 4]))
    cfg = dev.pick_cfg(c.rng, len(s.outs))
    d = dev.device(s.w)
    order = []
    d.iface.on = lambda name, a, k: order.append(name)
    agent = c.idx % 2
    if agent:
        wire = dev.Wire(d)
        wire.res_hook = lambda i, m, q, r: (order.append("reply:" + r.__class__.__name__), r)[1]
        r = dev.sign(s, cfg, dev=d, wire=wire)
        blob = r.blob
    else:
        blob = host.RawHost(s, cfg, d).go().blob()
    t = dev.rtx.parse(blob)
    c.eq(order[0], "confirm_transaction", "first thing the device does is not asking the user")
    c.eq(order.count("confirm_transaction"), 1, "number of confirmations of one session")
    c.eq((order.count("transaction_signed"), order.count("transaction_finished")), (1, 1), "completion reported to the user")
    check_shown(c, s, shown(d), t)
    c.count("approved_and_compared")
    c.distinct("shown", gen.shape_key(s), cfg, agent)
    c.sample(dict(case=gen.describe(s), cfg=cfg, events=order[:6]))


ANSWERS = [False, None, 0, "", RuntimeError("prompt broke"), ValueError("x"), KeyError("y")]


def f_reject(c):
    ans = ANSWERS[c.idx % len(ANSWERS)]
    mode = (c.idx // len(ANSWERS)) % 4
    n_out = [2, 3, 2, 3][c.rng.randrange(4)]
    s = gen.scenario(c.rng, n_in=c.rng.choice([1, 2]), ring=2, n_out=n_out, change=True)
    cfg = dev.pick_cfg(c.rng, n_out)
    # an approved session of the same transaction on a second device of the same wallet
    ok = host.RawHost(s, cfg).go()
    msgs = [(m, dev.pb_load(raw, cls)) for m, cls, raw, _, _ in ok.w.log]
    d = dev.device(s.w)
    before = 0
    if mode == 1:
        # a session in progress is replaced by one the user rejects
        h0 = host.RawHost(s, cfg, d)
        p = h0.plan()
        before = 1 + c.rng.randrange(len(p) - 2)
        h0.go(p[:before])
    elif mode == 2:
        host.RawHost(s, cfg, d).go()
    d.iface.log.clear()
    d.iface.answer = ans
    h = host.RawHost(s, cfg, d)
    c.ok(not h.step(("init",)), "device went on although the user rejected (%r)" % (ans,))
    c.eq(d.iface.log[0][0], "confirm_transaction", "user was not asked")
    d.iface.answer = True
    n = len(d.iface.log)
    sent = 0
    if mode == 3:
        rest = msgs[1:]
        c.rng.shuffle(rest)
    elif mode == 1:
        rest = [("tsx_sign", h0.build(x)) for x in p[before:] if _buildable(h0, x)] + msgs[1:]
    else:
        rest = msgs[1:]
    for m, msg in rest:
        r = run(h.w.exchange(m, msg))
        c.ok(dev.is_failure(r), "step accepted after the user rejected", msg=msg.__class__.__name__, answer=repr(ans), mode=mode)
        sent += 1
    c.ok(not any(e[0] in ("transaction_signed", "transaction_finished") for e in d.iface.log), "completion reported after rejection")
    # nothing but refusals crossed the wire, and a new approved session works
    c.ok(all(x[3].__name__ == "Failure" for x in h.w.log), "something else than a refusal was returned")
    s2 = s if c.rng.random() < 0.5 else gen.scenario(c.rng, n_in=1, ring=2, n_out=2, wallet=s.w)
    h2 = host.RawHost(s2, cfg, d)
    try:
        h2.go()
    except host.Refused as e:
        c.fail("approved session after a rejected one is refused: %s" % e)
    c.count("rejected_sessions")
    c.count("messages_after_rejection", sent)
    c.distinct("reject", repr(ans), mode, gen.shape_key(s), cfg)
    c.sample(dict(answer=repr(ans), mode=mode, after=sent, case=gen.describe(s)))


def _buildable(h, st):
    try:
        h.build(st)
        return True
    except Exception:
        return False


def f_unasked(c):
    """a fresh device, or one that finished, takes no transaction message without asking first"""
    s = gen.scenario(c.rng, n_in=1, ring=2, n_out=2)
    cfg = dev.pick_cfg(c.rng, 2)
    ok = host.RawHost(s, cfg).go()
    msgs = [(m, dev.pb_load(raw, cls)) for m, cls, raw, _, _ in ok.w.log]
    d = dev.device(s.w) if c.idx % 2 else ok.dev
    d.iface.log.clear()
    w = dev.Wire(d)
    for m, msg in msgs[1:]:
        r = run(w.exchange(m, msg))
        c.ok(dev.is_failure(r), "message accepted by a device with no approved session", msg=msg.__class__.__name__)
    c.ok(not any(e[0].startswith("confirm") for e in d.iface.log), "unexpected prompt")
    c.distinct("unasked", c.idx % 2, gen.shape_key(s))
    c.count("unasked_messages", len(msgs) - 1)


def f_restart(c):
    """every new opening message asks again"""
    s = gen.scenario(c.rng, n_in=1, ring=2, n_out=2)
    d = dev.device(s.w)
    k = c.rng.randrange(2, 5)
    for i in range(k):
        h = host.RawHost(s, (1, 10), d)
        h.go(h.plan()[: 1 + c.rng.randrange(5)])
    c.eq(sum(e[0] == "confirm_transaction" for e in d.iface.log), k, "confirmations for %d openings" % k)
    c.distinct("restart", k, gen.shape_key(s))


def f_ki(c):
    """key image export: asked first, with the announced number and hash; nothing after a rejection"""
    w = gen.W(c.rng)
    n = c.rng.choice([0, 1, 2, 3, 5])
    k = kis.KI(c, w, n)
    d = dev.device(w)
    order = []
    d.iface.on = lambda name, a, kk: order.append(name)
    if c.idx % 3 == 0:
        res = k.go(d)
        c.eq(order[0], "confirm_ki_sync", "first thing the device does is not asking the user")
        c.eq(order.count("confirm_ki_sync"), 1, "confirmations")
        q = dev.pb_load(d.iface.log[0][1][0], d.iface.log[0][1][1])
        c.eq((q.num or 0, bytes(q.hash)), (n, k.hash()), "announcement shown to the user")
        k.check(c, res)
        c.distinct("ki-shown", n)
        c.count("ki_approved")
        return
    ans = ANSWERS[c.idx % len(ANSWERS)]
    if c.rng.random() < 0.4 and n:
        # a running export is replaced by a rejected one
        d0 = kis.Session(d)
        d0.init(k.init_msg())
        if c.rng.random() < 0.5:
            d0.step(k.tds[:1])
    d.iface.answer = ans
    s = kis.Session(d)
    c.ok(dev.is_failure(s.init(k.init_msg())), "export opened although the user rejected", answer=repr(ans))
    d.iface.answer = True
    for chunk in k.chunks():
        c.ok(dev.is_failure(s.step(chunk)), "key image released after the user rejected", answer=repr(ans))
    c.ok(dev.is_failure(s.final()), "decryption key released after the user rejected", answer=repr(ans), n=n)
    c.count("ki_rejected")
    c.distinct("ki-reject", n, repr(ans))
    c.sample(dict(answer=repr(ans), outputs=n))
    # a new export works
    k.check(c, k.go(d))


FAMILIES = {
    "shown": dict(fn=f_shown, quick={"tcry": 30, "py": 2}, thorough={"tcry": 600, "py": 30}, weight=4),
    "reject": dict(fn=f_reject, quick=42, thorough=600, backends=("tcry",), weight=5),
    "unasked": dict(fn=f_unasked, quick=6, thorough=60, backends=("tcry",), weight=2),
    "restart": dict(fn=f_restart, quick=4, thorough=40, backends=("tcry",), weight=2),
    "ki": dict(fn=f_ki, quick={"tcry": 30, "py": 9}, thorough={"tcry": 400, "py": 60}, weight=2),
}
