"""A device on its own link is spoken to exactly as the emulated one."""

import contextlib
import io
import os
import re
import subprocess
import sys

from .. import cli, dev, gen, kis, refdev
from ..harness import run
from ..ref import cn, ed
from ..ref import tx as rtx
from ..ref.ed import L
from ..udptrezor import UdpTrezor

RULE = (
    "whole signing sessions, key-image exports, watch-only keys, live refreshes, key recoveries, addresses and pings of the real agent over the hardware client (its transport, framing and message conversion) against a device process "
    "speaking the packet protocol of the hardware: every message the agent built and every one the device received are compared field by field, likewise the answers, and the results are judged as for the emulated device; failures at "
    "every step, confirmation prompts in between, use after a failure and after reconnecting; the address program run as such. distinct = (operation, messages, situation)"
)
ASSUMPTIONS = [
    "the USB library of the vendor is used as installed; the device is reached over its UDP link",
    "on a failure the client may raise or return the Failure message; the agent must not produce a result",
]


H = 1 << 31  # hardened step of a path


class Rec:
    """the hardware client with the messages at its upper side written down"""

    def __init__(self, t):
        self.t = t
        self.log = []

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        f = getattr(self.t, name)

        async def call(msg, *a, **k):
            raw = dev.pb_dump(msg)
            with quiet():
                res = await f(msg, *a, **k)
            self.log.append((name, type(msg).__name__, raw, type(res).__name__, dev.pb_dump(res), res))
            return res

        return call


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def client(u):
    from monero_glue.trezor import manager

    return manager.Trezor(u.path)


def tree(m):
    """value of a message, an absent list and an empty one being the same"""
    from monero_glue import protobuf as p

    if isinstance(m, p.MessageType):
        d = {}
        for f in m.get_fields().values():
            v = tree(getattr(m, f[0], None))
            if v not in (None, []):
                d[f[0]] = v
        return (type(m).__name__, d)
    if isinstance(m, (list, tuple)):
        return [tree(x) for x in m]
    if isinstance(m, (bytes, bytearray, memoryview)):
        return bytes(m)
    return m


def compare(c, rec, u, base=0):
    """what the agent built is what arrived, what the device answered is what the agent got"""
    from monero_glue import messages as M

    c.ok(u.failed is None, "the device was sent something that is no message: %r" % (u.failed,))
    c.eq([x[1] for x in rec.log], [x[0].__name__ for x in u.log[base:]][: len(rec.log)], "messages that arrived")
    for (name, q, raw, r, rraw, res), (dq, draw, dr, drraw) in zip(rec.log, u.log[base:]):
        c.eq(tree(dev.pb_load(draw, dq)), tree(dev.pb_load(raw, getattr(M, q))), "message changed on its way to the device", kind=q)
        c.eq(r, dr.__name__, "kind of the answer", kind=q)
        c.eq(tree(dev.pb_load(rraw, getattr(M, r))), tree(dev.pb_load(drraw, dr)), "answer changed on its way to the host", kind=r)
        c.eq(tree(res), tree(dev.pb_load(drraw, dr)), "answer as the host sees it", kind=r)
        c.count("messages")
        c.distinct("msg", q, r, len(draw) // 64, len(drraw) // 64)
    c.count("packets", sum((len(a[1]) + 8) // 63 + 1 + (len(a[3]) + 8) // 63 + 1 for a in u.log[base:]))


def links():
    """connections this process holds"""
    n = 0
    for f in os.listdir("/proc/self/fd"):
        try:
            n += os.readlink("/proc/self/fd/" + f).startswith("socket:")
        except OSError:
            pass
    return n


def ready(u, t, what):
    def go():
        with quiet():
            return run(t.ping(what))

    return go()


def scen(c, **k):
    rng = c.rng
    return gen.scenario(rng, n_in=k.get("n_in") or rng.choice([1, 1, 2, 3]), n_out=k.get("n_out") or rng.choice([2, 2, 3, 4]), ring=k.get("ring") or rng.choice([2, 3, 11]))


def signed(c, s, a, rec, cfg):
    a.client_version, a.hf = cfg
    blob = run(dev.sign_coro(s, a))
    t = dev.check_consensus(c, s, blob, cfg) or rtx.parse(blob)
    dev.check_recipients(c, s, t)
    c.count("signed")
    return t


def f_sign(c):
    """family 'sign': signing over the link; prompts in between"""
    rng = c.rng
    n_out = [2, 3, 2, 5][c.idx % 4]
    s = scen(c, n_out=n_out, ring=[11, 3, 2, 2][c.idx % 4])
    cfg = dev.pick_cfg(rng, n_out)
    with UdpTrezor(dev.device(s.w)) as u:
        t = client(u)
        rec = Rec(t)
        prompts = {}

        def before(i, name):
            if rng.random() < 0.25 or i == 0:
                prompts[i] = rng.choice([1, 1, 2, 3])
            return ["button"] * prompts.get(i, 0)

        if rng.random() < 0.6:
            u.before = before
        a = dev.agent(rec, cfg)
        signed(c, s, a, rec, cfg)
        compare(c, rec, u)
        c.eq(len(rec.log), len(u.log), "messages")
        c.eq(u.acks, ["ButtonAck"] * sum(prompts.values()), "prompts acknowledged")
        c.count("prompts", sum(prompts.values()))
        # the same client signs another one
        n = len(u.log)
        rec.log.clear()
        s2 = gen.scenario(rng, wallet=s.w, n_in=1, n_out=2, ring=2)
        a2 = dev.agent(rec, (1, 10))
        signed(c, s2, a2, rec, (1, 10))
        compare(c, rec, u, n)
        c.eq(ready(u, t, "x%d" % c.idx), "x%d" % c.idx, "ping")
        c.distinct("sign", cfg, n_out, len(s.dests), bool(prompts))
        c.sample(dict(messages=len(u.log), outputs=n_out, prompts=sum(prompts.values()), service=u.service[:6]))


def f_other(c):
    """family 'other': everything else the host asks a device for"""
    from monero_glue import messages as M
    from monero_glue.xmr import crypto

    rng = c.rng
    w = gen.W(rng)
    rd = refdev.RefDevice(rng, w)
    said = []

    async def get_address(m):
        said.append(m)
        return M.MoneroAddress(address=b"5addr%d" % (m.account or 0))

    async def entropy(m):
        said.append(m)
        return M.Entropy(entropy=bytes(range(256))[: m.size % 257])

    peer = {
        "MoneroGetTxKeyRequest": rd.get_tx_key,
        "MoneroLiveRefreshStartRequest": rd.live_refresh,
        "MoneroLiveRefreshStepRequest": rd.live_refresh,
        "MoneroLiveRefreshFinalRequest": rd.live_refresh,
        "MoneroGetAddress": get_address,
        "GetEntropy": entropy,
    }
    view = lambda: crypto.decodeint(ed.scenc(w.a))
    with UdpTrezor(dev.device(w), peer) as u:
        t = client(u)
        idle = links()
        rec = Rec(t)
        a = dev.agent(rec)
        # key images
        for n in (rng.choice([1, 2, 9, 10]), rng.choice([11, 12, 20, 21])):
            k = kis.KI(c, w, n)
            k.check(c, [(bytes(x[0]), bytes(x[1][0]), bytes(x[1][1])) for x in run(a.import_outputs(k.transfers()))])
            c.distinct("keyimages", n)
        # watch-only key
        r = run(a.get_watch_only())
        c.eq(bytes(r.watch_key), ed.scenc(w.a), "watch-only key")
        c.ok(ed.scenc(w.b) not in dev.pb_dump(r), "spend key in the answer")
        # live refresh
        run(a.live_refresh_start())
        for _ in range(3):
            o = gen.owned_output(rng, w, None, 5, rng.choice([0, 0, 1, 300]), rng.choice([0, 1, 5, 200]))
            D = next(
                D
                for q in [o.R] + ([o.add_pubs[o.oidx]] if o.add_pubs else [])
                for D in [cn.derivation(q, w.a)]
                if ed.eq(ed.mulb((cn.deriv_scalar(D, o.oidx) + w.sub_secret(o.major, o.minor)) % L), o.P)
            )
            ki = run(a.live_refresh(view(), ed.enc(o.P), ed.enc(D), o.oidx, o.major, o.minor))
            c.eq(bytes(crypto.encodepoint(ki)), o.ki, "key image of a live refresh")
            c.count("refreshes")
        run(a.live_refresh_final())
        # transaction keys
        n = rng.choice([1, 1, 2, 3, 16])
        ks = [gen.rsc(rng) for _ in range(n)]
        ph, s1, s2 = gen.rb(rng, 32), gen.rb(rng, 32), gen.rb(rng, 32)
        sealed = refdev.pack(rng, refdev.device_key(w.b, ph, s1, s2), b"".join(map(ed.scenc, ks)))
        got = run(a.get_tx_key(s1, s2, sealed, ph, view()))
        c.eq([int.from_bytes(bytes(crypto.encodeint(x)), "little") for x in got], ks, "transaction keys")
        V = ed.mulb(gen.rsc(rng))
        got = run(a.get_tx_deriv(s1, s2, sealed, ph, view(), ed.enc(V)))
        c.eq([bytes(crypto.encodepoint(x)) for x in got], [ed.enc(ed.mul(V, x)) for x in ks], "key derivations")
        # address, entropy
        ac, mi = rng.choice([0, 1, 127, 128, 1 << 31]), rng.choice([0, 1, 255, 1 << 20])
        pid = rng.choice([None, gen.rb(rng, 8)])
        r = run(a.get_address(ac, mi, pid, rng.random() < 0.5))
        c.eq(bytes(r.address), b"5addr%d" % ac, "address")
        m = said[-1]
        c.eq((m.account or 0, m.minor or 0, m.payment_id and bytes(m.payment_id)), (ac, mi, pid), "address asked for")
        n = rng.choice([0, 1, 32, 63, 64, 256])
        c.eq(bytes(run(rec.call(M.GetEntropy(size=n))).entropy), bytes(range(256))[:n], "entropy")
        compare(c, rec, u)
        c.eq(len(rec.log), len(u.log), "messages")
        # several calls inside one session of the link
        with quiet(), t.session():
            for _ in range(3):
                r = run(t.call_in_session(M.GetEntropy(size=16)))
                c.eq(bytes(r.entropy), bytes(range(16)), "entropy in a session")
        # messages of the vendor's library pass untouched
        from trezorlib import messages as TM

        with quiet():
            r = run(t.call(TM.GetEntropy(size=5), recode=False))
        c.eq(bytes(r.entropy), bytes(range(5)), "entropy, not converted")
        for x in ("hey", "", "x" * rng.choice([60, 61, 62, 200])):
            c.eq(ready(u, t, x), x or "monero", "ping")
        with quiet():
            t.reconnect()
        c.eq(bytes(run(rec.call(M.GetEntropy(size=7))).entropy), bytes(range(7)), "entropy after reconnecting")
        c.eq(ready(u, t, "again"), "again", "ping")
        c.eq(links(), idle, "connections held after the requests")
        c.count("operations", 12)
        c.distinct("other", n, pid is None)
        c.sample(dict(messages=len(u.log), asked=len(said)))


def f_failure(c):
    """family 'failure': the device refuses, or answers something else, at one step"""
    from monero_glue import messages as M

    rng = c.rng
    s = scen(c, n_in=rng.choice([1, 2]), n_out=2, ring=2)
    # steps of this session
    plain = dev.sign(s, (1, 10))
    names = [x[1].__name__ for x in plain.wire.log]
    steps = list(range(len(names)))
    rng.shuffle(steps)
    d = dev.device(s.w)
    with UdpTrezor(d) as u:
        t = client(u)
        for k in steps[: 4 if c.tier == "quick" else len(steps)]:
            d2 = dev.device(s.w)
            u.dev = d2
            base = u.n
            kind = rng.choice(["failure", "failure", "cancelled", "pin", "dead"])

            def edit(i, name, msg, res):
                if i - base != k:
                    return res
                if kind == "failure":
                    return M.Failure(code=rng.choice([1, 3, 9, 99]), message=rng.choice(["no", "", "x" * 300]))
                if kind == "cancelled":
                    return M.Failure(code=4, message="Cancelled")
                if kind == "pin":
                    return M.Failure(code=7, message="PIN invalid")
                return res

            u.edit = edit
            if kind == "dead":
                d2.tsx_sign = dying(d2.tsx_sign, k)
            rec = Rec(t)
            a = dev.agent(rec, (1, 10))
            n = len(u.log)
            idle = links()
            try:
                with quiet():
                    run(dev.sign_coro(s, a))
            except Exception as e:
                c.distinct("failure", kind, names[k], type(e).__name__)
            else:
                c.fail("a transaction although the device refused", step=names[k], kind=kind)
            c.observed += 1
            c.count("refusals")
            c.ok(u.failed is None, "the device was sent something that is no message: %r" % (u.failed,))
            c.eq(len(u.log) - n, k + 1, "messages sent after the refusal", step=names[k], kind=kind)
            c.eq(links(), idle, "connections held after a refusal", step=names[k], kind=kind)
            # the same client goes on
            u.edit = None
            c.eq(ready(u, t, "after"), "after", "ping after a refusal")
        u.dev = dev.device(s.w)
        if rng.random() < 0.5:
            with quiet():
                t.reconnect()
        rec = Rec(t)
        s2 = gen.scenario(rng, wallet=s.w, n_in=1, n_out=2, ring=2)
        n = len(u.log)
        signed(c, s2, dev.agent(rec, (1, 10)), rec, (1, 10))
        compare(c, rec, u, n)
        c.distinct("after", len(rec.log))
        c.sample(dict(steps=[names[k] for k in steps[:4]], messages=len(u.log)))


def dying(f, k):
    n = [0]

    async def g(msg):
        from monero_glue import messages as M

        n[0] += 1
        if n[0] - 1 == k:
            return M.Failure(code=99, message="Firmware error")
        return await f(msg)

    return g


def f_tool(c):
    """family 'tool': the program that asks a device for its address"""
    from monero_glue import messages as M

    rng = c.rng
    w = gen.W(rng)
    mode = ["good", "refused", "buttons", "other"][c.idx % 4]
    addr = cli.address(*w.addr(), net="main")
    said = []

    async def get_address(m):
        said.append((m.network_type or 0, m.account or 0, m.minor or 0, m.payment_id, list(m.address_n)))
        if mode == "refused":
            return M.Failure(code=4, message="Cancelled")
        if mode == "other":
            return M.Entropy(entropy=bytes(addr))
        return M.MoneroAddress(address=addr)

    with UdpTrezor(dev.device(w), {"MoneroGetAddress": get_address}) as u:
        if mode == "buttons":
            u.before = lambda i, name: ["button"] * 2
        env = dict(os.environ, TREZOR_PATH=u.path if c.idx % 2 else "udp:127.0.0.1:1")
        argv = [] if c.idx % 2 else ["--trezor-path", u.path]
        with cli.scratch() as d:
            r = subprocess.run([sys.executable, "-W", "ignore", "-m", "monero_poc.trezor_address"] + argv, capture_output=True, cwd=d, env=env, timeout=300, stdin=subprocess.DEVNULL)
        c.eq(said, [(0, 0, 0, None, [H | 44, H | 128, H])], "what the device was asked", mode=mode, err=r.stderr[-400:])
        shown = addr in r.stdout
        if mode in ("good", "buttons"):
            c.ok(shown and r.returncode == 0, "address not shown", out=r.stdout, err=r.stderr[-400:], rc=r.returncode)
            other = [x for x in re.findall(rb"[1-9A-HJ-NP-Za-km-z]{90,}", r.stdout) if x != addr]
            c.eq(other, [], "something else shown as well")
        elif mode == "refused":
            c.ok(r.returncode != 0 and not shown, "refusal not reported", out=r.stdout, rc=r.returncode)
        ready(u, client(u), "after the tool")
        c.count("tool_runs")
        c.distinct("tool", mode, len(argv))


FAMILIES = dict(
    sign=dict(fn=f_sign, quick={"tcry": 8, "py": 1}, thorough={"tcry": 100, "py": 6}, backends=("tcry", "py"), weight=3),
    other=dict(fn=f_other, quick={"tcry": 5, "py": 1}, thorough={"tcry": 60, "py": 5}, backends=("tcry", "py"), weight=2),
    failure=dict(fn=f_failure, quick={"tcry": 6}, thorough={"tcry": 60}, backends=("tcry",), weight=3),
    tool=dict(fn=f_tool, quick={"tcry": 4}, thorough={"tcry": 24}, backends=("tcry",), weight=4),
)
