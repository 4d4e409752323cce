"""The device emulator behind HTTP gives nothing out that its owner did not see and allow."""

import asyncio
import contextlib
import http.client
import io
import json
import logging
import os
import re
import socket
import sys
import threading
import time
from decimal import Decimal

from .. import cli, dev, gen, kis
from ..harness import Violation
from ..harness import run as hrun
from ..ref import cn, ed
from .C26 import dec as words_dec
from .C26 import master_of, words

RULE = (
    "the real emulator server (eventlet, as started from its command line, and its threaded developer server) driven over loopback HTTP by the real agent while a scripted owner types console commands: transactions, key image "
    "exports and view key requests confirmed, refused, hesitated over, answered at the wrong prompt and raced by further requests; hostile request bodies; accounts created, stored, reopened. Every HTTP response is recorded "
    "and ordered against the owner's answers; what the console showed is parsed and compared with what was signed. distinct = (server, request, answer, situation)"
)
ASSUMPTIONS = [
    "the console is driven at the command level (one command per line); the menu is answered by the text of its options",
    "the address the server listens on, the permissions of the account file and the error status of a malformed request are not judged",
    "an eventlet server answers nothing else while it waits for its owner; requests racing a confirmation are therefore only run against the threaded server",
]
NETS = {"main": [], "test": ["--testnet"], "stage": ["--stagenet"]}


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


def net_type(net):
    from monero_glue.xmr.sub.xmr_net import NetworkTypes as N

    return {"main": N.MAINNET, "test": N.TESTNET, "stage": N.STAGENET}[net]


class Emu:
    """A running emulator. script(x) is executed in the place of the console's command loop."""

    def __init__(self, c, argv, script, threaded=False, sel=None):
        from monero_poc import trezor as pt

        self.c, self.argv, self.script, self.out, self.events = c, argv, script, io.StringIO(), []
        self.lock = threading.Lock()
        self.answer = None  # what the owner picks in a menu: "ok", "no"; or f(x, opts)
        emu = self

        class Srv(pt.TrezorServer):
            def cmdloop(self, *a, **k):
                emu.up()
                script(emu)

            def select(self, opts, prompt="Your choice? "):
                emu.ev("menu", prompt)
                a = emu.answer(emu) if callable(emu.answer) else emu.answer
                emu.ev("answer", a)
                pick = [v for v, t in opts if t.lower().startswith("confirm")]
                other = [v for v, t in opts if not t.lower().startswith("confirm")]
                return (pick if a == "ok" else other)[0]

        self.cls, self.threaded, self.err = Srv, threaded, None

    def ev(self, *e):
        with self.lock:
            self.events.append(e)

    def run(self):
        from flask import request

        lg, oa, oo = logging.root.manager.disable, sys.argv, sys.stdout
        logging.disable(logging.CRITICAL)
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        sys.argv = ["trezor"] + self.argv
        try:
            with contextlib.redirect_stdout(self.out), contextlib.redirect_stderr(io.StringIO()):
                self.s = s = self.cls()
                s.stdout = self.out
                s.port = self.port = free_port()
                s.use_werkzeug = self.threaded

                @s.flask.before_request
                def before():
                    self.ev("request", request.path, request.get_data())

                @s.flask.after_request
                def after(r):
                    self.ev("response", request.path, r.status_code, r.get_data())
                    return r

                loop.run_until_complete(s.main())
        finally:
            logging.disable(lg)
            sys.argv = oa
            loop.close()
            asyncio.set_event_loop(None)

    def up(self):
        t = time.time()
        while time.time() - t < 60:
            try:
                socket.create_connection(("127.0.0.1", self.port), 5).close()
                return
            except OSError:
                time.sleep(0.05)
        raise RuntimeError("server did not come up")

    # -- the owner ------------------------------------------------------------
    def waits(self, flag, who=None, timeout=60):
        """until the console announces a request; False when the client is answered without one"""
        t = time.time()
        while time.time() - t < timeout:
            if flag in self.s.prompt:
                return True
            if who is not None and who.done():
                return False
            time.sleep(0.005)
        raise RuntimeError("no prompt")

    def cmd(self, line):
        """what the command printed"""
        at = self.out.tell()
        self.s.onecmd(line)
        self.out.seek(at)
        r = self.out.read()
        return r

    def responses(self, path=None):
        with self.lock:
            return [e for e in self.events if e[0] == "response" and (path is None or e[1].endswith(path))]

    # -- the client -----------------------------------------------------------
    def proxy(self):
        from monero_poc.utils.trezor_server_proxy import TokenProxy

        return TokenProxy("http://127.0.0.1:%d" % self.port)

    def http(self, method, path, body=None, ctype="application/json"):
        h = http.client.HTTPConnection("127.0.0.1", self.port, timeout=60)
        h.request(method, path, body, {"Content-Type": ctype} if body is not None else {})
        r = h.getresponse()
        b = r.read()
        h.close()
        return r.status, b


class Client:
    """a client call in a thread of its own"""

    def __init__(self, fn):
        self.res = self.err = None

        def go():
            try:
                self.res = fn()
            except BaseException as e:
                self.err = e

        self.t = threading.Thread(target=go, daemon=True)
        self.t.start()

    def done(self):
        return not self.t.is_alive()

    def join(self, timeout=60):
        self.t.join(timeout)
        if self.t.is_alive():
            raise Violation("request is never answered")
        return self


FLAG = {"tx": ("T?", "T"), "ki": ("K?", "K"), "watch": ("W?", "W")}
PATH = {"tx": "tx_sign", "ki": "ki_sync", "watch": "watch_only"}


def atoms(t):
    """amounts written in a text, in atomic units"""
    return [Decimal(m) * 10**12 for m in re.findall(r"(?<![\w.])\d+(?:\.\d+)?(?:[eE][+-]?\d+)?(?![\w.])", t)]


def check_shown(c, x, s, txt, net):
    """the console shows what the transaction does"""
    lines = txt.split("\n")
    by = {}
    for ln in lines:
        a = re.findall(r"[1-9A-HJ-NP-Za-km-z]{90,110}", ln)
        if a:
            c.eq(len(a), 1, "addresses in a line of the confirmation", line=ln)
            by.setdefault(a[0], []).append(ln)
    c.eq(sum(map(len, by.values())), len(s.outs), "number of outputs shown to the owner", text=txt)
    chg = cli.address(s.change_dst.spend, s.change_dst.view, sub=s.change_dst.is_sub, net=net).decode() if s.change_dst else None
    want = {}
    for d in s.outs:
        names = [cli.address(d.spend, d.view, sub=d.is_sub, net=net).decode()]
        if d.kind == "int":
            names.append(cli.address(d.spend, d.view, pid=d.pid, net=net).decode())
        want.setdefault(next((n for n in names if n in by), names[0]), []).append(d.amount)
    for a, am in want.items():
        c.ok(a in by, "an output is not shown to the owner", address=a, text=txt)
        # every output has a line of its own (a line also contains the number of the output)
        fits = [[j for j, ln in enumerate(by[a]) if v in atoms(ln.replace(a, ""))] for v in am]
        at = {}

        def place(i, seen):
            for j in fits[i]:
                if j not in seen:
                    seen.add(j)
                    if j not in at or place(at[j], seen):
                        at[j] = i
                        return True
            return False

        for i, v in enumerate(am):
            c.ok(place(i, set()), "amount of an output is not shown exactly", amount=v, lines=by[a])
        if a != chg:
            for ln in by[a]:
                c.ok("change" not in ln.lower(), "output to somebody else is shown as change", line=ln)
    fee = [ln for ln in lines if "fee" in ln.lower()]
    c.ok(any(s.fee in atoms(ln) for ln in fee), "fee is not shown exactly", fee=s.fee, lines=fee)
    ul = [ln for ln in lines if "unlock" in ln.lower()]
    c.ok(any(str(s.unlock) in re.findall(r"\d+", ln) for ln in ul), "unlock time is not shown", unlock=s.unlock, lines=ul)
    pl = [ln for ln in lines if "payment id" in ln.lower()]
    if s.pid:
        c.ok(any(s.pid.hex() in ln for ln in pl), "payment id is not shown", pid=s.pid, lines=pl)
    else:
        c.ok(not any(re.search(r"[0-9a-f]{16}", ln) for ln in pl), "payment id shown for a transaction without one", lines=pl)
    c.count("outputs_shown", len(s.outs))


def no_leak(c, x, w, allowed):
    """no response carries a secret; the view key only in as many watch-only answers as the owner allowed"""
    a, b = ed.scenc(w.a).hex().encode(), ed.scenc(w.b).hex().encode()
    n = 0
    for _, path, st, body in x.responses():
        low = body.lower()
        c.ok(b not in low and ed.scenc(w.b) not in body, "a response carries the spend key", path=path)
        if a in low or ed.scenc(w.a) in body:
            c.ok(path.endswith("watch_only"), "the view key left by another way than the view key request", path=path)
            n += 1
    c.eq(n, allowed, "view key was sent another number of times than the owner allowed")


def start(c, x, w, kind, net, ans=None, same=None):
    """a client asking for something; returns (client, judge(ok, client, text)). same: what an earlier client asked"""
    rng = c.rng
    nt = net_type(net)
    p = x.proxy()
    if kind == "tx":
        # a refused transaction costs nothing to be long
        n_out = rng.choice([2, 9, 15, 16]) if ans == "no" else rng.choice([2, 2, 3])
        s = same or gen.scenario(rng, n_in=rng.choice([1, 2]), n_out=n_out, ring=rng.choice([2, 3]), wallet=w)
        c.distinct("outputs", len(s.outs))
        a = dev.agent(p, net=nt)
        cl = Client(lambda: hrun(dev.sign_coro(s, a)))

        def judge(ok, txt):
            if txt is not None:
                check_shown(c, x, s, txt, net)
            if ok:
                c.ok(cl.err is None, "confirmed transaction was not signed", error=repr(cl.err))
                t = dev.check_consensus(c, s, cl.res, (1, 10))
                dev.check_recipients(c, s, t)
                c.count("transactions")
            else:
                c.ok(cl.err is not None, "transaction was signed though the owner did not agree")

        judge.asked = s
    elif kind == "ki":
        from monero_glue.agent import agent_lite

        k = same or kis.KI(c, w, rng.choice([1, 1, 3, 12]))
        a = agent_lite.Agent(p, network_type=nt)
        cl = Client(lambda: hrun(a.import_outputs(k.transfers())))

        def judge(ok, txt):
            if txt is not None:
                c.ok(str(len(k.outs)) in re.findall(r"\d+", txt), "number of outputs is not shown", text=txt)
            if ok:
                c.ok(cl.err is None, "confirmed key image export failed", error=repr(cl.err))
                k.check(c, [(bytes(r[0]), bytes(r[1][0]), bytes(r[1][1])) for r in cl.res])
            else:
                c.ok(cl.err is not None, "key images were exported though the owner did not agree")

        judge.asked = k
    else:
        from monero_glue.agent import agent_lite

        a = agent_lite.Agent(p, network_type=nt)
        cl = Client(lambda: hrun(a.get_watch_only()))

        def judge(ok, txt):
            if ok:
                c.ok(cl.err is None, "confirmed view key request failed", error=repr(cl.err))
                r = cl.res
                c.eq(bytes(r.watch_key), ed.scenc(w.a), "view key handed out")
                c.eq(bytes(r.address), cli.address(*w.addr(), net=net), "address handed out")
            else:
                c.ok(cl.err is not None, "view key was given though the owner did not agree")
                st = [e[2] for e in x.responses("watch_only")][-1]
                c.ok(400 <= st < 500, "refused view key request is not answered with a refusal", status=st)

        judge.asked = None

    return cl, judge


def keys_argv(w):
    return ["--view-key", ed.scenc(w.a).hex(), "--spend-key", ed.scenc(w.b).hex(), "--account-file", "acc.json"]


def fam_session(c):
    """one request after another against the server as it is started from the command line"""
    rng = c.rng
    w = gen.W(rng)
    net = rng.choice(["test", "test", "main", "stage"])
    n = 3 if c.tier == "quick" else 7
    plan = [(rng.choice(["tx", "tx", "tx", "ki", "watch"]), rng.choice(["ok", "ok", "no"]), rng.choice(["plain", "plain", "wrong", "before", "hesitate"])) for _ in range(n)]
    # the same request again: what the owner said the first time counts for nothing
    j = rng.randrange(n)
    first = (rng.choice(["tx", "tx", "tx", "ki", "watch"]), rng.choice(["ok", "ok", "ok", "no"]), "plain")
    plan[j:j] = [first, (first[0], "no" if first[1] == "ok" else "ok", "again")]
    if rng.random() < 0.3:
        plan.insert(j + 1, (rng.choice(["tx", "ki", "watch"]), "no", "between"))
    allowed = [0]
    said = {}

    def script(x):
        for kind, ans, how in plan:
            flag, key = FLAG[kind]
            if how == "before":
                # confirmations typed when nobody asks must not be remembered
                x.answer = "ok"
                m = len([e for e in x.events if e[0] == "menu"])
                for k in "TKWtkw":
                    x.cmd(k)
                x.cmd("KK")
                c.eq(len([e for e in x.events if e[0] == "menu"]), m, "the owner is asked to confirm though nothing waits")
            r0 = len(x.responses(PATH[kind]))
            cl, judge = start(c, x, w, kind, net, ans, said.get(kind) if how == "again" else None)
            if how != "between":
                said[kind] = judge.asked
            asked = x.waits(flag, cl)
            c.ok(asked, "request was answered without asking the owner", kind=kind, error=repr(cl.err))
            if how == "hesitate":
                time.sleep(rng.choice([0.1, 0.5]))
            if how == "wrong":
                x.answer = "ok"
                for k in [k for k in "TKW" if k != key] + ["KK"]:
                    x.cmd(k)
                time.sleep(0.2)
                c.ok(flag in x.s.prompt, "request no longer waits after an answer to another question")
            c.eq(len(x.responses(PATH[kind])), r0, "answered before the owner did", kind=kind)
            c.ok(not cl.done(), "client was answered before the owner did", kind=kind)
            x.answer = ans
            txt = x.cmd(rng.choice([key, key.lower()]))
            cl.join()
            judge(ans == "ok", txt)
            if kind == "watch" and ans == "ok":
                allowed[0] += 1
            if ans == "no":
                c.eq(len(x.responses(PATH[kind])), r0 + 1, "conversation went on after the owner refused", kind=kind)
            c.ok(flag not in x.s.prompt, "request still announced after it was answered")
            c.distinct("session", kind, ans, how, net)
            c.count("%s:%s" % (kind, ans))
        no_leak(c, x, w, allowed[0])

    with cli.scratch():
        Emu(c, NETS[net] + keys_argv(w), script).run()


def fam_race(c):
    """further requests while the owner decides (threaded server)"""
    rng = c.rng
    w = gen.W(rng)
    net = "test"
    allowed = [0]
    kinds = rng.choice([["tx", "tx"], ["tx", "tx"], ["ki", "ki"], ["watch", "watch"], ["tx", "ki", "watch"], ["ki", "tx"], ["watch", "tx"]])
    when = rng.choice(["menu", "menu", "waiting"])
    ans = rng.choice(["ok", "ok", "no"])

    def script(x):
        first = kinds[0]
        cl, judge = start(c, x, w, first, net)
        c.ok(x.waits(FLAG[first][0], cl), "request was answered without asking the owner", kind=first)
        others = []

        def more():
            for k in kinds[1:]:
                n = len([e for e in x.events if e[0] == "request"])
                o, j = start(c, x, w, k, net)
                others.append((k, o, j))
                # the request has arrived and is answered or announced
                t = time.time()
                while time.time() - t < 30 and len([e for e in x.events if e[0] == "request"]) == n:
                    time.sleep(0.005)
                time.sleep(0.3)

        if when == "waiting":
            more()
            shown = x
        x.answer = ans if when == "waiting" else (lambda _: (more(), ans)[1])
        txt = x.cmd(FLAG[first][1])
        cl.t.join(20)
        # whoever was given a signature or key must be the one whose request was on the screen
        same = [(k, o, j) for k, o, j in others if k == first]
        got = [cl] + [o for _, o, _ in same]
        if first == "tx":
            done = [g for g in got if g.done() and g.err is None]
            c.ok(len(done) <= (ans == "ok"), "more transactions signed than confirmed", n=len(done), answer=ans)
            if when == "menu":
                c.ok(all(g is cl for g in done), "the owner confirmed one transaction and another one was signed")
            if cl.done():
                judge(ans == "ok", txt if when == "menu" else None)
        elif first == "ki":
            done = [g for g in got if g.done() and g.err is None]
            c.ok(len(done) <= (ans == "ok"), "more key image exports than confirmed", n=len(done), answer=ans)
            if when == "menu":
                c.ok(all(g is cl for g in done), "the owner confirmed one export and another one was made")
        else:
            done = [g for g in got if g.done() and g.err is None]
            c.ok(len(done) <= (ans == "ok"), "view key given more often than confirmed", n=len(done), answer=ans)
            allowed[0] += len(done)
        # the requests of the other kinds still wait for their own answers
        for k, o, j in others:
            if k != first:
                c.ok(not o.done(), "request answered by the confirmation of another one", kind=k, of=first)
                x.answer = "no"
                x.waits(FLAG[k][0], o)
                x.cmd(FLAG[k][1])
                o.join()
                c.ok(o.err is not None, "refused request was granted", kind=k)
        for k, o, j in same:
            if not o.done() and FLAG[k][0] in x.s.prompt:
                x.answer = "no"
                x.cmd(FLAG[k][1])
                o.t.join(20)
            c.ok(o.done(), "request is never answered", kind=k)
        c.ok(cl.done(), "request is never answered", kind=first)
        no_leak(c, x, w, allowed[0])
        # and the server serves on
        cl, judge = start(c, x, w, "tx", net)
        c.ok(x.waits("T?", cl), "request was answered without asking the owner", error=repr(cl.err))
        x.answer = "ok"
        txt = x.cmd("T")
        cl.join()
        judge(True, txt)
        c.distinct("race", tuple(kinds), when, ans)
        c.count("races")

    with cli.scratch():
        Emu(c, NETS[net] + keys_argv(w), script, threaded=True).run()


def bodies(rng, good):
    """hostile request bodies derived from a good one"""
    j = json.loads(good)
    r = rng.randrange(11)
    if r == 0:
        return gen.rb(rng, rng.randrange(0, 60))
    if r == 1:
        return good[: rng.randrange(len(good))]
    if r == 2:
        j["payload"]["msg_type"] = rng.choice([0, -1, 1 << 40, "x", None, 542, 17])
    elif r == 3:
        j["payload"]["msg"] = rng.choice(["zz", "0", "", "ff" * 30, None, 7])
    elif r == 4:
        j["payload"] = rng.choice([None, [], "x", {}, 3])
    elif r == 5:
        del j["payload"]
    elif r == 6:
        j = rng.choice([None, [], 3, "payload", [["payload"]]])
    elif r == 7:
        m = bytearray(bytes.fromhex(j["payload"]["msg"])) or bytearray(1)
        for _ in range(3):
            m[rng.randrange(len(m))] = rng.randrange(256)
        j["payload"]["msg"] = bytes(m).hex()
    elif r == 8:
        # pickled data, as an older protocol carried
        j["payload"] = "80049520000000000000008c05706f736978948c0673797374656d9493948c05746f75636894859452942e"
    elif r == 9:
        return b"\xff\xfe" + good
    else:
        j["payload"]["msg"] = j["payload"]["msg"][: 2 * rng.randrange(1 + len(j["payload"]["msg"]) // 2)]
    return json.dumps(j).encode()


def fam_hostile(c):
    """malformed and unexpected requests: refused, nothing leaks, the server serves on"""
    rng = c.rng
    w = gen.W(rng)
    net = "test"

    def script(x):
        # a good message, recorded from an honest client
        cl, judge = start(c, x, w, "tx", net)
        c.ok(x.waits("T?", cl), "request was answered without asking the owner", error=repr(cl.err))
        x.answer = "ok"
        txt = x.cmd("T")
        cl.join()
        judge(True, txt)
        reqs = [e[2] for e in x.events if e[0] == "request" and e[1].endswith("tx_sign")]
        later = reqs[1:]
        m0 = len([e for e in x.events if e[0] == "menu"])
        for i in range(40 if c.tier == "quick" else 120):
            base = rng.choice(later)
            path = rng.choice(["tx_sign", "tx_sign", "ki_sync"])
            if rng.random() < 0.25:
                # replay of a step out of its transaction
                b = base
            else:
                b = bodies(rng, base)
            res = Client(lambda: x.http("POST", "/api/v1.0/" + path, b, rng.choice(["application/json"] * 4 + ["text/plain"])))
            t = time.time()
            while not res.done() and time.time() - t < 20 and "T?" not in x.s.prompt and "K?" not in x.s.prompt:
                time.sleep(0.002)
            if not res.done() and ("T?" in x.s.prompt or "K?" in x.s.prompt):
                x.answer = "no"
                x.cmd("T" if "T?" in x.s.prompt else "K")
                c.count("asked")
            res.join()
            c.ok(res.err is None, "server dropped the connection", error=repr(res.err), body=b)
            st, body = res.res
            c.count("status:%d" % st)
            if st == 200:
                js = json.loads(body)
                if js.get("result"):
                    c.eq(js["payload"]["msg_type"], 3, "a message out of place is not answered with a failure", body=b, answer=js)
        for m, p in [("GET", "tx_sign"), ("GET", "ki_sync"), ("POST", "get_keys"), ("GET", "get_keys"), ("GET", "nothing"), ("PUT", "tx_sign"), ("GET", "../../etc/passwd"), ("GET", "ping"), ("POST", "ping")]:
            st, body = x.http(m, "/api/v1.0/" + p)
            c.ok((st == 200) == ((m, p) == ("GET", "ping")), "status of a stray request", method=m, path=p, status=st)
        ping = Client(lambda: hrun(x.proxy().ping()))
        ping.join()
        c.ok(ping.err is None and bool(ping.res), "emulator does not answer the client's ping", error=repr(ping.err), answer=ping.res)
        no_leak(c, x, w, 0)
        cl, judge = start(c, x, w, "ki", net)
        c.ok(x.waits("K?", cl), "request was answered without asking the owner", error=repr(cl.err))
        x.answer = "ok"
        txt = x.cmd("K")
        cl.join()
        judge(True, txt)
        c.distinct("hostile", c.idx)

    with cli.scratch():
        Emu(c, NETS[net] + keys_argv(w), script).run()


def parse_wallet(txt):
    d = {}
    for ln in txt.split("\n"):
        k, _, v = ln.partition(":")
        if v.strip():
            d[k.strip().lower()] = v.strip()
    return d


def fam_account(c):
    """no account, a new account, its backups, its file"""
    rng = c.rng
    net = rng.choice(["test", "main", "stage"])
    st = {}
    prior = rng.choice([None, None, None, "keys", "nofile"])
    w0 = gen.W(rng)

    def nothing(x):
        """an empty device refuses everything"""
        x.answer = "ok"
        for m, p, b in [("GET", "watch_only", None), ("POST", "watch_only", b"{}"), ("POST", "tx_sign", b"{}"), ("POST", "ki_sync", b"{}")]:
            s_, body = x.http(m, "/api/v1.0/" + p, b)
            c.ok(s_ >= 400, "empty device answers", path=p, status=s_)
            c.ok(b"payload" not in body, "empty device answers with data", path=p)
        a = dev.agent(x.proxy(), net=net_type(net))
        s = gen.scenario(rng, n_in=1, n_out=2, ring=2, wallet=w0)
        cl = Client(lambda: hrun(dev.sign_coro(s, a))).join()
        c.ok(cl.err is not None, "empty device signs")
        c.eq([e for e in x.events if e[0] == "menu"], [], "empty device asks the owner")

    def script(x):
        if prior is None:
            nothing(x)
            at = x.out.tell()
            x.cmd("new_wallet")
            txt = x.out.getvalue()[at:]
            judge_new(x, txt)
            before = open("acc.json", "rb").read()
            x.cmd("new_wallet")
            c.eq(open("acc.json", "rb").read(), before, "a second new wallet overwrites the account file")
            c.ok(st["addr"] in x.cmd("address"), "keys of the running device replaced while its file was kept")
        elif prior == "nofile":
            c.ok(not os.listdir("."), "a file was written though none was named", files=os.listdir("."))
        w = gen.W(rng)
        if prior is None:
            w.b, w.a = st["b"], st["a"]
            w.B, w.A = ed.mulb(w.b), ed.mulb(w.a)
        else:
            w = w0
        st["w"] = w
        probe(x, w, net)

    def probe(x, w, n):
        addr = cli.address(*w.addr(), net=n).decode()
        c.ok(addr in x.cmd("address"), "address of the account")
        at = x.out.tell()
        x.cmd("keys")
        t = x.out.getvalue()[at:]
        for k in (ed.scenc(w.b), ed.scenc(w.a), w.addr()[0], w.addr()[1]):
            c.ok(bytes(k).hex() in t, "keys of the account", text=t)
        kind = rng.choice(["tx", "ki", "watch"])
        cl, judge = start(c, x, w, kind, n)
        c.ok(x.waits(FLAG[kind][0], cl), "request was answered without asking the owner", error=repr(cl.err))
        x.answer = "ok"
        txt = x.cmd(FLAG[kind][1])
        cl.join()
        judge(True, txt)
        c.count("account_used")

    def judge_new(x, txt):
        d = parse_wallet(txt)
        h = lambda k: bytes.fromhex(d[k].replace("0x", ""))
        seed = h("seed")
        c.eq(len(seed), 32, "size of the new seed")
        master = master_of(seed, False, "m/44'/128'/0'/0/0")
        c.eq(h("seed monero"), master, "Monero seed of the new wallet")
        b = int.from_bytes(master, "little") % ed.L
        a = int.from_bytes(cn.keccak256(ed.scenc(b)), "little") % ed.L
        c.eq(h("spend key priv"), ed.scenc(b), "spend key of the new wallet")
        c.eq(h("view key priv"), ed.scenc(a), "view key of the new wallet")
        c.eq(h("spend key pub"), ed.enc(ed.mulb(b)), "public spend key of the new wallet")
        c.eq(h("view key pub"), ed.enc(ed.mulb(a)), "public view key of the new wallet")
        addr = cli.address(ed.enc(ed.mulb(b)), ed.enc(ed.mulb(a)), net=net).decode()
        c.eq(d["address"], addr, "address of the new wallet")
        c.eq(words_dec(words(), d["seed monero wrds"].split()), master, "recovery words of the new wallet")
        js = json.load(open("acc.json"))
        c.eq(js["spend_key"], ed.scenc(b).hex(), "spend key in the account file")
        c.eq(js["view_key"], ed.scenc(a).hex(), "view key in the account file")
        c.eq(js["seed"], seed.hex(), "seed in the account file")
        c.eq(js["meta"]["addr"], addr, "address in the account file")
        c.eq(js["meta"]["monero_words"], d["seed monero wrds"], "words in the account file")
        c.eq(js["meta"]["monero_seed"], master.hex(), "Monero seed in the account file")
        st.update(a=a, b=b, addr=addr, seed=seed)
        SEEN.setdefault(seed, 0)
        SEEN[seed] += 1
        c.eq(SEEN[seed], 1, "two new wallets share a seed")
        c.count("wallets_created")

    with cli.scratch():
        base = [] if prior is None else keys_argv(w0)
        if prior is None:
            base = ["--account-file", "acc.json"]
        elif prior == "nofile":
            base = base[:4]
        Emu(c, NETS[net] + base, script).run()
        if prior != "nofile":
            before = open("acc.json", "rb").read()
            n2 = rng.choice(sorted(NETS))
            w1 = gen.W(rng)
            extra = rng.choice([[], ["--view-key", ed.scenc(w1.a).hex(), "--spend-key", ed.scenc(w1.b).hex()]])
            Emu(c, NETS[n2] + ["--account-file", "acc.json"] + extra, lambda x: probe(x, st["w"], n2)).run()
            c.eq(open("acc.json", "rb").read(), before, "account file changed by opening it")
        c.distinct("account", prior, net)


SEEN = {}


FAMILIES = {
    "session": dict(fn=fam_session, quick=28, thorough=240, backends=("tcry",), weight=6),
    "race": dict(fn=fam_race, quick=24, thorough=160, backends=("tcry",), weight=6),
    "hostile": dict(fn=fam_hostile, quick=6, thorough=40, backends=("tcry",), weight=6),
    "account": dict(fn=fam_account, quick=12, thorough=80, backends=("tcry",), weight=6),
}
