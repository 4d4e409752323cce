"""The command line agent under a scripted user, a recording wallet RPC server on the loopback network and the emulated
device; everything it writes goes to a scratch directory."""

import asyncio
import builtins
import contextlib
import getpass
import hashlib
import io
import json
import os
import re
import shutil
import sys
import tempfile
import threading
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer

from . import dev
from .ref import b58m

NETS = {"main": (18, 19, 42), "test": (53, 54, 63), "stage": (24, 25, 36)}


def address(spend, view, sub=False, pid=None, net="test"):
    std, integ, sb = NETS[net]
    if pid is not None:
        return b58m.addr_encode(integ, spend + view + pid)
    return b58m.addr_encode(sb if sub else std, spend + view)


class Rpc:
    """JSON RPC server with digest authentication; answers come from `handlers`, requests go to `log`."""

    def __init__(self, user=None, password=None):
        self.log, self.handlers, self.auth, self.bad_auth, self.unauth = [], {}, (user, password) if user else None, 0, 0
        rpc = self

        class H(BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"

            def log_message(self, *a):
                pass

            def reply(self, code, obj, **hdr):
                b = json.dumps(obj).encode()
                self.send_response(code)
                for k, v in hdr.items():
                    self.send_header(k.replace("_", "-"), v)
                self.send_header("Content-Length", str(len(b)))
                self.end_headers()
                self.wfile.write(b)

            def do_POST(self):
                body = self.rfile.read(int(self.headers.get("Content-Length") or 0))
                if rpc.auth and not rpc.authorized(self.headers.get("Authorization"), self.path):
                    rpc.unauth += 1
                    return self.reply(401, {}, WWW_Authenticate='Digest qop="auth",algorithm=MD5,realm="monero-rpc",nonce="q7mJ1uYd",stale=false')
                try:
                    js = json.loads(body)
                    m, p = js["method"], js.get("params")
                except Exception:
                    rpc.log.append((self.path, None, body))
                    return self.reply(400, {})
                rpc.log.append((self.path, m, p))
                h = rpc.handlers.get(m)
                try:
                    r = {"error": {"code": -1, "message": "no such method"}} if h is None else h(p)
                except BaseException as e:  # a monitor that failed in the server's thread
                    rpc.failed = e
                    return self.reply(500, {})
                out = {"id": js.get("id"), "jsonrpc": "2.0"}
                out.update(r)
                self.reply(200, out)

        self.failed = None
        self.srv = ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.srv.daemon_threads = True
        self.port = self.srv.server_address[1]
        self.thr = threading.Thread(target=self.srv.serve_forever, kwargs=dict(poll_interval=0.02), daemon=True)
        self.thr.start()

    def authorized(self, hdr, path):
        if not hdr or not hdr.startswith("Digest "):
            return False
        f = {k: a or b for k, a, b in re.findall(r'(\w+)=(?:"([^"]*)"|([^\s,]+))', hdr)}
        h = lambda x: hashlib.md5(x.encode()).hexdigest()
        a1 = h("%s:monero-rpc:%s" % self.auth)
        a2 = h("POST:%s" % path)
        exp = h(":".join([a1, f.get("nonce", ""), f.get("nc", ""), f.get("cnonce", ""), f.get("qop", ""), a2]))
        good = f.get("username") == self.auth[0] and f.get("response") == exp and f.get("nonce") == "q7mJ1uYd"
        self.bad_auth += not good
        return good

    def calls(self, *methods):
        return [(m, p) for _, m, p in self.log if not methods or m in methods]

    def close(self):
        self.srv.shutdown()
        self.srv.server_close()


class EndOfScript(Exception):
    """The agent asked the user something the script has no answer to."""


class User:
    """Answers prompts. answers: list of strings for input(), passwords: list for getpass."""

    def __init__(self):
        self.answers, self.passwords, self.asked = [], [], []

    def input(self, q=None):
        self.asked.append(str(q))
        if not self.answers:
            raise EndOfScript(q)
        a = self.answers.pop(0)
        if isinstance(a, BaseException):
            raise a
        return a

    def getpass(self, q=None, *a, **k):
        self.asked.append(str(q))
        if not self.passwords:
            raise EndOfScript(q)
        return self.passwords.pop(0)


class Exited(Exception):
    pass


@contextlib.contextmanager
def scratch():
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix="vp_cli_")
    try:
        os.chdir(d)
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


class Cli:
    """One run of the agent: argv, device, scripted user, script(h) instead of the interactive loop."""

    def __init__(self, wire, argv, script=None):
        self.wire, self.argv, self.script, self.user = wire, argv, script, User()
        self.out, self.agent, self.err = io.StringIO(), None, None

    def run(self):
        """returns the exit value; an exception of the agent is kept in .err and returned"""
        import logging

        from monero_glue.agent import agent_lite
        from monero_poc import agent as pa

        cli = self
        os.environ["NO_PROXY"] = os.environ["no_proxy"] = "127.0.0.1,localhost"

        class Host(pa.HostAgent):
            async def connect(self, path=None):
                self.trezor_proxy = cli.wire
                self.agent = agent_lite.Agent(cli.wire, network_type=self.agent.network_type if self.agent else self.network_type)

            def cmdloop(self, *a, **k):
                if cli.script:
                    cli.script(self)

        oi, og, oa = builtins.input, getpass.getpass, sys.argv
        lg = logging.root.manager.disable
        logging.disable(logging.CRITICAL)
        builtins.input, getpass.getpass = self.user.input, self.user.getpass
        sys.argv = ["agent"] + list(self.argv)
        h = None
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        try:
            with contextlib.redirect_stdout(self.out), contextlib.redirect_stderr(self.out):
                self.agent = h = Host()
                try:
                    return loop.run_until_complete(h.main())
                except SystemExit as e:
                    self.err = Exited(e.code)
                    return self.err
                except EndOfScript as e:
                    self.err = e
                    return e
        finally:
            logging.disable(lg)
            builtins.input, getpass.getpass, sys.argv = oi, og, oa
            if h is not None:
                h.worker_loop.call_soon_threadsafe(h.worker_loop.stop)
                h.worker_thread.join(5)
            loop.close()
            asyncio.set_event_loop(None)


class DevWire(dev.Wire):
    """The emulated device plus the requests it does not implement, answered by the reference."""

    def __init__(self, d, w, net="test"):
        super().__init__(d)
        self.addr_of = lambda account, minor: address(*w.addr(account, minor), sub=(account, minor) != (0, 0), net=net)
        self.entropy = []
        self.rng = None

        async def call(msg):
            from monero_glue import messages as M

            if isinstance(msg, M.MoneroGetAddress):
                return M.MoneroAddress(address=self.addr_of(msg.account or 0, msg.minor or 0))
            if isinstance(msg, M.GetEntropy):
                e = self.rng.randbytes(min(msg.size or 0, self.rng.choice([1, 32, 1000, 10240])))
                self.entropy.append(e)
                return M.Entropy(entropy=e)
            return M.Failure(code=1, message="unexpected")

        self.peer["call"] = call
        self.peer["call_in_session"] = call
        self.pings = 0

    async def ping(self, *a, **k):
        self.pings += 1
        return "pong"

    def methods(self):
        return [m for m, *_ in self.log]
