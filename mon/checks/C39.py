"""The wallet and daemon clients ask exactly what they are told and return exactly what is answered."""

import base64
import json

from .. import gen, rpcsrv
from ..daemon import heights_asked
from ..harness import run

RULE = (
    "histories of calls on several wallet and daemon clients against several loopback servers (no credentials, digest credentials of both published algorithms with and without qop), addresses and credentials changed "
    "in between; parameters with big integers, unicode, nesting and empty values; answers of all sizes, error objects, HTTP errors, cut and dropped answers, answers that are no JSON or no portable storage; the servers verify the digest "
    "themselves and record every request. distinct = (client, call, kind of answer, credentials)"
)
ASSUMPTIONS = [
    "empty parameters are not sent (an absent params member means the same to both programs)",
    "a server that redirects or never answers is not judged",
    "credentials are user:password; the user has no colon",
]

CALLS = [
    ("balance", "getbalance", False),
    ("height", "getheight", False),
    ("get_transfers", "get_transfers", True),
    ("rescan_bc", "rescan_blockchain", False),
    ("transfer", "transfer", True),
    ("transfer_split", "transfer_split", True),
    ("submit_transfer", "submit_transfer", True),
    ("stop_wallet", "stop_wallet", False),
    ("export_outputs", "export_outputs", False),
    ("import_outputs", "import_outputs", True),
    ("import_key_images", "import_key_images", True),
    ("refresh", "refresh", True),
    ("sweep_dust", "sweep_dust", True),
    ("sweep_all", "sweep_all", True),
    ("sweep_single", "sweep_single", True),
]
INTS = [0, 1, -1, 2**31, 2**53, 2**53 + 1, 2**63 - 1, 2**63, 2**64 - 1]
STR = ["", "a", "x" * 3000, "\u20bf \u00e9", 'q"\\', "\n\t\x00", "</script>", "\U0001f600", "deadbeef" * 8]


def value(rng, depth=0):
    r = rng.randrange(8 if depth < 3 else 5)
    if r == 0:
        return rng.choice(INTS + [rng.getrandbits(64)])
    if r == 1:
        return rng.choice(STR)
    if r == 2:
        return rng.choice([True, False])
    if r == 3:
        return gen.rb(rng, rng.choice([0, 8, 32, 200])).hex()
    if r == 4:
        return rng.choice([None, rng.getrandbits(40)])
    if r == 5:
        return [value(rng, depth + 1) for _ in range(rng.choice([0, 1, 2, 20]))]
    return params(rng, depth + 1)


def params(rng, depth=0):
    names = ["destinations", "amount", "address", "account_index", "subaddr_indices", "priority", "payment_id", "do_not_relay", "\u00fcnicode", "unlock_time", "get_tx_hex"]
    return {k: value(rng, depth) for k in rng.sample(names, rng.choice([1, 2, 3, 6]))}


def typed(v):
    if isinstance(v, dict):
        return {k: typed(x) for k, x in v.items()}
    if isinstance(v, list):
        return [typed(x) for x in v]
    return type(v).__name__, v


class World:
    """servers and what each is to answer next"""

    def __init__(self, c, n):
        rng = c.rng
        self.c, self.next = c, [None] * n
        self.users = [("user", "pass"), ("user", "pass2"), ("u2", "pa:ss:word"), ("rpc", "x" * 60), ("e", "")]
        self.srv = []
        for i in range(n):
            cr = rng.choice([None, None] + self.users)
            self.srv.append(
                rpcsrv.Server(
                    lambda rec, i=i: self.next[i],
                    cr,
                    alg=rng.choice(["MD5", "MD5", "SHA-256"]),
                    qop=rng.choice(["auth", "auth", None]),
                    opaque=rng.choice([None, "abc"]),
                )
            )

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for s in self.srv:
            s.close()

    def ask(self, at, creds, fn, answer, judge, **det):
        """one call towards server `at`; -> (result, None) or (None, exception)"""
        c = self.c
        srv = self.srv[at]
        marks = [len(s.log) for s in self.srv]
        for i in range(len(self.next)):
            self.next[i] = (500, b"not for you", None)
        self.next[at] = answer
        try:
            res, exc = fn(), None
        except Exception as e:
            res, exc = None, e
        for i, s in enumerate(self.srv):
            if i != at:
                c.eq(len(s.log), marks[i], "a server was asked that the client does not point to", **det)
        mine = srv.log[marks[at] :]
        right = srv.creds is None or creds == srv.creds
        let = [r for r in mine if r["ok"]]
        c.eq(len(let), 1 if right else 0, "requests the server let in", requests=len(mine), creds=creds, server=srv.creds, error=repr(exc), **det)
        for r in mine:
            judge(r)
            a = r["auth"]
            if a is not None:
                c.ok(creds is not None and a.startswith("Digest "), "credentials sent unasked or in another form", auth=a, **det)
                b = base64.b64encode(("%s:%s" % creds).encode()).decode()
                c.ok(b not in a and (len(creds[1]) < 4 or creds[1] not in a), "password sent in the clear", auth=a, **det)
                f = rpcsrv.fields(a)
                c.eq(f.get("username"), creds[0], "user name", **det)
        if not right:
            c.ok(exc is not None, "refused credentials gave a result", result=repr(res)[:200], **det)
        return res, exc, right


def creds_form(rng, cr):
    if cr is None:
        return None
    return rng.choice([cr, list(cr), "%s:%s" % cr])


ANSWERS = ["result", "result", "result", "error", "http", "nojson", "cut", "drop", "empty", "big"]


def json_answer(rng, kind):
    """-> (status, body, fault), expected value or None when the call has to fail"""
    js = {"id": "0", "jsonrpc": "2.0"}
    if kind == "error":
        js["error"] = {"code": rng.choice([-1, -4, -32600]), "message": rng.choice(STR)}
    elif kind == "big":
        js["result"] = {"tx_blob": gen.rb(rng, 150000).hex(), "list": [params(rng) for _ in range(30)]}
    else:
        js["result"] = params(rng)
    b = json.dumps(js, ensure_ascii=rng.random() < 0.5).encode()
    if kind == "http":
        return (rng.choice([400, 403, 404, 500, 503]), b, None), None
    if kind == "nojson":
        return (200, rng.choice([b"<html>", b"{", b[:-1], b"\xff\xfe", b"nope"]), None), None
    if kind == "empty":
        return (200, b"", None), None
    if kind in ("cut", "drop"):
        return (200, b, kind), None
    return (200, b, None), js


def f_wallet(c):
    """family 'wallet': the wallet client"""
    from monero_glue.xmr import wallet_rpc

    rng = c.rng
    with World(c, 3) as w:
        clients = []
        for _ in range(2):
            cr = rng.choice([None] + w.users)
            at = rng.randrange(3)
            cl = wallet_rpc.WalletRpc(None, w.srv[at].port, cr)
            clients.append([cl, at, cr])
        for step in range(24):
            k = rng.choice(clients)
            if rng.random() < 0.3:
                k[1] = rng.randrange(3)
                k[0].set_addr("%s:%d" % (rng.choice(["127.0.0.1", "localhost"]), w.srv[k[1]].port))
            if rng.random() < 0.5:
                k[2] = w.srv[k[1]].creds if rng.random() < 0.8 else rng.choice([None] + w.users)
                k[0].set_creds(creds_form(rng, k[2]))
            cl, at, cr = k
            name, method, takes = rng.choice(CALLS) if rng.random() < 0.8 else (None, rng.choice(["get_address", "make_uri", "x"]), True)
            p = params(rng) if takes and rng.random() < 0.9 else None
            before = json.dumps(p)
            kind = rng.choice(ANSWERS)
            ans, exp = json_answer(rng, kind)
            if name is None:
                fn = lambda: cl.request(method, p) if p is not None else cl.request(method)
            elif takes:
                fn = lambda: getattr(cl, name)(p) if p is not None or name in ("transfer", "transfer_split", "submit_transfer") else getattr(cl, name)()
            else:
                fn = lambda: getattr(cl, name)()

            def judge(r):
                c.eq((r["method"], r["path"]), ("POST", "/json_rpc"), "request line")
                if not r["body"] and not r["ok"]:
                    return
                js = json.loads(r["body"].decode())
                c.eq(js.get("method"), method, "method asked for", call=name)
                c.eq((js.get("jsonrpc"), "id" in js), ("2.0", True), "request form")
                c.eq(typed(js.get("params") or None), typed(p or None), "parameters asked with", call=name)
                c.ok(set(js) <= {"jsonrpc", "id", "method", "params"}, "members of the request")

            res, exc, right = w.ask(at, cr, fn, ans, judge, call=name or method, got=kind)
            c.eq(json.dumps(p), before, "the parameters were changed")
            if right and exp is not None:
                c.ok(exc is None, "an answered call failed", error=repr(exc), answer=kind)
                c.eq(typed(res), typed(exp), "answer handed back", call=name, answer=kind)
                c.count("answered")
            elif right:
                c.ok(exc is not None, "a failed request gave a result", answer=kind, result=repr(res)[:200])
                c.count("failed")
            else:
                c.count("refused_credentials")
            c.distinct("wallet", name or "request", kind, cr is not None, right)


def f_daemon(c):
    """family 'daemon': the daemon client, also its binary requests"""
    from monero_glue.xmr import daemon_rpc

    rng = c.rng
    with World(c, 2) as w:
        at = rng.randrange(2)
        cr = rng.choice([None] + w.users)
        cl = daemon_rpc.DaemonRpc(w.srv[at].port, cr)
        for step in range(20):
            if rng.random() < 0.3:
                at = rng.randrange(2)
                cl.set_addr("127.0.0.1:%d" % w.srv[at].port)
            if rng.random() < 0.6:
                cr = w.srv[at].creds if rng.random() < 0.85 else rng.choice([None] + w.users)
                cl.set_creds(creds_form(rng, cr))
            what = rng.choice(["get_version", "get_info", "request", "blocks", "blocks", "blocks"])
            kind = rng.choice(ANSWERS)
            if what == "blocks":
                n = rng.choice([0, 1, 2, 62, 63, 64, 65, 100, 1000, 16383, 16384] if rng.random() < 0.3 else [1, 2, 5])
                hs = [rng.choice([0, 1, 2**32, 2**64 - 1, rng.getrandbits(rng.choice([8, 21, 40, 64]))]) for _ in range(n)]
                doc = {"blocks": [], "status": b"OK", "untrusted": rng.random() < 0.5}
                for _ in range(rng.choice([1, 2, 70 if kind == "big" else 3])):
                    b = {"block": gen.rb(rng, rng.choice([0, 1, 63, 64, 300, 16384]))}
                    if rng.random() < 0.5:
                        b["txs"] = [gen.rb(rng, rng.choice([0, 5, 100])) for _ in range(rng.choice([1, 3]))]
                    doc["blocks"].append(b)
                raw = rpcsrv.document(doc)
                if kind == "http":
                    ans, exp = (rng.choice([400, 404, 500]), rng.choice([b"", b"<html><body>", b"error"]), None), None
                elif kind in ("nojson", "empty"):
                    ans, exp = (200, rng.choice([b"", b"<html>nothing here</html>", raw[1:], raw[: rng.randrange(len(raw))], b"\x00" * 40]), None), None
                elif kind in ("cut", "drop"):
                    ans, exp = (200, raw, kind), None
                else:
                    ans, exp = (200, raw, None), doc
                fn = lambda: run(cl.get_blocks_by_height(list(hs)))

                def judge(r):
                    c.eq((r["method"], r["path"]), ("POST", "/getblocks_by_height.bin"), "request line")
                    if r["body"] or r["ok"]:
                        c.eq(heights_asked(r["body"]), hs, "heights asked for", n=len(hs))

            else:
                ans, full = json_answer(rng, kind)
                m, p = (what, None) if what != "request" else (rng.choice(["get_block", "get_block_header_by_height", "on_get_block_hash"]), params(rng))
                # the helpers hand back the result alone
                exp = full if what == "request" or full is None else full.get("result")
                fn = (lambda: cl.request(m, p)) if what == "request" else lambda: run(getattr(cl, what)())

                def judge(r):
                    c.eq((r["method"], r["path"]), ("POST", "/json_rpc"), "request line")
                    if r["body"] or r["ok"]:
                        js = json.loads(r["body"].decode())
                        c.eq((js.get("method"), typed(js.get("params") or None)), (m, typed(p or None)), "method and parameters")

            res, exc, right = w.ask(at, cr, fn, ans, judge, call=what, got=kind)
            if right and exp is not None:
                c.ok(exc is None, "an answered call failed", error=repr(exc), call=what, answer=kind)
                if what == "blocks":
                    c.eq(norm(res), norm(exp), "blocks handed back")
                else:
                    c.eq(typed(res), typed(exp), "answer handed back", call=what)
                c.count("answered")
            elif right:
                c.ok(exc is not None, "a failed request gave a result", call=what, answer=kind, body=ans[1][:60], status=ans[0], result=repr(res)[:200])
                c.count("failed")
            else:
                c.count("refused_credentials")
            c.distinct("daemon", what, kind, cr is not None, right)


def norm(v):
    if hasattr(v, "val") and hasattr(v, "type"):
        return norm(v.val)
    if isinstance(v, dict):
        return {(k.decode() if isinstance(k, (bytes, bytearray)) else k): norm(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, (bytes, bytearray)):
        return bytes(v)
    return int(v)


def f_creds(c):
    """family 'creds': forms of credentials"""
    from monero_glue.xmr import daemon_rpc, wallet_rpc

    rng = c.rng
    for cls, mk in (("wallet", lambda p, k: wallet_rpc.WalletRpc(None, p, k)), ("daemon", daemon_rpc.DaemonRpc)):
        user = gen.rb(rng, 4).hex()
        pw = rng.choice([":", "a:b", "::x", "with space", "p%20", "x'", gen.rb(rng, 20).hex()])
        with rpcsrv.Server(lambda rec: (200, b'{"result": {"height": 5}}', None), (user, pw)) as s:
            for form in ((user, pw), [user, pw], "%s:%s" % (user, pw)):
                cl = mk(s.port, None)
                c.refused(lambda: cl.request("get_info"), "request without credentials gave a result")
                cl.set_creds(form)
                for _ in range(2):
                    c.eq(cl.request("get_info"), {"result": {"height": 5}}, "request with credentials", form=type(form).__name__)
                cl.set_creds(None)
                c.refused(lambda: cl.request("get_info"), "credentials were kept")
                cl.set_creds((user, pw + "x"))
                c.refused(lambda: cl.request("get_info"), "request with a wrong password gave a result")
                c.count("forms")
            for bad in (5, ("a",), ("a", "b", "c"), b"u:p"):
                cl = mk(s.port, None)
                n = len(s.log)
                c.refused(lambda: (cl.set_creds(bad), cl.request("get_info")), "credentials of no known form were taken", creds=bad)
                c.ok(not any(r["auth"] for r in s.log[n:]), "credentials of no known form were sent")
            c.ok(all(r["auth"] is None or r["auth"].startswith("Digest ") for r in s.log), "credentials sent in the clear")
        # nobody listens there
        cl = mk(s.port, (user, pw))
        c.refused(lambda: cl.request("get_info"), "a result from nobody")
        c.distinct("creds", cls, pw.count(":"))


FAMILIES = {
    "wallet": dict(fn=f_wallet, quick=14, thorough=250, backends=("tcry",)),
    "daemon": dict(fn=f_daemon, quick=14, thorough=250, backends=("tcry",)),
    "creds": dict(fn=f_creds, quick=4, thorough=40, backends=("tcry",)),
}
