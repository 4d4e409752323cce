"""An HTTP server with digest authentication as monero's, judging and recording every request."""

import hashlib
import json
import re
import struct
import threading
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer

from .daemon import MAGIC, _name, _size

ALG = {"MD5": hashlib.md5, "SHA-256": hashlib.sha256}


def portable(v):
    """portable storage value with its type octet"""
    if isinstance(v, bool):
        return b"\x0b" + bytes([v])
    if isinstance(v, int):
        return b"\x05" + struct.pack("<Q", v) if v >= 0 else b"\x01" + struct.pack("<q", v)
    if isinstance(v, bytes):
        return b"\x0a" + _size(len(v)) + v
    if isinstance(v, dict):
        return b"\x0c" + section(v)
    t = portable(v[0])[0] if v else 0x0A
    return bytes([0x80 | t]) + _size(len(v)) + b"".join(portable(x)[1:] for x in v)


def section(d):
    return _size(len(d)) + b"".join(_name(k) + portable(v) for k, v in d.items())


def document(d):
    return MAGIC + section(d)


def fields(s):
    return {k.lower(): a if a else b for k, a, b in re.findall(r'(\w+)=(?:"([^"]*)"|([^\s,]+))', s)}


class Server:
    """answers: function(record) -> (status, headers, body, fault); a record is one request let in"""

    def __init__(self, answer, creds=None, alg="MD5", qop="auth", stale=0, opaque=None):
        me = self
        self.creds, self.alg, self.qop, self.stale, self.opaque = creds, alg, qop, stale, opaque
        self.answer, self.log, self.nonces, self.n = answer, [], {}, 0
        self.lock = threading.Lock()

        class H(BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"

            def log_message(self, *a):
                pass

            def go(self, method):
                body = self.rfile.read(int(self.headers.get("Content-Length") or 0))
                auth = self.headers.get("Authorization")
                rec = dict(method=method, path=self.path, body=body, auth=auth, ctype=self.headers.get("Content-Type"))
                with me.lock:
                    rec["ok"] = me.check(method, self.path, auth)
                    me.log.append(rec)
                    if not rec["ok"]:
                        nonce = hashlib.sha256(b"nonce%d" % me.n).hexdigest()
                        me.n += 1
                        me.nonces[nonce] = 0
                        ch = 'Digest realm="monero-rpc",nonce="%s",algorithm=%s' % (nonce, me.alg)
                        if me.qop:
                            ch += ',qop="%s"' % me.qop
                        if me.opaque:
                            ch += ',opaque="%s"' % me.opaque
                        if auth:
                            ch += ",stale=true"
                if not rec["ok"]:
                    self.send_response(401)
                    self.send_header("WWW-Authenticate", ch)
                    self.send_header("Content-Length", "0")
                    self.end_headers()
                    return
                code, b, fault = me.answer(rec)
                if fault == "drop":
                    self.close_connection = True
                    self.connection.close()
                    return
                self.send_response(code)
                self.send_header("Content-Length", str(len(b)))
                self.send_header("Content-Type", "application/json")
                self.end_headers()
                if fault == "cut":
                    self.wfile.write(b[: max(0, len(b) - 1 - len(b) // 3)])
                    self.close_connection = True
                    return
                self.wfile.write(b)

            def do_POST(self):
                self.go("POST")

            def do_GET(self):
                self.go("GET")

            def handle_one_request(self):
                try:
                    super().handle_one_request()
                except (OSError, ValueError):
                    self.close_connection = True

        self.srv = ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.srv.daemon_threads = True
        self.port = self.srv.server_address[1]
        threading.Thread(target=self.srv.serve_forever, kwargs=dict(poll_interval=0.01), daemon=True).start()

    def check(self, method, path, auth):
        """is this request let in (digest of the right user and password over a nonce of ours)"""
        if self.creds is None:
            return True
        if not auth or not auth.startswith("Digest "):
            return False
        f = fields(auth)
        nonce = f.get("nonce")
        if nonce not in self.nonces:
            return False
        if self.stale > 0:
            # one challenge is declared expired
            self.stale -= 1
            del self.nonces[nonce]
            return False
        h = lambda s: ALG[self.alg](s.encode()).hexdigest()
        a1 = h("%s:monero-rpc:%s" % self.creds)
        a2 = h("%s:%s" % (method, path))
        if self.qop:
            exp = h(":".join([a1, nonce, f.get("nc", ""), f.get("cnonce", ""), f.get("qop", ""), a2]))
            if f.get("qop") != "auth" or int(f.get("nc", "0"), 16) <= self.nonces[nonce]:
                return False
        else:
            exp = h(":".join([a1, nonce, a2]))
        if f.get("response") != exp or f.get("uri") != path or f.get("username") != self.creds[0]:
            return False
        if self.opaque and f.get("opaque") != self.opaque:
            return False
        self.nonces[nonce] += 1
        return True

    def close(self):
        self.srv.shutdown()
        self.srv.server_close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
