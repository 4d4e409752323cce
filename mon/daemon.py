"""Monero daemon as the wallet sees it: a chain given by a function of the height, spoken to over HTTP."""

import json
import struct
import threading
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer

from .ref.cn import varint
from .ref.keccak import keccak256

MAGIC = b"\x01\x11\x01\x01\x01\x01\x02\x01\x01"


def _size(n):
    """length marker of the portable storage format"""
    for bits, mark in ((6, 0), (14, 1), (30, 2), (62, 3)):
        if n < 1 << bits:
            return (n << 2 | mark).to_bytes(1 << mark, "little")


def _name(s):
    return bytes([len(s)]) + s.encode()


def blocks_answer(blobs):
    out = MAGIC + _size(2)
    out += _name("blocks") + bytes([0x80 | 12]) + _size(len(blobs))
    for b in blobs:
        out += _size(1) + _name("block") + bytes([10]) + _size(len(b)) + b
    return out + _name("status") + bytes([10]) + _size(2) + b"OK"


def heights_asked(raw):
    """the heights of a request; None when it is not one"""
    if raw[:9] != MAGIC or raw[9] != 4:
        return None
    n = raw[10]
    if raw[11 : 11 + n] != b"heights" or raw[11 + n] != 0x85:
        return None
    p = 12 + n
    mark = raw[p] & 3
    k = int.from_bytes(raw[p : p + (1 << mark)], "little") >> 2
    p += 1 << mark
    if len(raw) != p + 8 * k:
        return None
    return list(struct.unpack("<%dQ" % k, raw[p:]))


def block(height, t):
    """a block with only the miner's transaction"""
    h = lambda s: keccak256(("%s %d" % (s, height)).encode())
    extra = b"\x01" + h("key")
    b = varint(10) + varint(10) + varint(t) + h("prev") + struct.pack("<I", height & 0xFFFFFFFF)
    b += varint(2) + varint(height + 60) + varint(1) + b"\xff" + varint(height) + varint(1) + varint(600000000000) + b"\x02" + h("out") + varint(len(extra)) + extra + b"\x00"
    return b + varint(height % 3) + b"".join(h("tx%d" % i) for i in range(height % 3))


class Daemon:
    def __init__(self, count, time):
        d = self
        self.count, self.time, self.asked, self.bad = count, time, [], []

        class H(BaseHTTPRequestHandler):
            def log_message(self, *a):
                pass

            def reply(self, code, b):
                self.send_response(code)
                self.send_header("Content-Length", str(len(b)))
                self.end_headers()
                self.wfile.write(b)

            def do_POST(self):
                body = self.rfile.read(int(self.headers.get("Content-Length") or 0))
                if self.path == "/json_rpc":
                    js = json.loads(body)
                    ok = js.get("method") == "get_info"
                    r = {"result": {"height": d.count, "status": "OK"}} if ok else {"error": {"code": -1, "message": "no such method"}}
                    return self.reply(200, json.dumps(dict(r, id=js.get("id"), jsonrpc="2.0")).encode())
                hs = heights_asked(body) if self.path.strip("/") == "getblocks_by_height.bin" else None
                if hs is None or any(x >= d.count for x in hs):
                    d.bad.append((self.path, body))
                    return self.reply(404, b"")
                d.asked.append(hs)
                self.reply(200, blocks_answer([block(x, d.time(x)) for x in hs]))

        self.srv = ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.srv.daemon_threads = True
        self.port = self.srv.server_address[1]
        threading.Thread(target=self.srv.serve_forever, kwargs=dict(poll_interval=0.02), daemon=True).start()

    def close(self):
        self.srv.shutdown()
        self.srv.server_close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
