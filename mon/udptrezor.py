"""A Trezor on the other end of its UDP link: packets, framing and message ids as the firmware speaks them."""

import asyncio
import socket
import struct
import threading

from . import dev


class UdpTrezor:
    """Serves an emulated device. log: (message class, raw request, reply class, raw reply) in order."""

    def __init__(self, device, peer=None, features=None):
        self.dev = device
        self.peer = peer or {}
        self.features = dict(vendor="trezor.io", major_version=2, minor_version=3, patch_version=6, model="T", initialized=True, device_id="0102")
        self.features.update(features or {})
        self.log = []
        self.service = []  # names of messages outside of the Monero ones
        self.before = None  # f(i, name) -> list of ("button" | "pin" | "passphrase")
        self.edit = None  # f(i, name, msg, reply) -> (message id, raw) or reply
        self.acks = []
        self.failed = None
        self.n = 0
        self.sock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        self.sock.bind(("127.0.0.1", 0))
        self.sock.settimeout(0.1)
        self.port = self.sock.getsockname()[1]
        self.path = "udp:127.0.0.1:%d" % self.port
        self.stop = False
        self.thr = threading.Thread(target=self.loop, daemon=True)
        self.thr.start()

    def close(self):
        self.stop = True
        self.thr.join(10)
        self.sock.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # -- link -----------------------------------------------------------------
    def packet(self):
        while not self.stop:
            try:
                b, a = self.sock.recvfrom(100)
            except socket.timeout:
                continue
            except OSError:
                continue
            if b == b"PINGPING":
                self.sock.sendto(b"PONGPONG", a)
                continue
            return b, a
        raise EOFError

    def read(self):
        while True:
            b, a = self.packet()
            if len(b) == 64 and b[:3] == b"?##":
                break
        mid, n = struct.unpack(">HL", b[3:9])
        data = b[9:]
        while len(data) < n:
            b, a2 = self.packet()
            assert a2 == a and len(b) == 64 and b[:1] == b"?" and b[:3] != b"?##", "broken frame"
            data += b[1:]
        assert not any(data[n:]), "padding is not zero"
        self.to = a
        return mid, data[:n]

    def write(self, mid, raw):
        b = b"##" + struct.pack(">HL", mid, len(raw)) + raw
        while b:
            self.sock.sendto(b"?" + b[:63].ljust(63, b"\0"), self.to)
            b = b[63:]

    # -- device ---------------------------------------------------------------
    def loop(self):
        loop = asyncio.new_event_loop()
        while not self.stop:
            try:
                mid, raw = self.read()
                loop.run_until_complete(self.handle(mid, raw))
            except EOFError:
                break
            except BaseException as e:
                self.failed = e
                try:
                    self.say("Failure", code=99, message="harness")
                except Exception:
                    pass
        loop.close()

    def say(self, name, **k):
        from monero_glue import messages as M

        m = getattr(M, name)(**k)
        self.write(getattr(M.MessageType, name), dev.pb_dump(m))

    async def handle(self, mid, raw):
        from monero_glue import messages as M
        from monero_glue.messages import MessageType as T

        names = {getattr(T, x): x for x in dir(T) if not x.startswith("_")}
        name = names.get(mid, "?%d" % mid)
        if not name.startswith(("Monero", "DebugMonero", "GetEntropy")):
            self.service.append(name)
            if name in ("Initialize", "GetFeatures"):
                return self.say("Features", **self.features)
            if name == "Ping":
                m = dev.pb_load(raw, M.Ping)
                return self.say("Success", message=m.message)
            return self.say("Failure", code=1, message="unexpected message")
        i = self.n
        self.n += 1
        for k in self.before(i, name) if self.before else ():
            self.say("ButtonRequest", code=8)
            m2, r2 = self.read()
            self.acks.append(names.get(m2))
        msg = dev.pb_load(raw, getattr(M, name))
        if name in self.peer:
            res = await self.peer[name](msg)
        elif name.startswith("MoneroTransaction"):
            res = await self.dev.tsx_sign(msg)
        elif name.startswith("MoneroKeyImage"):
            res = await self.dev.key_image_sync(msg)
        elif name == "MoneroGetWatchKey":
            res = await self.dev.get_view_key(msg)
        else:
            res = M.Failure(code=1, message="unexpected message")
        if self.edit:
            res = self.edit(i, name, msg, res)
        rraw = dev.pb_dump(res)
        self.log.append((msg.__class__, raw, res.__class__, rraw))
        self.write(getattr(T, res.__class__.__name__), rraw)
