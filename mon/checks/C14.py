"""The low-level device command set computes what Monero specifies."""

import struct

from .. import dev, gen
from ..harness import run
from ..ref import bpprove, cn, ed, tx as rtx
from ..ref.ed import L
from ..ref.keccak import keccak256

RULE = (
    "random sequences of all implemented commands against a model of the session (which secret stands behind every handle the device returned), wallets loaded at start or put later, values with border scalars; "
    "bad inputs (truncated, not a point, wrong key pairs, unknown parameters, handles of other sessions); whole transactions built with the commands only, judged by an independent verifier and recipient scan, and "
    "deviations in the validation steps (other amounts, masks, commitments, order, count, keys; user refusing). distinct = (command, parameter, verdict)"
)
ASSUMPTIONS = [
    "the command set as implemented here: sc_add/sc_sub work on clear scalars, the prekey is the documented expansion, subaddress (0,0) of the secret-key command not judged",
    "GET_ADDITIONAL_KEY, RESET and seed words are not implemented and not judged; the message hash of the host is not bound to the confirmed outputs by this protocol",
    "the user interface is a recording stand-in",
]
OK = 0x9000
NONE, GET_KEY, PUT_KEY, PREKEY, VERIFY = 0x00, 0x20, 0x22, 0x24, 0x26
S2P, DERIV, D2S, DPUB, DSEC, KI, ADD, SUB, KEYPAIR, MULK, MULB = 0x30, 0x32, 0x34, 0x36, 0x38, 0x3A, 0x3C, 0x3E, 0x40, 0x42, 0x44
DSUBPUB, GSUB, GSUBPUB, GSUBSEC = 0x46, 0x48, 0x4A, 0x4C
OPEN, MODE, STEALTH, BLIND, UNBLIND, VALIDATE, MLSAG, CLOSE = 0x70, 0x72, 0x76, 0x78, 0x7A, 0x7C, 0x7E, 0x80
MORE = 0x80


class UI:
    def __init__(self):
        self.outs = []
        self.answer = True

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        async def f(*a, **k):
            if name.startswith("confirm"):
                self.outs.append((name, a, k))
                return self.answer
            return None

        return f


class Ses:
    """A session with the device, driven by bytes only."""

    def __init__(self, w, net=None, ui=None):
        from monero_glue.protocol_lite.lite import LiteProtocol

        self.ctx = dev.device(w, net=net)
        self.net = self.ctx.creds.network_type
        self.p = LiteProtocol()
        self.ui = ui or UI()

        class Msg:
            address_n = []
            network_type = self.net

        run(self.p.init(self.ctx, Msg))

    def raw(self, ins, p1=0, p2=0, data=b"", opt=0):
        from monero_glue.hwtoken import iface

        old = iface.get_iface
        iface.get_iface = lambda ctx=None: self.ui
        try:
            sw, r = run(self.p.dispatch(self.ctx, ins, p1, p2, bytes([opt]) + data))
        finally:
            iface.get_iface = old
        return sw, bytes(r)

    def __call__(self, c, ins, data=b"", p1=0, p2=0, opt=0):
        sw, r = self.raw(ins, p1, p2, data, opt)
        c.eq(sw, OK, "command refused", ins=hex(ins), p1=p1)
        c.count("commands")
        return r

    def refuses(self, ins, data=b"", p1=0, p2=0, opt=0):
        """error status or an exception, and nothing returned"""
        try:
            sw, r = self.raw(ins, p1, p2, data, opt)
        except Exception:
            return True
        return sw != OK


def address(w, net):
    from monero_glue.xmr.sub.xmr_net import NetworkTypes as NT
    from ..ref import b58m

    tag = {NT.MAINNET: 18, NT.TESTNET: 53, NT.STAGENET: 24}[net]
    a = b58m.addr_encode(tag, ed.enc(w.B) + ed.enc(w.A))
    return a if isinstance(a, bytes) else a.encode()


def scalar(rng):
    return rng.choice([1, 2, L - 1, gen.rsc(rng), gen.rsc(rng), gen.rsc(rng), gen.rsc(rng)])


def u32(i):
    return struct.pack(">I", i)


class Model:
    def __init__(self, c, ses, w):
        self.c, self.s, self.w = c, ses, w
        self.sec = [(bytes(32), lambda: self.w.a), (b"\xff" * 32, lambda: self.w.b)]  # accepted where keys are
        self.enc = []  # (blob, secret int)
        self.der = []  # (blob, point)
        self.fresh = set()

    def new(self, blob, what):
        """a value the device drew at random"""
        self.c.ok(blob not in self.fresh, "the device repeats a random value", what=what)
        self.fresh.add(blob)

    def key(self):
        r = self.c.rng
        x = r.choice(self.sec + [(b, (lambda v=v: v)) for b, v in self.enc[-4:]])
        return x[0], x[1]()

    def handle(self):
        if not self.enc:
            self.step("dsec")
        return self.c.rng.choice(self.enc)

    def deriv(self):
        if not self.der:
            self.step("deriv")
        return self.c.rng.choice(self.der)

    def idx(self):
        r = self.c.rng
        return r.choice([0, 1, 2, 127, 128, 255, 256, 300, (1 << 16) + 3, (1 << 24) + 1, (1 << 32) - 1, r.getrandbits(8), r.getrandbits(32)])

    def point(self):
        return ed.mulb(scalar(self.c.rng))

    def check_handle(self, blob, x, what):
        """what the device gave stands for the secret x, and does not show it"""
        c = self.c
        c.eq(len(blob), 32, "length of a protected secret", what=what)
        c.ok(blob != ed.scenc(x), "a secret returned in the clear", what=what)
        c.eq(self.s(c, self.c.rng.choice([S2P, MULB]), blob), ed.enc(ed.mulb(x)), "protected secret stands for another value", what=what)
        self.enc.append((blob, x))

    def check_point(self, blob, P, what):
        c = self.c
        c.eq(len(blob), 32, "length of a protected derivation", what=what)
        c.ok(blob != ed.enc(P), "a derivation returned in the clear", what=what)
        self.der.append((blob, P))
        i, B = self.idx(), self.point()
        c.eq(self.s(c, DPUB, blob + u32(i) + ed.enc(B)), ed.enc(cn.derive_pub(P, i, B)), "derivation stands for another point", what=what)

    def step(self, kind=None):
        c, s, w, rng = self.c, self.s, self.w, self.c.rng
        kind = kind or rng.choice(STEPS)
        c.distinct(kind)
        if kind == "getkey":
            c.eq(s(c, GET_KEY, p1=1), ed.enc(w.A) + ed.enc(w.B) + address(w, s.net), "public keys and address")
            c.eq(s(c, GET_KEY, p1=2), ed.scenc(w.a), "view key")
        elif kind == "putkey":
            if rng.random() < 0.5:
                n = gen.W(rng)
                s(c, PUT_KEY, ed.scenc(n.a) + ed.enc(n.A) + ed.scenc(n.b) + ed.enc(n.B))
                self.w = n
            else:
                n = gen.W(rng)
                q = rng.choice([(n.a, w.A, n.b, n.B), (n.a, n.A, n.b, w.B), (n.a, n.A, w.b, n.B), (w.b, n.A, n.b, n.B), (n.a, ed.neg(n.A), n.b, n.B)])
                sw, r = s.raw(PUT_KEY, data=ed.scenc(q[0]) + ed.enc(q[1]) + ed.scenc(q[2]) + ed.enc(q[3]))
                c.ok(sw != OK, "keys that do not belong together accepted")
            self.step("getkey")
        elif kind == "verify":
            blob, x = self.key()
            good = rng.random() < 0.5
            P = ed.mulb(x) if good else rng.choice([ed.mulb((x + 1) % L), ed.neg(ed.mulb(x)), self.point()])
            p1 = rng.choice([0, 0, 1, 2])
            r = s(c, VERIFY, blob + ed.enc(P), p1=p1)
            target = [P, w.A, w.B][p1]
            c.eq(r[:4], u32(int(ed.eq(ed.mulb(x), target))), "verdict on a key pair", p1=p1)
            c.eq(r[4:], address(w, s.net), "address with the verdict")
            c.distinct("verify", p1, r[3])
        elif kind == "prekey":
            h = keccak256(ed.scenc(w.a) + ed.scenc(w.b) + b"\x8c")
            c.eq(s(c, PREKEY), h * 6 + h[:8], "wallet encryption prekey")
        elif kind == "deriv":
            P = self.point()
            blob, x = self.key()
            self.check_point(s(c, DERIV, ed.enc(P) + blob), cn.derivation(P, x), kind)
        elif kind == "d2s":
            blob, P = self.deriv()
            i = self.idx()
            self.check_handle(s(c, D2S, blob + u32(i)), cn.deriv_scalar(P, i), kind)
        elif kind == "dpub":
            blob, P = self.deriv()
            i, B = self.idx(), self.point()
            c.eq(s(c, DPUB, blob + u32(i) + ed.enc(B)), ed.enc(cn.derive_pub(P, i, B)), "derived public key", index=i)
        elif kind == "dsec":
            blob, P = self.deriv()
            i = self.idx()
            kb, x = self.key()
            self.check_handle(s(c, DSEC, blob + u32(i) + kb), cn.derive_sec(P, i, x), kind)
        elif kind == "ki":
            blob, x = self.handle()
            pub = ed.enc(ed.mulb(x)) if rng.random() < 0.8 else ed.enc(self.point())
            c.eq(s(c, KI, pub + blob), ed.enc(cn.key_image(x, pub)), "key image")
        elif kind == "add":
            x, y = scalar(rng), scalar(rng)
            c.eq(s(c, ADD, ed.scenc(x) + ed.scenc(y)), ed.scenc((x + y) % L), "sum of scalars")
            c.eq(s(c, SUB, ed.scenc(x) + ed.scenc(y)), ed.scenc((x - y) % L), "difference of scalars")
        elif kind == "keypair":
            r = s(c, KEYPAIR)
            c.eq(len(r), 64, "length of a key pair")
            self.new(r[:32], kind)
            c.eq(s(c, S2P, r[32:]), r[:32], "generated keys belong together")
        elif kind == "mulk":
            blob, x = self.handle()
            P = self.point()
            c.eq(s(c, MULK, ed.enc(P) + blob), ed.enc(ed.mul(P, x)), "point times protected secret")
        elif kind == "dsubpub":
            blob, P = self.deriv()
            i = self.idx()
            Q = self.point()
            c.eq(s(c, DSUBPUB, ed.enc(Q) + blob + u32(i)), ed.enc(ed.sub(Q, ed.mulb(cn.deriv_scalar(P, i)))), "subaddress key behind an output")
        elif kind == "gsub":
            ma, mi = (0, 0) if rng.random() < 0.15 else (self.idx(), self.idx())
            b = struct.pack("<II", ma, mi)
            D, C = cn.subaddr_pub(w.a, w.B, ma, mi)
            c.eq(s(c, GSUB, b), ed.enc(C) + ed.enc(D), "subaddress", index=(ma, mi))
            c.eq(s(c, GSUBPUB, b), ed.enc(D), "subaddress spend key", index=(ma, mi))
        elif kind == "gsubsec":
            blob, x = self.handle()
            ma, mi = self.idx(), self.idx()
            if (ma, mi) != (0, 0):
                self.check_handle(s(c, GSUBSEC, blob + struct.pack("<II", ma, mi)), cn.subaddr_m(x, ma, mi), kind)
        elif kind == "open":
            r = s(c, OPEN, u32(self.idx()))
            self.new(r[:32], kind)
            c.eq(s(c, S2P, r[32:]), r[:32], "transaction keys belong together")
        elif kind == "mode":
            m = rng.choice([1, 2])
            c.eq(s(c, MODE, bytes([m])), u32(m), "signature mode echoed")
            c.ok(s.refuses(MODE, bytes([rng.choice([0, 3, 4, 255])])), "unknown signature mode accepted")
            self.mode = m
        elif kind == "stealth":
            P, pid = self.point(), gen.rb(rng, 8)
            blob, x = self.key()
            k = keccak256(ed.enc(cn.derivation(P, x)) + b"\x8d")[:8]
            c.eq(s(c, STEALTH, ed.enc(P) + blob + pid), bytes(p ^ q for p, q in zip(pid, k)), "encrypted payment id")
        elif kind == "blind":
            blob, x = self.handle()
            k, v = scalar(rng), rng.getrandbits(64)
            k1 = cn.hs(ed.scenc(x))
            k2 = cn.hs(ed.scenc(k1))
            ev, ek = ed.scenc((v + k2) % L), ed.scenc((k + k1) % L)
            c.eq(s(c, BLIND, blob + ed.scenc(k) + ed.scenc(v)), ev + ek, "hidden amount and mask")
            c.eq(s(c, UNBLIND, blob + ek + ev), ed.scenc(v) + ed.scenc(k), "opened amount and mask")
        elif kind == "sign":
            self.sign_step()
        c.count("steps")

    def sign_step(self):
        """prepare, hash, sign: one ring row closed at its secret index"""
        c, s, rng = self.c, self.s, self.c.rng
        m = rng.choice([1, 2])
        s(c, MODE, bytes([m]))
        blob, x = self.handle()
        pub = ed.enc(ed.mulb(x))
        Hp = cn.hash_to_ec(pub)
        clear = m == 2
        r = s(c, MLSAG, ed.enc(Hp) + (ed.scenc(x) if clear else blob), p1=1, opt=0x40 if clear else 0)
        al, aG, aH, II = r[:32], r[32:64], r[64:96], r[96:]
        self.new(aG, "nonce")
        c.eq(II, ed.enc(ed.mul(Hp, x)), "key image of the signing row")
        c.eq(s(c, S2P, al), aG, "protected nonce and its public form")
        c.eq(s(c, MULK, ed.enc(Hp) + al), aH, "nonce times the hashed key")
        # nonce of a row without key image
        r = s(c, MLSAG, p1=1)
        c.eq(len(r), 64, "nonce without key image")
        self.new(r[32:], "nonce")
        c.eq(s(c, S2P, r[:32]), r[32:], "protected nonce and its public form")
        parts = [gen.rb(rng, 32) for _ in range(rng.randrange(1, 6))]
        # challenge over the parts; the first part with p2=1 is the validated message, which is not set here
        got = None
        # the hash starts afresh after a validation init
        s(c, VALIDATE, b"\x03\x00", p1=1, p2=1)
        pre = b"\x03\x00"
        for k, p in enumerate(parts):
            last = k == len(parts) - 1
            got = s(c, MLSAG, p, p1=2, opt=0 if last else MORE)
            if not last:
                c.eq(got, b"", "challenge before the last part")
        e = cn.hs(pre + b"".join(parts))
        c.eq(got, ed.scenc(e), "challenge")
        if clear:
            a = gen.rsc(rng)
            r = s(c, MLSAG, ed.scenc(x) + ed.scenc(a), p1=3)
            c.eq(r[:32], ed.scenc((a - e * x) % L), "response of a trial signature")
        else:
            r = s(c, MLSAG, blob + al, p1=3)
            z = int.from_bytes(r[:32], "little")
            c.ok(z < L, "response not reduced")
            # z*G + e*x*G = alpha*G
            c.eq(ed.enc(ed.add(ed.mulb(z), ed.mul(ed.dec(pub), e))), aG, "response of a signature")
            c.eq(ed.enc(ed.add(ed.mul(Hp, z), ed.mul(ed.dec(II), e))), aH, "response of a signature on the key image")
        c.eq(r[32:], u32(m), "mode with the signature")


STEPS = "getkey putkey verify verify prekey deriv deriv d2s dpub dsec dsec ki add keypair mulk dsubpub gsub gsubsec open mode stealth stealth blind sign".split()


def f_commands(c):
    """family 'commands': random command sequences against the model"""
    from monero_glue.xmr.sub.xmr_net import NetworkTypes as NT

    net = c.rng.choice([NT.MAINNET, NT.TESTNET, NT.STAGENET])
    w = gen.W(c.rng)
    m = Model(c, Ses(w, net), w)
    todo = sorted(set(STEPS))
    c.rng.shuffle(todo)
    n = 45 if c.backend == "tcry" else 8
    for k in range(n):
        m.step(todo[k] if k < len(todo) and c.backend == "tcry" else None)
        c.observed += 1


def f_bad(c):
    """family 'bad': malformed commands and handles of another session"""
    rng = c.rng
    w = gen.W(rng)
    s, o = Ses(w), Ses(w)
    m = Model(c, s, w)
    for k in ("deriv", "d2s", "dsec"):
        m.step(k)
    hb, hx = m.enc[-1]
    db, dp = m.der[-1]
    P = ed.enc(m.point())
    valid = [
        (VERIFY, bytes(32) + P, 0),
        (S2P, hb, 0),
        (DERIV, P + hb, 0),
        (D2S, db + u32(3), 0),
        (DPUB, db + u32(3) + P, 0),
        (DSEC, db + u32(3) + hb, 0),
        (KI, P + hb, 0),
        (ADD, bytes([1]) + bytes(63), 0),
        (SUB, bytes([1]) + bytes(63), 0),
        (MULK, P + hb, 0),
        (MULB, hb, 0),
        (DSUBPUB, P + db + u32(1), 0),
        (GSUB, bytes(8), 0),
        (GSUBPUB, bytes(8), 0),
        (GSUBSEC, hb + u32(1) + u32(1), 0),
        (OPEN, bytes(4), 0),
        (MODE, b"\1", 0),
        (STEALTH, P + hb + bytes(8), 0),
        (BLIND, hb + bytes(64), 0),
        (UNBLIND, hb + bytes(64), 0),
        (PUT_KEY, ed.scenc(w.a) + ed.enc(w.A) + ed.scenc(w.b) + ed.enc(w.B), 0),
    ]
    bad = next(x for x in iter(lambda: gen.rb(rng, 32), None) if ed.dec(x) is None and x[31] & 0x7F < 0x7F)
    for ins, data, p1 in valid:
        s(c, ins, data, p1=p1)
        cut = rng.randrange(len(data))
        c.ok(s.refuses(ins, data[:cut], p1), "truncated command answered", ins=hex(ins), length=cut)
        if P in data and ins != KI:  # a key image hashes the bytes
            c.ok(s.refuses(ins, data.replace(P, bad), p1), "string that is no point answered", ins=hex(ins))
        c.distinct("bad", ins, cut // 32)
        c.observed += 1
    for p1 in (0, 3, 255):
        c.ok(s.refuses(GET_KEY, b"", p1), "unknown parameter answered", p1=p1)
    c.ok(s.refuses(VERIFY, bytes(32) + P, 3), "unknown parameter answered")
    c.ok(s.refuses(VALIDATE, b"", 4) and s.refuses(MLSAG, b"", 4) and s.refuses(MLSAG, b"", 0), "unknown parameter answered")
    for ins in (0x21, 0x50, 0x99, 0xFF):
        c.ok(s.refuses(ins, P + P), "unknown command answered", ins=ins)
    # nothing returned in another session is worth anything there
    for blob, x in m.enc[-4:]:
        try:
            r = o.raw(S2P, data=blob)[1]
        except Exception:
            r = b""
        c.ok(r != ed.enc(ed.mulb(x)), "protected secret usable in another session")
        c.count("foreign_handles")
    for blob, D in m.der[-3:]:
        try:
            r = o.raw(DPUB, data=blob + u32(1) + P)[1]
        except Exception:
            r = b""
        c.ok(r != ed.enc(cn.derive_pub(D, 1, ed.dec(P))), "derivation usable in another session")
    # the same device started again is another session as well
    old = list(m.enc[-3:])

    class Msg:
        address_n = []
        network_type = s.net

    run(s.p.init(s.ctx, Msg))
    for blob, x in old:
        try:
            r = s.raw(S2P, data=blob)[1]
        except Exception:
            r = b""
        c.ok(r != ed.enc(ed.mulb(x)), "protected secret usable after the session was started again")
    c.observed += 1


# -- whole transactions ------------------------------------------------------------------------


class Stop(Exception):
    pass


def v(n):
    return cn.varint(n)


class Tx:
    """a wallet building a transaction with the commands only (inputs of the main address)"""

    def __init__(self, c, s, sc, dev_):
        self.c, self.s, self.sc, self.o = c, s, sc, dev_
        self.dev = {}

    def alt(self, where, i, val):
        """deviation hook"""
        f = self.dev.get(where)
        return f(i, val) if f else val

    def build(self):
        c, s, sc, rng = self.c, self.s, self.sc, self.c.rng
        w = sc.w
        r = s(c, OPEN, u32(sc.account))
        R, er = r[:32], r[32:]
        s(c, MODE, b"\1")
        sub = [d for d in sc.outs if d.is_sub and d is not sc.change_dst]
        if sub:
            R = s(c, MULK, sub[0].spend + er)
        keys, ak, ks, vs, C, masks = [], [], [], [], [], []
        for i, d in enumerate(sc.outs):
            mine = d is sc.change_dst
            D = s(c, DERIV, (R + bytes(32)) if mine else (d.view + er))
            ak.append(s(c, D2S, D + u32(i)))
            keys.append(s(c, DPUB, D + u32(i) + d.spend))
            mask = gen.rsc(rng)
            masks.append(mask)
            b = s(c, BLIND, ak[i] + ed.scenc(mask) + ed.scenc(d.amount))
            vs.append(b[:32])
            ks.append(b[32:])
            C.append(ed.enc(cn.commit(mask, d.amount)))
        self.masks = masks
        pidx = b""
        if sc.pid and len(sc.pid) == 8 and sc.integrated:
            pidx = s(c, STEALTH, sc.integrated.view + er + sc.pid)
        elif sc.pid:
            pidx = sc.pid
        # inputs
        ins = []
        for o, src in zip(sc.owned, sc.sources):
            D = s(c, DERIV, ed.enc(o.R) + bytes(32))
            x = s(c, DSEC, D + u32(o.oidx) + b"\xff" * 32)
            pub = s(c, S2P, x)
            c.eq(pub, ed.enc(o.P), "the device derives the key of an owned output")
            ki = s(c, KI, pub + x)
            c.eq(ki, o.ki, "key image of an owned output")
            ins.append((ki, x, o, src))
        ins.sort(key=lambda t: t[0], reverse=True)
        extra = b"\x01" + R
        if pidx:
            nonce = (b"\x01" if len(pidx) == 8 else b"\x00") + pidx
            extra += b"\x02" + v(len(nonce)) + nonce
        pre = v(2) + v(sc.unlock) + v(len(ins))
        for ki, x, o, src in ins:
            ab = [q[0] for q in src.outputs]
            offs = [ab[0]] + [ab[k + 1] - ab[k] for k in range(len(ab) - 1)]
            pre += b"\x02" + v(0) + v(len(offs)) + b"".join(v(q) for q in offs) + ki
        pre += v(len(keys)) + b"".join(v(0) + b"\x02" + k for k in keys) + v(len(extra)) + extra
        base = b"\x03" + v(sc.fee) + b"".join(k + a for k, a in zip(ks, vs)) + b"".join(C)
        bp = bpprove.prove(rng, [d.amount for d in sc.outs], masks)
        # validation
        n = len(keys)
        s(c, VALIDATE, b"\x03" + v(sc.fee), p1=1, p2=1)
        order = self.alt("order", None, list(range(n)))
        for pos, i in enumerate(order):
            d = sc.outs[i]
            msg = (
                bytes([int(d.is_sub)])
                + self.alt("view", i, d.view)
                + self.alt("spend", i, d.spend)
                + self.alt("ak", i, ak[i])
                + self.alt("C", i, C[i])
                + self.alt("k", i, ks[i])
                + self.alt("v", i, vs[i])
            )
            s(c, VALIDATE, msg, p1=2, p2=pos + 1, opt=0 if pos == len(order) - 1 else MORE)
        order2 = self.alt("order2", None, list(range(n)))
        for pos, i in enumerate(order2):
            s(c, VALIDATE, self.alt("C2", i, C[i]), p1=3, p2=pos + 1, opt=MORE)
        proof = keccak256(rtx.bp_bytes(bp))
        ph = keccak256(pre)
        H = s(c, VALIDATE, ph + proof, p1=3, p2=n + 1)
        c.eq(H, keccak256(ph + keccak256(base) + proof), "message to sign")
        if self.dev:
            return H  # deviating session: getting this far is the violation
        # pseudo commitments
        pm = [gen.rsc(rng) for _ in ins]
        pm[-1] = (sum(masks) - sum(pm[:-1])) % L
        pseudo = [ed.enc(cn.commit(m, t[2].amount)) for m, t in zip(pm, ins)]
        mgs = b""
        for (ki, x, o, src), m, P in zip(ins, pm, pseudo):
            mgs += self.mlsag(ki, x, o, src, m, ed.dec(P))
        prun = struct.pack("<I", 1) + bp.A + bp.S + bp.T1 + bp.T2 + bp.taux + bp.mu
        prun += v(len(bp.L)) + b"".join(bp.L) + v(len(bp.R)) + b"".join(bp.R) + bp.a + bp.b + bp.t + mgs + b"".join(pseudo)
        s(c, CLOSE)
        return pre + base + prun

    def mlsag(self, ki, x, o, src, pm, P):
        c, s, rng = self.c, self.s, self.c.rng
        ring = [(ed.dec(k.dest), ed.sub(ed.dec(k.mask), P)) for _, k in src.outputs]
        n, idx = len(ring), src.real_output
        z = (o.mask - pm) % L
        Hp = [cn.hash_to_ec(ed.enc(k)) for k, _ in ring]
        r = s(c, MLSAG, ed.enc(Hp[idx]) + x, p1=1)
        al, aG, aH, II = r[:32], r[32:64], r[64:96], r[96:]
        c.eq(II, ki, "key image when signing")
        a2 = gen.rsc(rng)
        ss = [None] * n

        def challenge(parts):
            parts = [bytes(32)] + parts
            out = b""
            for k, p in enumerate(parts):
                out = s(c, MLSAG, p, p1=2, p2=k + 1, opt=0 if k == len(parts) - 1 else MORE)
            return int.from_bytes(out, "little")

        cc = challenge([ed.enc(ring[idx][0]), aG, aH, ed.enc(ring[idx][1]), ed.enc(ed.mulb(a2))])
        i = (idx + 1) % n
        c0 = cc if i == 0 else None
        while i != idx:
            s1, s2 = gen.rsc(rng), gen.rsc(rng)
            ss[i] = (s1, s2)
            Lp = ed.add(ed.mulb(s1), ed.mul(ring[i][0], cc))
            Rp = ed.add(ed.mul(Hp[i], s1), ed.mul(ed.dec(ki), cc))
            L2 = ed.add(ed.mulb(s2), ed.mul(ring[i][1], cc))
            cc = challenge([ed.enc(ring[i][0]), ed.enc(Lp), ed.enc(Rp), ed.enc(ring[i][1]), ed.enc(L2)])
            i = (i + 1) % n
            if i == 0:
                c0 = cc
        r = s(c, MLSAG, x + al, p1=3)
        ss[idx] = (int.from_bytes(r[:32], "little"), (a2 - cc * z) % L)
        return b"".join(ed.scenc(p) + ed.scenc(q) for p, q in ss) + ed.scenc(c0)


def scen(c):
    rng = c.rng
    n_out = rng.choice([2, 2, 2, 3, 4]) if c.tier != "quick" else 2
    kind = rng.choice(["std", "std", "sub"])
    pid = b"" if kind == "sub" else rng.choice([b"", gen.rb(rng, 8), gen.rb(rng, 32)])
    # one transaction key: further outputs of a payment to a subaddress can only be change
    shape = [kind] + ["std"] * (n_out - 2) if kind == "std" else ["sub"]
    n_out = len(shape) + 1
    sc = gen.scenario(rng, n_in=rng.choice([1, 1, 2]), n_out=n_out, ring=rng.choice([2, 3]), account=0, shape=shape, pid=pid, change=True)
    while any(o.add_pubs or o.minor for o in sc.owned):
        sc.chain.out.clear()
        tot = [o.amount for o in sc.owned]
        sc.owned, sc.sources = [], []
        for a in tot:
            o = gen.owned_output(rng, sc.w, sc.chain, a, 0, 0, additionals=False)
            sc.owned.append(o)
            sc.sources.append(gen.source_entry(rng, sc.chain, o, sc.ring))
    sc.minors = [0]
    return sc


def scan_chk(c, sc, t):
    """found, opened, spendable by the recipients"""
    for i, d in enumerate(sc.outs):
        hit = dev.scan(t, d.wallet, {(d.major, d.minor), (0, 0)}).get(i)
        c.ok(hit is not None, "recipient cannot find its output", output=i, dst=repr(d))
        c.eq(hit[0], (d.major, d.minor), "output attributed to another address", output=i)
        op = dev.open_output(t, i, hit[1])
        c.ok(op is not None, "recipient cannot open its output", output=i)
        c.eq(op[0], d.amount, "amount received", output=i)
        c.eq(ed.enc(ed.mulb(hit[2])), t.vout[i].key, "recipient cannot spend its output")
        c.count("outputs_scanned")


def confirmed(c, s, sc, upto=None):
    exp = sorted((d.view, d.spend, d.amount) for d in sc.outs if d is not sc.change_dst)
    got = []
    for name, a, k in s.ui.outs:
        d = a[0]
        got.append((bytes(d.addr.view_public_key), bytes(d.addr.spend_public_key), int(d.amount)))
    return sorted(got), exp


def f_tx(c):
    """family 'tx': transactions built with the commands only"""
    sc = scen(c)
    s = Ses(sc.w)
    blob = Tx(c, s, sc, None).build()
    t = rtx.parse(blob)
    rings = [sc.chain.ring(x.key_offsets) for x in t.vin]
    bad = rtx.verify(t, rings)
    c.ok(not bad, "transaction built with the device is not valid", problems=bad)
    scan_chk(c, sc, t)
    if sc.pid and len(sc.pid) == 8 and sc.integrated:
        d = sc.integrated
        R = [x for k, x in rtx.parse_extra(t.extra) if k == 1][0]
        nonce = [x for k, x in rtx.parse_extra(t.extra) if k == 2][0]
        k = keccak256(ed.enc(cn.derivation(ed.dec(R), d.wallet.a)) + b"\x8d")[:8]
        c.eq(bytes(p ^ q for p, q in zip(nonce[1:], k)), sc.pid, "recipient decrypts the payment id")
    got, exp = confirmed(c, s, sc)
    c.eq(got, exp, "destinations put to the user")
    # a second transaction in the same session
    if c.idx % 3 == 0:
        s.ui.outs.clear()
        t2 = rtx.parse(Tx(c, s, sc, None).build())
        bad = rtx.verify(t2, [sc.chain.ring(x.key_offsets) for x in t2.vin])
        c.ok(not bad, "second transaction of a session is not valid", problems=bad)
        got, exp = confirmed(c, s, sc)
        c.eq(got, exp, "destinations of the second transaction put to the user")
        c.ok({x.key for x in t2.vout}.isdisjoint({x.key for x in t.vout}), "two transactions share output keys")
    c.distinct("tx", len(t.vin), len(t.vout), len(sc.pid), sc.outs[0].is_sub)
    c.count("transactions")
    c.sample(dict(inputs=len(t.vin), outputs=len(t.vout), pid=len(sc.pid), bytes=len(blob)))


def f_validate(c):
    """family 'validate': amounts, masks and commitments must be the ones the session produced"""
    rng = c.rng

    def other_scalar(i, b):
        return ed.scenc((int.from_bytes(b, "little") + rng.choice([1, L - 1, gen.rsc(rng)])) % L)

    def on(j, f):
        return lambda i, b: f(i, b) if i == j else b

    names = ["k", "v", "ak", "C", "C2", "both", "order2", "short2", "short", "long", "order", "double"]
    for name in names if c.tier != "quick" else rng.sample(names, 5):
        sc = scen(c)
        s = Ses(sc.w)
        tx = Tx(c, s, sc, None)
        n = len(sc.outs)
        j = rng.randrange(n)
        newC = lambda i, b: ed.enc(ed.add(ed.dec(b), ed.mulb(gen.rsc(rng))))
        if name in ("k", "v"):
            tx.dev[name] = on(j, other_scalar)
        elif name == "ak":
            tx.dev["ak"] = on(j, lambda i, b: bytes(rng.getrandbits(8) for _ in range(32)))
        elif name in ("C", "C2"):
            tx.dev[name] = on(j, newC)
        elif name == "both":
            # amount and commitment changed together: opens, but is not what was blinded
            d = rng.randrange(1, 1 << 40)
            tx.dev["v"] = on(j, lambda i, b: ed.scenc((int.from_bytes(b, "little") + d) % L))
            tx.dev["C"] = on(j, lambda i, b: ed.enc(ed.add(ed.dec(b), ed.mul(cn.H, d))))
            tx.dev["C2"] = tx.dev["C"]
        elif name == "order2":
            tx.dev["order2"] = lambda i, o: o[1:] + o[:1]
        elif name == "short2":
            tx.dev["order2"] = lambda i, o: o[:-1]
        elif name == "short":
            tx.dev["order"] = lambda i, o: o[:-1]
            tx.dev["order2"] = lambda i, o: o[:-1]
        elif name == "long":
            tx.dev["order"] = lambda i, o: o + [j]
            tx.dev["order2"] = lambda i, o: o + [j]
        elif name == "order":
            tx.dev["order"] = tx.dev["order2"] = lambda i, o: o[1:] + o[:1]
        elif name == "double":
            tx.dev["order"] = tx.dev["order2"] = lambda i, o: [o[0]] * len(o)
        try:
            tx.build()
            out = "message"
        except Exception as e:
            out = type(e).__name__
        c.ok(out != "message", "validation passes although the outputs differ from the ones the session produced", deviation=name)
        c.distinct("validate", name, out)
        c.count("deviations")
        c.observed += 1
    # the user refuses a destination
    sc = scen(c)
    s = Ses(sc.w)
    s.ui.answer = False
    tx = Tx(c, s, sc, None)
    tx.dev["nothing"] = None
    try:
        tx.build()
        out = "message"
    except Exception as e:
        out = type(e).__name__
    c.ok(out != "message", "validation passes although the user refused a destination")
    c.ok(len(s.ui.outs) == 1, "user asked again after refusing")
    # an address changed on the way is put to the user as it will be
    sc = scen(c)
    s = Ses(sc.w)
    tx = Tx(c, s, sc, None)
    j = next(i for i, d in enumerate(sc.outs) if d is not sc.change_dst)
    o = gen.W(rng)
    tx.dev["spend"] = on(j, lambda i, b: ed.enc(o.B))
    tx.build()
    c.ok(any(bytes(a[0].addr.spend_public_key) == ed.enc(o.B) for _, a, k in s.ui.outs), "destination shown differs from the one sent")
    # half an own address is a foreign one
    for half in ("view", "spend"):
        sc = scen(c)
        s = Ses(sc.w)
        tx = Tx(c, s, sc, None)
        j = next(i for i, d in enumerate(sc.outs) if d is not sc.change_dst)
        own = ed.enc(sc.w.A if half == "view" else sc.w.B)
        tx.dev[half] = on(j, lambda i, b: own)
        tx.build()
        c.ok(any(bytes(getattr(a[0].addr, half + "_public_key")) == own for _, a, k in s.ui.outs), "destination with one key of the wallet not put to the user", half=half)
        c.distinct("validate", "half", half)
    c.distinct("validate", "user")


FAMILIES = dict(
    commands=dict(fn=f_commands, quick={"tcry": 10, "py": 2}, thorough={"tcry": 150, "py": 12}, weight=2),
    bad=dict(fn=f_bad, quick=4, thorough=40, backends=("tcry",), weight=1),
    tx=dict(fn=f_tx, quick=8, thorough=60, backends=("tcry",), weight=2),
    validate=dict(fn=f_validate, quick=5, thorough=24, backends=("tcry",), weight=3),
)
