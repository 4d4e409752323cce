"""Strict parser, hasher and consensus-style verifier for version-2 Monero transactions."""

import io

from . import cn, ed, sigs
from .ed import L
from .keccak import keccak256


class Bad(Exception):
    pass


class R:
    def __init__(self, b):
        self.b = bytes(b)
        self.o = 0

    def take(self, n):
        if self.o + n > len(self.b):
            raise Bad("truncated at %d (+%d)" % (self.o, n))
        r = self.b[self.o : self.o + n]
        self.o += n
        return r

    def byte(self):
        return self.take(1)[0]

    def varint(self):
        r = 0
        s = 0
        while True:
            c = self.byte()
            if c == 0 and s:
                raise Bad("non-canonical varint")
            r |= (c & 0x7F) << s
            s += 7
            if not c & 0x80:
                break
            if s > 63:
                raise Bad("varint overflow")
        if r >= 1 << 64:
            raise Bad("varint overflow")
        return r

    def end(self):
        return self.o == len(self.b)


class O:
    def __init__(self, **k):
        self.__dict__.update(k)

    def __repr__(self):
        return "O(%s)" % ", ".join("%s=%r" % i for i in self.__dict__.items())


def parse(blob):
    r = R(blob)
    t = O()
    t.version = r.varint()
    t.unlock_time = r.varint()
    t.vin = []
    for _ in range(r.varint()):
        ty = r.byte()
        if ty == 0xFF:
            t.vin.append(O(gen=r.varint()))
        elif ty == 2:
            amount = r.varint()
            offs = [r.varint() for _ in range(r.varint())]
            t.vin.append(O(amount=amount, key_offsets=offs, k_image=r.take(32)))
        else:
            raise Bad("txin type %d" % ty)
    t.vout = []
    for _ in range(r.varint()):
        amount = r.varint()
        ty = r.byte()
        if ty != 2:
            raise Bad("txout type %d" % ty)
        t.vout.append(O(amount=amount, key=r.take(32)))
    t.extra = r.take(r.varint())
    t.prefix = r.b[: r.o]
    if t.version == 1:
        t.v1_rest = r.b[r.o :]
        return t
    base0 = r.o
    t.rct_type = r.byte()
    nin, nout = len(t.vin), len(t.vout)
    if t.rct_type == 0:
        t.rct_base = r.b[base0 : r.o]
        if not r.end():
            raise Bad("trailing bytes")
        return t
    if t.rct_type not in (3, 4, 5):
        raise Bad("rct type %d" % t.rct_type)
    t.fee = r.varint()
    t.ecdh = []
    for _ in range(nout):
        if t.rct_type >= 4:
            t.ecdh.append(O(amount=r.take(8)))
        else:
            t.ecdh.append(O(mask=r.take(32), amount=r.take(32)))
    t.out_pk = [r.take(32) for _ in range(nout)]
    t.rct_base = r.b[base0 : r.o]
    pr0 = r.o
    nbp = int.from_bytes(r.take(4), "little") if t.rct_type == 3 else r.varint()
    t.bps = []
    for _ in range(nbp):
        bp = sigs.BP(V=None)
        for k in ("A", "S", "T1", "T2", "taux", "mu"):
            setattr(bp, k, r.take(32))
        bp.L = [r.take(32) for _ in range(r.varint())]
        bp.R = [r.take(32) for _ in range(r.varint())]
        for k in ("a", "b", "t"):
            setattr(bp, k, r.take(32))
        t.bps.append(bp)
    t.sig_off = r.o
    t.mgs = []
    t.clsags = []
    for i in range(nin):
        ring = len(t.vin[i].key_offsets)
        if t.rct_type == 5:
            t.clsags.append(O(s=[r.take(32) for _ in range(ring)], c1=r.take(32), D=r.take(32)))
        else:
            t.mgs.append(O(ss=[[r.take(32), r.take(32)] for _ in range(ring)], cc=r.take(32)))
    t.pseudo = [r.take(32) for _ in range(nin)]
    t.prunable = r.b[pr0 : r.o]
    if not r.end():
        raise Bad("trailing bytes: %d" % (len(r.b) - r.o))
    return t


def prefix_hash(t):
    return keccak256(t.prefix)


def tx_hash(t):
    return keccak256(keccak256(t.prefix) + keccak256(t.rct_base) + keccak256(t.prunable))


def bp_bytes(bp):
    return bp.A + bp.S + bp.T1 + bp.T2 + bp.taux + bp.mu + b"".join(bp.L) + b"".join(bp.R) + bp.a + bp.b + bp.t


def pre_mlsag_hash(t):
    return keccak256(keccak256(t.prefix) + keccak256(t.rct_base) + keccak256(b"".join(bp_bytes(b) for b in t.bps)))


TAGS = {0x00: "padding", 0x01: "pub", 0x02: "nonce", 0x03: "merge", 0x04: "add_pub", 0xDE: "minergate"}


def parse_extra(b):
    """[(tag, value)] ; raises Bad on malformed."""
    r = R(b)
    out = []
    while not r.end():
        tag = r.byte()
        if tag == 0:
            rest = r.take(len(r.b) - r.o)
            if any(rest) or len(rest) > 254:
                raise Bad("padding")
            out.append((0, rest))
        elif tag == 1:
            out.append((1, r.take(32)))
        elif tag == 2:
            n = r.varint()
            if n > 255:
                raise Bad("nonce len")
            out.append((2, r.take(n)))
        elif tag == 4:
            out.append((4, [r.take(32) for _ in range(r.varint())]))
        elif tag == 3:
            n = r.varint()
            out.append((3, r.take(n)))
        elif tag == 0xDE:
            out.append((0xDE, r.take(r.varint())))
        else:
            raise Bad("tag %d" % tag)
    return out


def _pt(b):
    p = ed.dec(b)
    if p is None:
        raise Bad("not a curve point: %s" % b.hex())
    return p


INV8 = pow(8, L - 2, L)


def verify(t, rings, max_bp_out=16):
    """rings: per input, {offset-resolved absolute index -> ...}: list of (dest bytes, commitment bytes)
    in ring order. Returns list of problems (empty = valid)."""
    bad = []
    if t.version != 2:
        bad.append("version %d" % t.version)
    if not t.vin or not t.vout:
        bad.append("empty vin/vout")
    if len(t.vout) < 2:
        bad.append("less than two outputs")
    last = None
    for i, v in enumerate(t.vin):
        if hasattr(v, "gen"):
            bad.append("coinbase input")
            continue
        if v.amount != 0:
            bad.append("input %d amount not hidden" % i)
        if len(v.key_offsets) != len(rings[i]) or len(v.key_offsets) < 2:
            bad.append("ring size %d" % i)
        if any(o == 0 for o in v.key_offsets[1:]):
            bad.append("duplicate ring member")
        if sum(v.key_offsets) >= 1 << 64:
            bad.append("offset overflow")
        try:
            ki = _pt(v.k_image)
            if not ed.in_prime_group(ki) or ed.is_id(ki):
                bad.append("key image %d not in the prime order group" % i)
        except Bad as e:
            bad.append(str(e))
        if last is not None and not v.k_image < last:
            bad.append("key images not strictly descending / duplicate")
        last = v.k_image
    keys = set()
    for i, v in enumerate(t.vout):
        if v.amount != 0:
            bad.append("output %d amount not hidden" % i)
        if ed.dec(v.key) is None:
            bad.append("output key %d not a point" % i)
        if v.key in keys:
            bad.append("duplicate output key")
        keys.add(v.key)
    try:
        parse_extra(t.extra)
    except Bad as e:
        bad.append("extra: %s" % e)
    if t.rct_type not in (3, 4, 5):
        bad.append("rct type %s" % t.rct_type)
        return bad
    try:
        outs = [_pt(x) for x in t.out_pk]
        ps = [_pt(x) for x in t.pseudo]
    except Bad as e:
        bad.append(str(e))
        return bad
    # amounts balance
    s = ed.ID
    for p in ps:
        s = ed.add(s, p)
    for p in outs:
        s = ed.sub(s, p)
    s = ed.sub(s, ed.mul(cn.H, t.fee))
    if not ed.is_id(s):
        bad.append("commitments do not balance")
    # range proofs
    if not t.bps:
        bad.append("no range proof")
    off = 0
    for k, bp in enumerate(t.bps):
        n = len(bp.L) - 6
        if n < 0 or len(bp.L) != len(bp.R) or n > 4:
            bad.append("range proof %d has wrong size" % k)
            break
        cap = 1 << n
        rest = len(outs) - off
        # the last proof may cover fewer outputs than its padded capacity
        cnt = min(cap, rest) if k == len(t.bps) - 1 else cap
        if cnt <= 0 or (cap > 1 and cnt <= cap // 2):
            bad.append("range proof %d covers nothing" % k)
            break
        bp.V = [ed.enc(ed.mul(p, INV8)) for p in outs[off : off + cnt]]
        off += cnt
        if not sigs.bp_verify(bp):
            bad.append("range proof %d invalid" % k)
    if off != len(outs) and not any("range proof" in b for b in bad):
        bad.append("range proofs cover %d of %d outputs" % (off, len(outs)))
    msg = pre_mlsag_hash(t)
    for i, v in enumerate(t.vin):
        if i >= len(ps) or hasattr(v, "gen"):
            continue
        try:
            ring = [(_pt(a), _pt(b)) for a, b in rings[i]]
            ki = _pt(v.k_image)
            if t.rct_type == 5:
                g = t.clsags[i]
                ok = sigs.clsag_verify(
                    msg, ring, ps[i], ki, _pt(g.D), [int.from_bytes(x, "little") for x in g.s], int.from_bytes(g.c1, "little")
                )
            else:
                g = t.mgs[i]
                ok = sigs.mlsag_simple_verify(
                    msg,
                    ring,
                    ps[i],
                    ki,
                    [[int.from_bytes(x, "little") for x in col] for col in g.ss],
                    int.from_bytes(g.cc, "little"),
                )
        except Bad as e:
            bad.append("input %d: %s" % (i, e))
            continue
        if not ok:
            bad.append("ring signature of input %d invalid" % i)
    return bad
