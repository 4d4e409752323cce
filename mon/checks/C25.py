"""Addresses encode and decode exactly and invalid ones are refused."""

from .. import cross, gen
from ..ref import b58m, cn, ed
from .C21 import P2, S2, int_of

RULE = (
    "block codec on byte strings of 0..90 bytes (random, zeros, 0xff, leading zeros) and hostile strings (wrong lengths, foreign symbols, every kind of overflowing block); addresses of all networks and kinds from "
    "every producer, decoded, and strings with substituted, inserted, deleted, swapped, case-changed symbols, valid checksums over wrong lengths or network bytes, aliased blocks; all judged by an independent codec. "
    "histories of related values (sharing parts, repeated, interleaved) in one process, each judged alone; distinct = (network, kind, alteration, verdict)"
)
ASSUMPTIONS = ["whether the keys of an address are valid curve points is not part of decoding an address here (Monero checks it too)"]

_all = {}


def pdec(s):
    from monero_glue.misc import b58_mnr

    try:
        r = b58_mnr.b58decode(data_bin=bytes(s)) if s else b58_mnr.b58decode("")
    except Exception:
        return None
    if r == "":
        return b""
    return bytes(r) if isinstance(r, (bytes, bytearray, list)) else None


def fam_blocks(c):
    from monero_glue.misc import b58_mnr

    rng = c.rng
    for _ in range(30):
        n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 40, 69, 77, rng.randrange(91)])
        b = rng.choice([gen.rb(rng, n), bytes(n), b"\xff" * n, bytes(n // 2) + gen.rb(rng, n - n // 2), gen.rb(rng, n)])
        if n:
            e = bytes(b58_mnr.b58encode(data_bin=b))
            c.eq(bytes(b58_mnr.b58encode(b.hex())), e, "hex and binary encodings differ")
            c.eq(e, b58m.encode(b), "base58 encoding", data=b)
            c.eq(pdec(e), b, "decode(encode(x))", data=b)
            c.eq(bytes(b58_mnr.b58decode(e.decode())), b, "string and binary decoding differ", data=b)
        c.count("encoded")
        # hostile strings
        k = rng.choice(["len", "sym", "over", "over", "over", "random", "max"])
        s = bytearray(b58m.encode(b))
        if k == "len":
            s = s[: rng.randrange(len(s) + 1)] if rng.random() < 0.5 else s + bytes([rng.choice(b58m.A)])
        elif k == "sym" and s:
            s[rng.randrange(len(s))] = rng.choice([c2 for c2 in range(256) if c2 not in b58m.IDX] + list(b"0OIl")) 
        elif k == "over":
            # a block with a value of at least 2^(8n), all borders
            m = rng.randrange(1, 9)
            lim = 1 << (8 * m)
            top = 58 ** b58m.SZ[m] - 1
            v = rng.choice([lim, lim + 1, lim - 1, min(top, lim + rng.getrandbits(16)), top, rng.randrange(lim, top + 1)])
            blk = b58m.enc_block_val(v, b58m.SZ[m])
            pre = b58m.encode(gen.rb(rng, 8 * rng.choice([0, 1, 2])))
            post = b58m.encode(gen.rb(rng, rng.choice([0, 1, 8]))) if m == 8 else b""
            s = bytearray(pre + blk + post)
        elif k == "random":
            s = bytearray(rng.choice(b58m.A) for _ in range(rng.randrange(100)))
        elif k == "max":
            s = bytearray(b"z" * rng.randrange(24))
        c.eq(pdec(bytes(s)), b58m.decode(bytes(s)), "verdict on a string: " + k, string=bytes(s).decode("latin1"))
        c.count("strings")
        c.distinct("block", k, len(s) % 11, b58m.decode(bytes(s)) is None)


def info(a):
    """AddrInfo -> tuple."""
    kind = 1 if a.is_integrated else 2 if a.is_sub_address else 0
    return a.net_type, kind, bytes(a.spend_key), bytes(a.view_key), None if a.payment_id is None else bytes(a.payment_id)


def pdecode(s, c=None):
    from monero_glue.xmr import monero

    try:
        a = monero.decode_addr(s)
    except Exception:
        return None
    return a


def judge(c, s, what, **w):
    exp = b58m.addr_decode(bytes(s))
    a = pdecode(bytes(s))
    got = None if a is None else info(a)
    c.eq(got, exp, what, string=bytes(s).decode("latin1"), **w)
    if a is not None:
        c.eq(bytes(a.addr), bytes(s), "re-encoding of a decoded address")
        c.eq(bytes(a.base_addr), b58m.addr_encode(b58m.TAGS[exp[0]][2 if exp[1] == 2 else 0], exp[2] + exp[3]), "base address of a decoded address")
    return exp


def mk(c, rng):
    net = rng.randrange(3)
    kind = rng.randrange(3)
    sp, vw = (ed.enc(ed.mulb(gen.rsc(rng))) for _ in range(2)) if rng.random() < 0.7 else (gen.rb(rng, 32), gen.rb(rng, 32))
    if rng.random() < 0.05:
        sp = bytes(32)
    pid = rng.choice([gen.rb(rng, 8), gen.rb(rng, 8), bytes(8), b"\xff" * 8]) if kind == 1 else None
    return net, kind, sp, vw, pid


def fam_addr(c):
    from monero_glue.xmr import monero

    rng = c.rng
    for _ in range(12):
        t = net, kind, sp, vw, pid = mk(c, rng)
        tag = b58m.TAGS[net][kind]
        exp = b58m.addr_encode(tag, sp + vw + (pid or b""))
        c.eq(bytes(monero.net_version(net, kind == 2, kind == 1)), bytes([tag]), "network byte")
        a1 = bytes(monero.encode_addr(bytes([tag]), sp, vw, pid))
        a2 = bytes(monero.public_addr_encode(monero.build_address(sp, vw), kind == 2, net, pid))
        c.eq(a1, exp, "encode_addr", net=net, kind=kind, pid=pid)
        c.eq(a2, exp, "public_addr_encode", net=net, kind=kind, pid=pid)
        c.ok(_all.setdefault(exp, t) == t, "two addresses share an encoding")
        e = judge(c, exp, "decoding of a valid address")
        c.eq(e, t, "independent codec broken")
        c.count("addresses")
        c.distinct("addr", net, kind)
    # not encodable
    sp, vw = gen.rb(rng, 32), gen.rb(rng, 32)
    pa = monero.build_address(sp, vw)
    c.refused(lambda: monero.public_addr_encode(pa, True, 0, gen.rb(rng, 8)), "integrated subaddress encoded")
    n = rng.choice([0, 1, 7, 9, 16, 32])
    c.refused(lambda: monero.public_addr_encode(pa, False, rng.randrange(3), gen.rb(rng, n)), "payment id of %d bytes encoded" % n)
    c.refused(lambda: monero.public_addr_encode(pa, False, rng.choice([3, 4, 255, -1])), "unknown network encoded")
    c.sample(dict(address=exp.decode(), net=net, kind=kind))


def alterations(rng, s):
    A = b58m.A
    k = rng.choice(["sub", "sub", "foreign", "ins", "del", "swap", "case", "multi", "block", "trunc", "ext", "space", "lead", "alias", "alias", "alias", "dup"])
    s = bytearray(s)
    i = rng.randrange(len(s))
    if k == "sub":
        s[i] = rng.choice([x for x in A if x != s[i]])
    elif k == "foreign":
        s[i] = rng.choice([x for x in range(256) if x not in b58m.IDX])
    elif k == "ins":
        s.insert(i, rng.choice(A))
    elif k == "del":
        del s[i]
    elif k == "swap":
        j = (i + 1) % len(s)
        s[i], s[j] = s[j], s[i]
    elif k == "case":
        s = bytearray(bytes(s[:i]) + bytes(s[i:]).swapcase())
    elif k == "multi":
        for _ in range(rng.randrange(2, 12)):
            s[rng.randrange(len(s))] = rng.choice(A)
    elif k == "block":
        b = 11 * rng.randrange(len(s) // 11)
        s[b : b + 11] = bytes(rng.choice(A) for _ in range(11))
    elif k == "trunc":
        s = s[: rng.randrange(len(s))]
    elif k == "ext":
        s += bytes(rng.choice(A) for _ in range(rng.choice([1, 2, 3, 11, 22])))
    elif k == "space":
        s = rng.choice([s + b" ", b" " + s, s + b"\n", s + b"\0"])
    elif k == "lead":
        s = rng.choice([b"1" + s, s[1:] + s[:1], s[11:] + s[:11]])
    elif k == "alias":
        # the same value modulo 2^64 (or 2^8n in the last block)
        nb = (len(s) + 10) // 11
        b = rng.randrange(nb)
        blk = s[11 * b : 11 * b + 11]
        m = b58m.INV[len(blk)]
        v = int.from_bytes(b58m.decode(bytes(blk)), "big")
        v2 = v + (1 << (8 * m))
        if v2 >= 58 ** len(blk):
            return None
        s[11 * b : 11 * b + 11] = b58m.enc_block_val(v2, len(blk))
    elif k == "dup":
        s = s + s
    return k, bytes(s)


def fam_alter(c):
    rng = c.rng
    net, kind, sp, vw, pid = mk(c, rng)
    if rng.random() < 0.5:
        # leading zero bytes of some 8-byte block make aliases possible
        sp = bytes([sp[0]]) * 7 + bytes(8) + sp[15:]
    s = b58m.addr_encode(b58m.TAGS[net][kind], sp + vw + (pid or b""))
    for _ in range(60):
        a = alterations(rng, s)
        if a is None:
            continue
        k, t = a
        if t == s:
            continue
        e = judge(c, t, "verdict on an altered address: " + k, original=s.decode())
        c.count("alterations")
        c.distinct("alter", k, kind, e is None)


def fam_checksum(c):
    """Correct checksum, wrong contents."""
    rng = c.rng
    for _ in range(40):
        k = rng.choice(["tag", "tag", "len", "len", "len", "kind", "sum"])
        net, kind, sp, vw, pid = mk(c, rng)
        p = sp + vw + (pid or b"")
        tag = b58m.TAGS[net][kind]
        if k == "tag":
            tag = rng.choice([rng.randrange(256), tag ^ (1 << rng.randrange(8)), tag + 1, tag - 1]) & 255
        elif k == "len":
            p = rng.choice([p[: rng.randrange(len(p))], p + gen.rb(rng, rng.choice([1, 7, 8, 9, 32, 64])), b"", p[:32], p[:63], p[:64], p[:65], p[:71], p + gen.rb(rng, 72 - min(72, len(p)))])
        elif k == "kind":
            tag = b58m.TAGS[net][rng.randrange(3)]
        s = b58m.addr_encode(tag, p)
        if k == "sum":
            b = bytes([tag]) + p
            ck = b58m.keccak256(b)
            s = b58m.encode(b + rng.choice([ck[:3] + bytes([ck[3] ^ (1 << rng.randrange(8))]), ck[1:5], ck[:4][::-1], ck[:3], ck[:5], bytes(4), bytes([ck[0] ^ 1]) + ck[1:4]]))
        e = judge(c, s, "verdict on a checksummed string: " + k, tag=tag, payload=len(p))
        c.count("checksummed")
        c.distinct("checksum", k, len(p), e is None)
        if k == "tag":
            c.distinct("tag", tag, kind)


def fam_account(c):
    """Addresses the wallet shows for its accounts and subaddresses."""
    from monero_glue.xmr import monero

    rng = c.rng
    a, b = gen.rsc(rng), gen.rsc(rng)
    net = rng.randrange(3)
    acc = monero.AccountCreds.new_wallet(S2(a), S2(b), net)
    A, B = ed.mulb(a), ed.mulb(b)
    main = b58m.addr_encode(b58m.TAGS[net][0], ed.enc(B) + ed.enc(A))
    c.eq(bytes(acc.address), main, "address of a new wallet")
    for ix in (None, (0, 0), (0, 1), (1, 0), (rng.randrange(2**32), rng.randrange(2**32)), (0, rng.randrange(1, 300)), (rng.randrange(1, 300), 0)):
        pid = gen.rb(rng, 8) if rng.random() < 0.3 else None
        sub = ix not in (None, (0, 0))
        D, C = cn.subaddr_pub(a, B, *(ix or (0, 0)))
        if sub and pid is not None:
            c.refused(lambda: monero.build_address_info(acc, ix, pid, net), "integrated subaddress built")
            continue
        ai = monero.build_address_info(acc, ix, pid, net)
        kind = 2 if sub else 1 if pid is not None else 0
        exp = b58m.addr_encode(b58m.TAGS[net][kind], ed.enc(D) + ed.enc(C) + (pid or b""))
        c.eq(bytes(ai.addr), exp, "address of an account index", index=ix, pid=pid)
        c.eq(info(ai), (net, kind, ed.enc(D), ed.enc(C), pid), "description of the address", index=ix)
        judge(c, ai.addr, "decoding the wallet's own address")
        # moving a decoded main address to an account/index
        i2 = monero.decode_addr(main)
        i2.recompute_sub(ed.enc(D), ed.enc(C), *(ix or (0, 0)))
        c.eq(bytes(i2.addr), b58m.addr_encode(b58m.TAGS[net][2 if sub else 0], ed.enc(D) + ed.enc(C)), "recomputed subaddress", index=ix)
        c.eq(bytes(i2.base_addr), bytes(i2.addr), "recomputed base address")
        c.count("account-addresses")
        c.distinct("account", net, kind, None if ix is None else (ix[0] != 0, ix[1] != 0))


FAMILIES = {
    "history": dict(fn=cross.c25, quick={"tcry": 4}, thorough={"tcry": 100}, backends=("tcry",)),
    "blocks": dict(fn=fam_blocks, quick={"tcry": 120}, thorough={"tcry": 6000}, backends=("tcry",), weight=1),
    "addr": dict(fn=fam_addr, quick={"tcry": 60, "py": 5}, thorough={"tcry": 3000, "py": 100}, backends=("tcry", "py"), weight=1),
    "alter": dict(fn=fam_alter, quick={"tcry": 100, "py": 4}, thorough={"tcry": 6000, "py": 100}, backends=("tcry", "py"), weight=1),
    "checksum": dict(fn=fam_checksum, quick={"tcry": 60, "py": 4}, thorough={"tcry": 4000, "py": 100}, backends=("tcry", "py"), weight=1),
    "account": dict(fn=fam_account, quick={"tcry": 60, "py": 4}, thorough={"tcry": 3000, "py": 100}, backends=("tcry", "py"), weight=1),
}
