"""Hashing, key stretching and random generation follow their definitions."""

import hashlib

from .. import cross
from ..ref import cn, ed, keccak
from ..ref.ed import L

RULE = (
    "messages of every length around the block boundaries, random chunkings (empty chunks included), forks of a running hash by copy(), resets, "
    "hash-to-scalar with length limits, hash-to-point of all buffers, HMAC with short, block-sized and long keys, PBKDF2, the seeded generator and random draws; "
    "every result is compared with an independent Keccak/curve implementation. histories of related values (sharing parts, repeated, interleaved) in one process, each judged alone; distinct = (form, length class)"
)
ASSUMPTIONS = ["the pure-Python backend's password stretching uses HMAC-SHA-256 as it documents; the native one HMAC-Keccak-256"]

LENS = [0, 1, 2, 31, 32, 33, 63, 64, 65, 100, 133, 134, 135, 136, 137, 138, 200, 271, 272, 273, 300, 407, 408, 409, 544, 1000, 4096]


def chunks(rng, m):
    res = []
    i = 0
    while i < len(m):
        n = rng.choice([0, 1, 2, 7, 31, 32, 64, 135, 136, 137, 200, rng.randrange(1, 400)])
        res.append(m[i : i + n])
        i += n
    if rng.random() < 0.3:
        res.insert(rng.randrange(len(res) + 1), b"")
    return res


def msg(rng, i, backend):
    n = LENS[i % len(LENS)] if i < 2 * len(LENS) else rng.randrange(0, 700)
    if backend == "py" and n > 600:
        n = 600
    return rng.randbytes(n)


def fam_hash(c):
    from monero_glue.xmr import crypto

    rng = c.rng
    N = 120 if c.backend == "tcry" else 30
    for k in range(N):
        m = msg(rng, k + c.idx * 17, c.backend)
        exp = keccak.keccak256(m)
        c.distinct("len", len(m))
        form = rng.choice([bytes, bytearray])
        c.eq(bytes(crypto.keccak_hash(form(m))), exp, "one-shot hash", msg=m)
        c.eq(bytes(crypto.cn_fast_hash(form(m))), exp, "one-shot hash", msg=m)
        buf = bytearray(rng.randbytes(32))
        crypto.keccak_hash_into(buf, form(m))
        c.eq(bytes(buf), exp, "hash into a buffer", msg=m)
        if len(m) > 1:
            n = rng.randrange(1, len(m))
            buf = bytearray(32)
            crypto.keccak_hash_into(buf, form(m), n)
            c.eq(bytes(buf), keccak.keccak256(m[:n]), "hash of a limited length into a buffer", msg=m, n=n)
        c.eq(bytes(crypto.keccak_2hash(form(m))), keccak.keccak256(exp), "double hash", msg=m)
        # incremental, with forks
        h = crypto.get_keccak()
        if rng.random() < 0.3:
            pre = rng.randbytes(rng.randrange(1, 150))
            h = crypto.get_keccak(pre)
        else:
            pre = b""
        done = pre
        forks = []
        for ch in chunks(rng, m):
            if rng.random() < 0.25:
                forks.append((h.copy(), done))
            h.update(form(ch))
            done += ch
            if forks and rng.random() < 0.3:
                j = rng.randrange(len(forks))
                x = rng.randbytes(rng.choice([0, 1, 5, 136]))
                forks[j][0].update(x)
                forks[j] = (forks[j][0], forks[j][1] + x)
            c.count("updates")
        if rng.random() < 0.3:
            out = bytearray(b"\x01" * 32)
            h.digest(out)
            got = bytes(out)
        else:
            got = bytes(h.digest())
        c.eq(got, keccak.keccak256(done), "incremental hash", length=len(done))
        for f, d in forks:
            c.eq(bytes(f.digest()), keccak.keccak256(d), "hash of a copied state", length=len(d))
            c.count("forks")
        h = crypto.get_keccak(rng.randbytes(rng.randrange(0, 200)))
        h.reset()
        h.update(m)
        c.eq(bytes(h.digest()), exp, "hash after a reset", msg=m)
        # hash to scalar
        s = crypto.hash_to_scalar(form(m))
        c.eq(bytes(crypto.encodeint(s)), ed.scenc(cn.hs(m)), "hash to scalar", msg=m)
        t = crypto.decodeint(ed.scenc(rng.randrange(L)))
        crypto.hash_to_scalar_into(t, form(m))
        c.eq(bytes(crypto.encodeint(t)), ed.scenc(cn.hs(m)), "hash to scalar in place", msg=m)
        if len(m) > 1:
            n = rng.randrange(1, len(m))
            c.eq(bytes(crypto.encodeint(crypto.hash_to_scalar(form(m), n))), ed.scenc(cn.hs(m[:n])), "hash of a limited length to scalar", n=n)
            crypto.hash_to_scalar_into(t, form(m), n)
            c.eq(bytes(crypto.encodeint(t)), ed.scenc(cn.hs(m[:n])), "hash of a limited length to scalar in place", n=n)
        # HMAC
        key = rng.randbytes(rng.choice([0, 1, 16, 32, 64, 135, 136, 137, 200]))
        e = keccak.hmac_keccak256(key, m)
        c.eq(bytes(crypto.compute_hmac(key, m)), e, "HMAC", key=key, msg=m)
        hm = crypto.get_hmac(key)
        for ch in chunks(rng, m):
            hm.update(ch)
        hm2 = hm.copy()
        hm2.update(b"x")
        c.eq(bytes(hm.digest()), e, "incremental HMAC", key=key, msg=m)
        c.eq(bytes(hm2.digest()), keccak.hmac_keccak256(key, m + b"x"), "copied HMAC", key=key, msg=m)
        c.distinct("hmac", len(key), len(m))
        c.count("messages")


def fam_point(c):
    from monero_glue.xmr import crypto

    rng = c.rng
    for k in range(60 if c.backend == "tcry" else 12):
        m = rng.choice([rng.randbytes(32), ed.enc(ed.mulb(rng.randrange(L))), bytes(32), b"\xff" * 32, rng.randbytes(32)])
        form = bytes if c.backend == "py" or rng.random() < 0.7 else bytearray
        exp = ed.enc(cn.hash_to_ec(m))
        c.eq(bytes(crypto.encodepoint(crypto.hash_to_point(bytes(m)))), exp, "hash to point", msg=m)
        r = crypto.scalarmult_base(crypto.sc_init(3))
        crypto.hash_to_point_into(r, form(m))
        c.eq(bytes(crypto.encodepoint(r)), exp, "hash to point in place", msg=m)
        # the result is a full group element usable by other operations
        c.eq(bytes(crypto.encodepoint(crypto.point_double(r))), ed.enc(ed.dbl(ed.dec(exp))), "double of a hashed point", msg=m)
        c.eq(bytes(crypto.hmac_point(m, r)), keccak.hmac_keccak256(m, exp), "HMAC of a point")
        c.count("points")
        c.distinct("point", k)


def fam_stretch(c):
    from monero_glue.xmr import crypto

    rng = c.rng
    for _ in range(4):
        pw = rng.randbytes(rng.choice([0, 1, 8, 32, 136, 137, 150]))
        salt = rng.randbytes(rng.choice([0, 8, 32]))
        n = rng.choice([1, 16, 32, 33, 64, 80])
        cnt = rng.choice([1, 2, 10, 50])
        got = bytes(crypto.pbkdf2(pw, salt, n, cnt))
        exp = keccak.pbkdf2_keccak(pw, salt, n, cnt) if c.backend == "tcry" else hashlib.pbkdf2_hmac("sha256", pw, salt, cnt, n)
        c.eq(got, exp, "password stretching", pw=pw, salt=salt, length=n, count=cnt)
        c.count("stretched")
        c.distinct("pbkdf2", len(pw), len(salt), n, cnt)
    c.eq(len(bytes(crypto.pbkdf2(b"a", b"b", count=2))), 32, "default length")


def prng_def(seed, ctr):
    return keccak.keccak256(seed + ctr.to_bytes(32, "big"))


def fam_random(c):
    from monero_glue.xmr import common, crypto

    rng = c.rng
    # seeded generator
    for _ in range(8 if c.backend == "tcry" else 3):
        seed = rng.randbytes(rng.choice([0, 1, 32, 64, 200]))
        g = crypto.prng(seed)
        asks = [rng.choice([1, 8, 31, 32, 32, 33, 64, 96, 100]) for _ in range(8)]
        ctr = 0
        outs = []
        for a in asks:
            blocks = -(-a // 32)
            exp = b"".join(prng_def(seed, ctr + 1 + i) for i in range(blocks))[:a]
            ctr += blocks
            if rng.random() < 0.3:
                buf = bytearray(a)
                g.next(a, buf)
                got = bytes(buf)
            else:
                got = bytes(g.next(a))
            c.eq(got, exp, "seeded generator", seed=seed, ask=a)
            outs.append(got)
            c.count("generated_blocks", blocks)
        g.reset()
        c.eq([bytes(g.next(a)) for a in asks], outs, "generator after a reset differs")
        g2 = crypto.prng(seed)
        g2.rewind(32 * 3)
        c.eq(bytes(g2.next(32)), prng_def(seed, 4), "generator after skipping")
        other = rng.randbytes(32)
        g2.reset(other)
        c.eq(bytes(g2.next(32)), prng_def(other, 1), "generator with a new seed")
    # real randomness: no value ever twice, also over processes
    seen = set()
    n = 600 if c.backend == "tcry" else 300
    for _ in range(n):
        for v in (
            bytes(crypto.encodeint(crypto.random_scalar())),
            bytes(crypto.encodeint(crypto.random_scalar_into(crypto.new_scalar()))),
            bytes(crypto.random_bytes(32)),
            bytes(common.random_bytes(32)),
            bytes(crypto.random_bytes(16)),
        ):
            c.ok(v not in seen, "a random draw repeated", value=v)
            seen.add(v)
            c.count("draws")
    sc = [v for v in seen if len(v) == 32]
    for v in (bytes(crypto.encodeint(crypto.random_scalar())) for _ in range(50)):
        c.ok(0 < int.from_bytes(v, "little") < L, "random scalar out of range")
    # scalars fill the whole range (a generator with fewer bits would never reach the upper half)
    tops = sum(1 for _ in range(64) if int.from_bytes(bytes(crypto.encodeint(crypto.random_scalar())), "little") > L // 2)
    c.ok(2 <= tops <= 62, "random scalars are confined to one half of the range", upper=tops)
    for n in (0, 1, 31, 33, 64):
        c.eq(len(bytes(crypto.random_bytes(n))), n, "length of random bytes")
        c.eq(len(bytes(common.random_bytes(n))), n, "length of random bytes")
    c.distinct("random", len(sc) > 0)


FAMILIES = {
    "history": dict(fn=cross.c17, quick={"tcry": 3, "py": 2}, thorough={"tcry": 60, "py": 20}, backends=("tcry", "py")),
    "hash": dict(fn=fam_hash, quick={"tcry": 16, "py": 8}, thorough={"tcry": 600, "py": 200}, backends=("tcry", "py"), weight=1),
    "point": dict(fn=fam_point, quick={"tcry": 16, "py": 8}, thorough={"tcry": 400, "py": 100}, backends=("tcry", "py"), weight=1),
    "stretch": dict(fn=fam_stretch, quick={"tcry": 6, "py": 6}, thorough={"tcry": 60, "py": 60}, backends=("tcry", "py"), weight=1),
    "random": dict(fn=fam_random, quick={"tcry": 4, "py": 4}, thorough={"tcry": 40, "py": 20}, backends=("tcry", "py"), weight=1),
}
