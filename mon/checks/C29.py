"""Symmetric encryption helpers: published ciphers, own nonces never reused, alterations refused."""

import os
import random

from .. import cross, gen
from ..ref import cn, ed, symm

RULE = (
    "messages of 0..600 bytes (and some of 5 kB, block boundaries +-1), random, constant and structured keys and associated data; every helper compared with an independent implementation of its cipher in both directions; every class of "
    "alteration (bit flips at any position, truncation at both ends, extension, swapped nonces or tags, shortened tags, other keys, other or moved associated data) must be refused by the authenticated modes; nonces collected "
    "over many calls, with reseeded random generators and in forked processes; every argument handed over as bytes and as a bytearray, compared afterwards; histories of related values (sharing parts, repeated, interleaved) in one process, each judged alone; distinct = (helper, length class, alteration)"
)
ASSUMPTIONS = [
    "CBC is judged with an explicit iv, the only use whose ciphertext can be decrypted",
    "the unauthenticated modes (plain ChaCha20, CBC, encrypt_xmr with authenticated=False) are judged for correctness only",
    "CryptoNight (pycryptonight, native) is judged by one published vector; keys derived from it otherwise enter the oracle as given",
    "unreduced private keys are not given to encrypt_xmr",
]

LENS = [0, 1, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]


def mlen(rng):
    return rng.choice([rng.choice(LENS), rng.choice(LENS), rng.randrange(600), rng.choice([4095, 4096, 5000]) if rng.random() < 0.1 else 40])


def message(rng, n):
    return rng.choice([gen.rb(rng, n), bytes(n), b"\xff" * n, (b"monero" * (n // 6 + 1))[:n]])


def key_(rng, n=32):
    return rng.choice([gen.rb(rng, n), gen.rb(rng, n), gen.rb(rng, n), bytes(n), b"\xff" * n, bytes(range(n))])


def aad_(rng):
    return rng.choice([None, b"", gen.rb(rng, rng.choice([1, 12, 15, 16, 17, 32, 100])), b"\x00"])


def cls(n):
    return 0 if n == 0 else 1 if n < 16 else 2 if n < 64 else 3 if n < 256 else 4


def alter_bytes(rng, b):
    """[(name, altered)] of a byte string, all different from it"""
    out = []
    if b:
        for _ in range(3):
            x = bytearray(b)
            x[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            out.append(("flip", bytes(x)))
        out += [("flip-first", bytes([b[0] ^ 1]) + b[1:]), ("flip-last", b[:-1] + bytes([b[-1] ^ 0x80]))]
        out += [("cut-last", b[:-1]), ("cut-first", b[1:]), ("empty", b"")]
        if len(b) > 1:
            out.append(("cut-many", b[: rng.randrange(len(b))]))
            i, j = rng.sample(range(len(b)), 2)
            x = bytearray(b)
            x[i], x[j] = x[j], x[i]
            out.append(("swap", bytes(x)))
        out.append(("zero", bytes(len(b))))
    out += [("ext", b + b"\x00"), ("ext-rand", b + gen.rb(rng, rng.choice([1, 8, 16]))), ("pre", b"\x00" + b)]
    return [(n, x) for n, x in out if x != b]


def refuse(c, fn, msg, pt=None, **d):
    """fn must raise (returning nothing at all)"""
    c.refused(fn, msg, **d)
    c.count("refused")


def fam_chacha_poly(c):
    from monero_glue.xmr.enc import chacha_poly as E

    rng = c.rng
    seen = set()
    for _ in range(8):
        k, n, aad = key_(rng), mlen(rng), aad_(rng)
        pt = message(rng, n)
        src = bytearray(pt)
        iv, ct, tag = E.encrypt(k, rng.choice([pt, src]), aad)
        c.eq(bytes(src), pt, "encryption altered its message")
        c.eq((len(iv), bytes(tag)), (12, b""), "nonce and tag lengths")
        c.ok(iv not in seen, "nonce reused", key="nonce")
        seen.add(iv)
        c.eq(bytes(ct), symm.aead_seal(k, iv, pt, aad or b""), "ChaCha20-Poly1305 ciphertext")
        c.eq(bytes(E.decrypt(k, iv, ct, aad)), pt, "decrypts to the original")
        # made by someone else
        nn = gen.rb(rng, 12)
        c.eq(bytes(E.decrypt(k, nn, symm.aead_seal(k, nn, pt, aad or b""), aad)), pt, "decrypts a published-cipher ciphertext")
        pk = bytes(E.encrypt_pack(k, pt, aad))
        c.ok(pk[:12] not in seen, "nonce reused", key="nonce")
        seen.add(pk[:12])
        c.eq(symm.aead_open(k, pk[:12], pk[12:], aad or b""), pt, "packed form is nonce, ciphertext, tag")
        c.eq(bytes(E.decrypt_pack(k, pk, aad) if aad else E.decrypt_pack(k, pk)), pt, "packed form decrypts to the original")
        c.count("round trips", 3)
        for nm, x in alter_bytes(rng, bytes(ct)):
            refuse(c, lambda: E.decrypt(k, iv, x, aad), "altered ciphertext decrypted", alteration=nm, ct=ct, altered=x)
            c.distinct("poly", "ct", nm, cls(n))
        for nm, x in alter_bytes(rng, iv) + [("other", nn)]:
            refuse(c, lambda: E.decrypt(k, x, ct, aad), "altered nonce accepted", alteration=nm, iv=iv, altered=x)
            c.distinct("poly", "iv", nm, cls(n))
        for nm, x in alter_bytes(rng, k) + [("other", gen.rb(rng, 32))]:
            refuse(c, lambda: E.decrypt(x, iv, ct, aad), "altered key accepted", alteration=nm)
            c.distinct("poly", "key", nm, cls(n))
        for nm, x in alter_bytes(rng, aad or b""):
            if (x or b"") != (aad or b""):
                refuse(c, lambda: E.decrypt(k, iv, ct, x or None), "altered associated data accepted", alteration=nm, aad=aad, altered=x)
                refuse(c, lambda: E.decrypt_pack(k, pk, x or None), "altered associated data accepted by the packed form", alteration=nm, aad=aad, altered=x)
                c.distinct("poly", "aad", nm, cls(n))
        for nm, x in alter_bytes(rng, pk):
            refuse(c, lambda: E.decrypt_pack(k, x, aad) if aad else E.decrypt_pack(k, x), "altered packed ciphertext decrypted", alteration=nm)
            c.distinct("poly", "pack", nm, cls(n))
        # moving a byte between ciphertext and associated data
        if aad and len(pt):
            refuse(c, lambda: E.decrypt(k, iv, ct[1:], aad + ct[:1]), "boundary between associated data and ciphertext moved")
        if len(k) == 32:
            for bad in (k[:31], k + b"\x00", k[:16], b""):
                refuse(c, lambda: E.encrypt(bad, pt), "key of another length accepted", length=len(bad))


def fam_buffers(c):
    """family 'buffers': whatever kind of buffer is handed over, it stays as it was and the answer is the same"""
    import pycryptonight

    from monero_glue.xmr import crypto
    from monero_glue.xmr.enc import aescbc, aesgcm, chacha, chacha_poly

    rng = c.rng
    a = gen.rsc(rng)
    priv = crypto.decodeint(ed.scenc(a))
    memo = {}
    raw = pycryptonight.cn_slow_hash

    def slow(d):
        d = bytes(d)
        if d not in memo:
            memo[d] = raw(d)
        return memo[d]

    def call(what, fn, *bufs):
        mk = rng.choice([bytes, bytearray, bytearray])
        given = [mk(b) for b in bufs]
        r = fn(*given)
        for i, (g, b) in enumerate(zip(given, bufs)):
            c.eq(bytes(g), b, "buffer of the caller changed", what=what, argument=i, kind=mk.__name__)
        c.count("buffers", len(bufs))
        c.distinct("buffers", what, mk.__name__, cls(len(bufs[-1])))
        return r

    chacha.pycryptonight.cn_slow_hash = slow
    try:
        for _ in range(6):
            n = mlen(rng)
            pt, k, aad = message(rng, n), key_(rng), aad_(rng) or b"\x00"
            ct = bytes(call("chacha.encrypt", chacha.encrypt, k, pt))
            c.eq(bytes(call("chacha.decrypt", chacha.decrypt, k, ct)), pt, "decrypts to the original")
            for au in (True, False):
                ct = bytes(call("encrypt_xmr", lambda p: chacha.encrypt_xmr(priv, p, au), pt))
                c.eq(bytes(call("decrypt_xmr", lambda p: chacha.decrypt_xmr(priv, p, au), ct)), pt, "decrypts to the original")
            iv, ct, tag = call("poly.encrypt", chacha_poly.encrypt, k, pt, aad)
            c.eq(bytes(call("poly.decrypt", chacha_poly.decrypt, k, bytes(iv), bytes(ct), aad)), pt, "decrypts to the original")
            pk = bytes(call("poly.encrypt_pack", chacha_poly.encrypt_pack, k, pt, aad))
            c.eq(bytes(call("poly.decrypt_pack", chacha_poly.decrypt_pack, k, pk, aad)), pt, "decrypts to the original")
            iv, ct, tag = call("gcm.encrypt", aesgcm.encrypt, k, pt, aad)
            c.eq(bytes(call("gcm.decrypt", aesgcm.decrypt, k, bytes(iv), bytes(ct), bytes(tag), aad)), pt, "decrypts to the original")
            pt, iv = message(rng, 16 * rng.choice([1, 2, 5])), key_(rng, 16)
            ct = bytes(call("cbc.encrypt", aescbc.encrypt, k, pt, iv))
            c.eq(bytes(call("cbc.decrypt", aescbc.decrypt, k, ct, iv)), pt, "decrypts to the original")
    finally:
        chacha.pycryptonight.cn_slow_hash = raw


def fam_aesgcm(c):
    from monero_glue.xmr.enc import aesgcm as E

    rng = c.rng
    seen = set()
    for _ in range(8):
        k, n, aad = key_(rng, rng.choice([16, 24, 32])), mlen(rng), aad_(rng)
        pt = message(rng, n)
        iv, ct, tag = E.encrypt(k, pt, aad)
        c.ok(iv not in seen, "nonce reused", key="nonce")
        seen.add(iv)
        c.ok(len(iv) >= 12, "nonce too short to be random", length=len(iv))
        c.eq(len(tag), 16, "tag length")
        c.eq((bytes(ct), bytes(tag)), symm.gcm_seal(k, iv, pt, aad or b""), "AES-GCM ciphertext and tag")
        c.eq(bytes(E.decrypt(k, iv, ct, tag, aad)), pt, "decrypts to the original")
        nn = gen.rb(rng, rng.choice([12, 16, 12, 32]))
        oc, ot = symm.gcm_seal(k, nn, pt, aad or b"")
        c.eq(bytes(E.decrypt(k, nn, oc, ot, aad)), pt, "decrypts a published-cipher ciphertext")
        c.count("round trips", 2)
        for nm, x in alter_bytes(rng, bytes(ct)):
            refuse(c, lambda: E.decrypt(k, iv, x, tag, aad), "altered ciphertext decrypted", alteration=nm)
            c.distinct("gcm", "ct", nm, cls(n))
        for nm, x in alter_bytes(rng, bytes(tag)) + [("short", bytes(tag[:i])) for i in (1, 4, 8, 12, 13, 14, 15)]:
            refuse(c, lambda: E.decrypt(k, iv, ct, x, aad), "altered tag accepted", alteration=nm, tag=tag, altered=x)
            c.distinct("gcm", "tag", nm, len(x) if nm == "short" else 0, cls(n))
        for nm, x in alter_bytes(rng, bytes(iv)) + [("other", nn)]:
            refuse(c, lambda: E.decrypt(k, x, ct, tag, aad), "altered nonce accepted", alteration=nm)
            c.distinct("gcm", "iv", nm, cls(n))
        for nm, x in alter_bytes(rng, k) + [("other", gen.rb(rng, 32))]:
            refuse(c, lambda: E.decrypt(x, iv, ct, tag, aad), "altered key accepted", alteration=nm)
            c.distinct("gcm", "key", nm, cls(n))
        for nm, x in alter_bytes(rng, aad or b""):
            if (x or b"") != (aad or b""):
                refuse(c, lambda: E.decrypt(k, iv, ct, tag, x or None), "altered associated data accepted", alteration=nm)
                c.distinct("gcm", "aad", nm, cls(n))
        if aad and len(pt):
            refuse(c, lambda: E.decrypt(k, iv, ct[1:], tag, aad + ct[:1]), "boundary between associated data and ciphertext moved")


def fam_aescbc(c):
    from monero_glue.xmr.enc import aescbc as E

    rng = c.rng
    for _ in range(20):
        k, iv = key_(rng, rng.choice([16, 24, 32])), key_(rng, 16)
        n = 16 * rng.choice([0, 1, 2, 3, 4, 10, 40])
        pt = message(rng, n)
        ct = bytes(E.encrypt(k, pt, iv))
        c.eq(ct, symm.cbc(k, iv, pt), "AES-CBC ciphertext")
        c.eq(bytes(E.decrypt(k, ct, iv)), pt, "decrypts to the original")
        c.eq(bytes(E.decrypt(k, pt, iv)), symm.cbc(k, iv, pt, False), "decrypts any blocks as the published cipher")
        m = gen.rb(rng, n + rng.randrange(1, 16))
        refuse(c, lambda: E.encrypt(k, m, iv), "partial block encrypted")
        refuse(c, lambda: E.decrypt(k, m, iv), "partial block decrypted")
        c.count("round trips", 2)
        c.distinct("cbc", len(k), n)


def fam_chacha(c):
    from monero_glue.xmr.enc import chacha as E

    rng = c.rng
    seen = set()
    for _ in range(10):
        k, n = key_(rng), mlen(rng)
        pt = message(rng, n)
        ct = bytes(E.encrypt(k, pt))
        c.eq(len(ct), n + 8, "length of nonce and ciphertext")
        c.ok(ct[:8] not in seen, "nonce reused", key="nonce")
        seen.add(ct[:8])
        c.eq(ct[8:], symm.chacha20(k, ct[:8], pt), "ChaCha20 ciphertext")
        c.eq(bytes(E.decrypt(k, ct)), pt, "decrypts to the original")
        nn = key_(rng, 8)
        c.eq(bytes(E.decrypt(k, nn + symm.chacha20(k, nn, pt))), pt, "decrypts a published-cipher ciphertext")
        c.count("round trips", 2)
        c.distinct("chacha", n)
    if c.idx == 0:
        c.eq(
            bytes(E.generate_key(bytes.fromhex("6465206f6d6e69627573206475626974616e64756d"))).hex(),
            "2f8e3df40bd11f9ac90c743ca8e32bb391da4fb98612aa3b6cdc639ee00b31f5",
            "CryptoNight of the published vector",
        )


def fam_xmr(c):
    """The wallet cipher: ChaCha20 under CryptoNight of the key, and a Schnorr signature over the ciphertext."""
    import pycryptonight

    from monero_glue.xmr import crypto
    from monero_glue.xmr.enc import chacha as E

    rng = c.rng
    memo = {}
    raw = pycryptonight.cn_slow_hash

    def slow(d):
        d = bytes(d)
        if d not in memo:
            memo[d] = raw(d)
        return memo[d]

    seen = set()
    a = gen.rsc(rng)
    priv = crypto.decodeint(ed.scenc(a))
    A = ed.mulb(a)
    E.pycryptonight.cn_slow_hash = slow
    try:
        for _ in range(4):
            n = mlen(rng)
            pt = message(rng, n)
            ct = bytes(E.encrypt_xmr(priv, pt))
            c.eq(len(ct), n + 72, "nonce, ciphertext and signature length")
            body, sig = ct[:-64], ct[-64:]
            c.ok(body[:8] not in seen, "nonce reused", key="nonce")
            seen.add(body[:8])
            c.eq(body[8:], symm.chacha20(slow(ed.scenc(a)), body[:8], pt), "ChaCha20 under CryptoNight of the private key")
            cc, r = int.from_bytes(sig[:32], "little"), int.from_bytes(sig[32:], "little")
            c.ok(cc < ed.L and r < ed.L, "signature scalars reduced")
            h = cn.keccak256(body)
            R = ed.add(ed.mul(A, cc), ed.mulb(r))
            c.eq(cn.hs(h + ed.enc(A) + ed.enc(R)), cc, "signature over the hash of the ciphertext verifies")
            c.ok(sig not in seen, "signature nonce reused")
            c.eq(bytes(E.decrypt_xmr(priv, ct)), pt, "decrypts to the original")
            un = bytes(E.encrypt_xmr(priv, pt, authenticated=False))
            c.ok(un[:8] not in seen, "nonce reused", key="nonce")
            seen.add(un[:8])
            c.eq(un[8:], symm.chacha20(slow(ed.scenc(a)), un[:8], pt), "unauthenticated form")
            c.eq(bytes(E.decrypt_xmr(priv, un, authenticated=False)), pt, "unauthenticated form decrypts")
            # by another implementation
            k = gen.rsc(rng)
            nb = gen.rb(rng, 8) + b""
            nb = nb + symm.chacha20(slow(ed.scenc(a)), nb, pt)
            c2 = cn.hs(cn.keccak256(nb) + ed.enc(A) + ed.enc(ed.mulb(k)))
            s2 = (k - c2 * a) % ed.L
            c.eq(bytes(E.decrypt_xmr(priv, nb + ed.scenc(c2) + ed.scenc(s2))), pt, "decrypts another implementation's file")
            c.count("round trips", 3)
            al = alter_bytes(rng, ct)
            for what, v in (("c+L", (cc + ed.L, r)), ("r+L", (cc, r + ed.L)), ("both+L", (cc + ed.L, r + ed.L)), ("c-neg", (ed.L - cc, r)), ("swap", (r, cc)), ("zero", (0, 0))):
                al.append((what, body + v[0].to_bytes(32, "little") + v[1].to_bytes(32, "little")))
            x = bytearray(ct)
            x[-33] |= 0x80
            al.append(("c-topbit", bytes(x)))
            x = bytearray(ct)
            x[-1] |= 0x80
            al.append(("r-topbit", bytes(x)))
            x = bytearray(ct)
            x[rng.randrange(8)] ^= 1
            al.append(("nonce", bytes(x)))
            al.append(("other-sig", body + gen.rb(rng, 31) + b"\x00" + gen.rb(rng, 31) + b"\x00"))
            al.append(("unauthenticated", un))
            for nm, x in al:
                if x != ct:
                    refuse(c, lambda: E.decrypt_xmr(priv, x), "altered file decrypted", alteration=nm, file=ct, altered=x)
                    c.distinct("xmr", nm, cls(n))
            for o in ((a + 1) % ed.L, ed.L - a, gen.rsc(rng)):
                refuse(c, lambda: E.decrypt_xmr(crypto.decodeint(ed.scenc(o)), ct), "decrypted with another key")
                c.distinct("xmr", "key", cls(n))
    finally:
        E.pycryptonight.cn_slow_hash = raw


def fam_nonces(c):
    """Nonces of many calls under one key, also with reseeded generators and across forked processes."""
    from monero_glue.xmr import crypto
    from monero_glue.xmr.enc import aesgcm, chacha, chacha_poly

    rng = c.rng
    k, pt = gen.rb(rng, 32), gen.rb(rng, 20)
    draws = {
        "chacha_poly": lambda: chacha_poly.encrypt(k, pt)[0],
        "chacha_poly.pack": lambda: chacha_poly.encrypt_pack(k, pt)[:12],
        "aesgcm": lambda: aesgcm.encrypt(k, pt)[0],
        "chacha": lambda: chacha.encrypt(k, pt)[:8],
    }
    for name, fn in sorted(draws.items()):
        seen = set()

        def take(n, how):
            for _ in range(n):
                v = bytes(fn())
                c.ok(v not in seen, "nonce reused under one key", key="nonce", helper=name, how=how)
                seen.add(v)

        take(150, "one after another")
        for _ in range(3):
            random.seed(1)
            take(20, "reseeded random")
        # forked processes draw on from the same state
        outs = []
        for _ in range(2):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.write(w, b"".join(bytes(fn()) for _ in range(10)))
                finally:
                    os._exit(0)
            os.close(w)
            b = b""
            while True:
                d = os.read(r, 4096)
                if not d:
                    break
                b += d
            os.close(r)
            os.waitpid(pid, 0)
            outs.append(b)
        ln = len(next(iter(seen)))
        for b in outs:
            c.eq(len(b), 10 * ln, "forked process drew its nonces")
            for i in range(10):
                v = b[i * ln : (i + 1) * ln]
                c.ok(v not in seen, "nonce reused under one key", key="nonce", helper=name, how="forked")
                seen.add(v)
        # every bit position varies (a counter or a constant part is no violation of uniqueness by itself, a short random part is)
        vary = 0
        vs = list(seen)
        for i in range(ln * 8):
            vary += len({(v[i // 8] >> (i % 8)) & 1 for v in vs}) == 2
        c.ok(vary >= 60, "too few bits of the nonce ever change", helper=name, varying=vary)
        c.count("nonces", len(seen))
        c.distinct("nonces", name)


FAMILIES = {
    "chacha_poly": dict(fn=fam_chacha_poly, quick=8, thorough=150),
    "aesgcm": dict(fn=fam_aesgcm, quick=6, thorough=120),
    "aescbc": dict(fn=fam_aescbc, quick=3, thorough=60),
    "buffers": dict(fn=fam_buffers, quick=3, thorough=60),
    "chacha": dict(fn=fam_chacha, quick=3, thorough=60),
    "xmr": dict(fn=fam_xmr, quick={"tcry": 6, "py": 2}, thorough={"tcry": 120, "py": 20}, backends=("tcry", "py")),
    "history": dict(fn=cross.c29, quick=4, thorough=80),
    "keys": dict(fn=cross.c29x, quick={"tcry": 3, "py": 1}, thorough={"tcry": 40, "py": 6}, backends=("tcry", "py")),
    "nonces": dict(fn=fam_nonces, quick=2, thorough=20),
}
