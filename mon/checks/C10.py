"""Transaction keys can be recovered later, only by the wallet owner."""

import copy

from .. import dev, gen, mut, refdev
from ..harness import run
from ..ref import cn, ed, tx as rtx
from ..ref.ed import L

RULE = (
    "signed transfers of random shapes; the returned sealed material is opened by an independent implementation with spend key, prefix hash and salts and "
    "every scalar is matched, in output order, with the public keys in the transaction extra; the code's own key computation and unsealing must open it too and "
    "must fail after any alteration (each byte of the sealed data; salts, hash, wallet). Host recovery runs against a reference device whose answers are "
    "altered field by field. distinct = (shape) and (field, alteration) keys"
)
ASSUMPTIONS = ["an altered answer that makes the host return exactly the right keys is not a violation (zero padding of a salt)"]


def make(c, cfg=None, **kw):
    s = gen.scenario(c.rng, **kw)
    cfg = cfg or dev.pick_cfg(c.rng, len(s.outs))
    r = dev.sign(s, cfg)
    return s, r


def expect_keys(c, s, t, plain):
    """checks the opened scalars against the transaction"""
    c.ok(len(plain) % 32 == 0 and plain, "sealed keys have no whole number of scalars", length=len(plain))
    ks = [int.from_bytes(plain[i : i + 32], "little") for i in range(0, len(plain), 32)]
    f = rtx.parse_extra(t.extra)
    R = [v for k, v in f if k == 1][0]
    adds = [v for k, v in f if k == 4]
    adds = adds[0] if adds else []
    c.eq(len(ks), 1 + len(adds), "number of sealed keys")
    c.ok(all(0 < k < L for k in ks), "sealed key not reduced")
    chg = (s.change_dst.spend, s.change_dst.view) if s.change_dst else None
    bases = [ed.B] + [ed.dec(d.spend) for d in s.outs if d.is_sub and (d.spend, d.view) != chg]
    c.ok(any(ed.enc(ed.mul(b, ks[0])) == R for b in bases), "sealed transaction key does not produce the transaction's public key")
    if not adds:
        subs = {(d.spend, d.view) for d in s.outs if d.is_sub and (d.spend, d.view) != chg}
        if len(subs) == 1:
            c.eq(ed.enc(ed.mul(ed.dec(list(subs)[0][0]), ks[0])), R, "transaction key of a single subaddress recipient")
        else:
            c.eq(ed.enc(ed.mulb(ks[0])), R, "transaction key")
    for i, (k, A) in enumerate(zip(ks[1:], adds)):
        d = s.outs[i]
        exp = [ed.enc(ed.mul(ed.dec(d.spend), k))] if d.is_sub else [ed.enc(ed.mulb(k))]
        c.ok(A in exp, "sealed additional key does not produce the additional public key of its output", output=i, dst=repr(d))
        c.count("additional_keys")
    c.count("keys_opened", len(ks))
    return ks


def shape(c):
    r = c.rng.random()
    if r < 0.4:
        return dict(shape=[c.rng.choice(["sub", "std", "own_sub"]) for _ in range(c.rng.choice([2, 3]))] + ["sub"], n_in=1, ring=2, change=c.rng.choice([True, False]), pid=b"")
    return dict(n_in=c.rng.choice([1, 2]), ring=2)


def fix(kw):
    if "shape" in kw:
        kw["n_out"] = len(kw["shape"]) + (1 if kw["change"] is True else 0)
    return kw


def fam_seal(c):
    from monero_glue.hwtoken import misc
    from monero_glue.xmr import crypto
    from monero_glue.xmr.enc import chacha_poly

    s, r = make(c, **fix(shape(c)))
    ct = r.ct
    t = rtx.parse(r.blob)
    c.eq(bytes(ct.tx_prefix_hash), rtx.prefix_hash(t), "prefix hash kept by the host")
    e, s1, s2, ph = bytes(ct.enc_keys), bytes(ct.enc_salt1), bytes(ct.enc_salt2), rtx.prefix_hash(t)
    plain = refdev.unpack(refdev.device_key(s.w.b, ph, s1, s2), e)
    c.ok(plain is not None, "sealed key material cannot be opened", case=gen.describe(s))
    expect_keys(c, s, t, plain)
    c.ok(len(s1) >= 16 and len(s2) == 32, "salt lengths", s1=s1, s2=s2)
    c.distinct("shape", gen.shape_key(s), r.cfg)

    # the code's own way of opening, as the device does it later
    def open_own(b, ph, s1, s2, e):
        k, o1, o2 = misc.compute_tx_key(crypto.decodeint(ed.scenc(b)), ph, s1, s2)
        c.eq((bytes(o1), bytes(o2)), (s1, s2), "salts given are not the salts used")
        return bytes(chacha_poly.decrypt_pack(bytes(k), e))

    c.eq(open_own(s.w.b, ph, s1, s2, e), plain, "sealed material does not open with the recorded salts")
    rng = c.rng

    def bad(what, *a):
        c.observed += 1
        c.count("alterations")
        c.distinct("seal", what)
        try:
            x = open_own(*a)
        except Exception:
            return
        c.fail("altered recovery material opens", what=what, opened=x)

    for i in range(len(e)):
        bad("data%d" % min(i, 40), s.w.b, ph, s1, s2, e[:i] + bytes([e[i] ^ (1 << rng.randrange(8))]) + e[i + 1 :])
    for n in (1, 16, 32, len(e) - 12, len(e)):
        bad("trunc", s.w.b, ph, s1, s2, e[: len(e) - n])
    bad("ext", s.w.b, ph, s1, s2, e + b"\0")
    for _ in range(12):
        i = rng.randrange(32)
        f = lambda x: x[:i] + bytes([x[i] ^ (1 << rng.randrange(8))]) + x[i + 1 :]
        bad("hash", s.w.b, f(ph), s1, s2, e)
        bad("salt", s.w.b, ph, f(s1), s2, e)
        bad("rand_mult", s.w.b, ph, s1, ed.scenc(int.from_bytes(s2, "little") + 1 + rng.randrange(1 << 200)), e)
        bad("wallet", (s.w.b + rng.randrange(1, L)) % L, ph, s1, s2, e)
    bad("view key", s.w.a, ph, s1, s2, e)
    bad("swap", s.w.b, ph, s2, s1, e)
    bad("host key only", 0, ph, s1, s2, e)


def fam_peer(c):
    from monero_glue.xmr import crypto

    rng = c.rng
    s, r = make(c, **fix(shape(c)))
    t = rtx.parse(r.blob)
    ct = r.ct
    ph = rtx.prefix_hash(t)
    s2, r2 = make(c, wallet=s.w, n_in=1, n_out=2, ring=2)
    plain = refdev.unpack(refdev.device_key(s.w.b, ph, ct.enc_salt1, ct.enc_salt2), ct.enc_keys)
    c.ok(plain is not None, "sealed key material cannot be opened")
    ks = expect_keys(c, s, t, plain)
    rd = refdev.RefDevice(rng, s.w)
    a = dev.agent(dev.Wire(r.dev))
    wire = a.trezor
    wire.peer["get_tx_key"] = rd.get_tx_key
    view = lambda: crypto.decodeint(ed.scenc(s.w.a))
    # proofs are made for recipients, which may be subaddresses
    V = rng.choice([ed.dec(d.view) for d in s.outs] + [s.w.A])

    def keys(ct=ct, ph=ph):
        x = run(a.get_tx_key(ct.enc_salt1, ct.enc_salt2, ct.enc_keys, ph, view()))
        return [int.from_bytes(bytes(crypto.encodeint(k)), "little") for k in x]

    def derivs(ct=ct, ph=ph):
        x = run(a.get_tx_deriv(ct.enc_salt1, ct.enc_salt2, ct.enc_keys, ph, view(), ed.enc(V)))
        return [bytes(crypto.encodepoint(k)) for k in x]

    expd = [ed.enc(ed.mul(V, k)) for k in ks]
    c.eq(keys(), ks, "recovered transaction keys")
    c.eq(derivs(), expd, "recovered key derivations")
    c.count("host_recoveries", 2)
    m = rd.log[-1]
    c.eq((bytes(m.salt1), bytes(m.salt2), bytes(m.tx_enc_keys), bytes(m.tx_prefix_hash)), (bytes(ct.enc_salt1), bytes(ct.enc_salt2), bytes(ct.enc_keys), ph), "recovery request")
    # altered answers
    first = {}

    def hook(i, method, req, res):
        first["res"] = copy.deepcopy(res)
        return first["mut"](res)

    old = []
    for other in (0, 1):
        first["mut"] = lambda x: x
        wire.res_hook = hook
        run_ = keys if other == 0 else derivs
        run_(r2.ct, rtx.prefix_hash(rtx.parse(r2.blob)))
        old.append(first["res"])
    for fn, exp, kind in ((keys, ks, 0), (derivs, expd, 1)):
        wire.res_hook = hook
        first["mut"] = lambda x: x
        fn()
        base = first["res"]
        muts = mut.mutations(rng, base, [("other-tx", old[kind]), ("repeat", base)])
        field = "tx_keys" if kind == 0 else "tx_derivations"
        L0 = len(getattr(base, field))

        def flip(x, i):
            x = copy.deepcopy(x)
            b = bytearray(getattr(x, field))
            b[i] ^= 1 << rng.randrange(8)
            setattr(x, field, bytes(b))
            return x

        for i in range(0, L0, 7):
            muts.append((field + ":byte", lambda x, i=i: flip(x, i)))
        muts.append(("failure", lambda x: dev.mods()[1] and __import__("monero_glue.messages", fromlist=["x"]).Failure(message="no")))
        for desc, f in muts:
            first["mut"] = f
            c.observed += 1
            c.count("altered_answers")
            c.distinct("answer", desc, kind)
            try:
                x = fn()
            except Exception:
                c.count("altered_answers_refused")
                continue
            c.ok(x == exp, "host recovered wrong keys from an altered answer", alteration=desc, got=x, expected=exp)
            c.count("altered_answers_harmless")
        wire.res_hook = None
    # altered requests: the wrong material never yields keys
    from types import SimpleNamespace

    for what in ("enc_salt1", "enc_salt2", "enc_keys", "ph"):
        n = SimpleNamespace(enc_salt1=bytes(ct.enc_salt1), enc_salt2=bytes(ct.enc_salt2), enc_keys=bytes(ct.enc_keys))
        p2 = ph
        if what == "ph":
            p2 = ph[:7] + bytes([ph[7] ^ 4]) + ph[8:]
        else:
            v = getattr(n, what)
            setattr(n, what, v[:5] + bytes([v[5] ^ 16]) + v[6:])
        for fn in (keys, derivs):
            c.observed += 1
            try:
                fn(n, p2)
            except Exception:
                continue
            c.fail("keys recovered from altered material", what=what)
    # the wrong wallet cannot
    w2 = gen.W(rng)
    rd2 = refdev.RefDevice(rng, w2)
    wire.peer["get_tx_key"] = rd2.get_tx_key
    c.refused(keys, "keys recovered by another wallet")
    wire.peer["get_tx_key"] = rd.get_tx_key
    sv = s.w.a
    s.w.a = w2.a
    try:
        rd.w = copy.copy(s.w)
        rd.w.a = sv
        c.refused(keys, "keys recovered with another view key")
    finally:
        s.w.a = sv
    c.sample(dict(case=gen.describe(s), keys=len(ks)))


FAMILIES = {
    "seal": dict(fn=fam_seal, quick={"tcry": 24, "py": 1}, thorough={"tcry": 300, "py": 6}, backends=("tcry", "py"), weight=2),
    "peer": dict(fn=fam_peer, quick=16, thorough=160, backends=("tcry",), weight=3),
}
