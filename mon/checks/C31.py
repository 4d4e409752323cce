"""Transaction extra and ring references are encoded and parsed exactly."""

from .. import gen
from ..harness import run
from ..ref import cn, ed
from ..ref import tx as T

RULE = (
    "extras built by random sequences of the add functions (tx key, additional keys, nonce of 0..255 bytes) on empty and existing extras, parsed by the code and by an independent parser; extras of every field kind in any "
    "order encoded independently and parsed from bytes, bytearray and list; removal of each field kind; truncated, extended and mutated extras (agreement with the strict parser); payment-id nonces of all lengths and kinds; "
    "payment-id encryption against its definition; view key of the recipient; ring references. distinct = (kinds of fields, family, verdict)"
)
ASSUMPTIONS = [
    "padding fields are parsed by the serialization library, which drops their zero bytes when rewriting: not compared after removal",
    "a merge-mining field is read by the library field by field (its length prefix is not a bound); only well-formed ones are compared",
    "padding above 255 bytes, non-canonical lengths: not judged",
    "view key when there is no recipient beside the change: null or the change's",
]

KIND = {}


def kinds():
    from monero_serialize import xmrtypes as t

    if not KIND:
        KIND.update({0: t.TxExtraPadding, 1: t.TxExtraPubKey, 2: t.TxExtraNonce, 3: t.TxExtraMergeMiningTag, 4: t.TxExtraAdditionalPubKeys, 0xDE: t.TxExtraMysteriousMinergate})
    return KIND


def enc(f):
    t, v = f
    if t == 0:
        return bytes(1 + v)
    if t == 1:
        return b"\x01" + v
    if t in (2, 0xDE):
        return bytes([t]) + cn.varint(len(v)) + v
    if t == 3:
        body = cn.varint(v[0]) + v[1]
        return b"\x03" + cn.varint(len(body)) + body
    return b"\x04" + cn.varint(len(v)) + b"".join(v)


def view(fields):
    """what the code's parser returned, as (tag, value)"""
    out = []
    inv = {v: k for k, v in kinds().items()}
    for f in fields:
        t = inv[type(f)]
        if t == 0:
            v = f.size - 1
        elif t == 1:
            v = bytes(f.pub_key)
        elif t == 2:
            v = bytes(f.nonce)
        elif t == 0xDE:
            v = bytes(f.data)
        elif t == 3:
            v = (f.depth, bytes(f.merkle_root))
        else:
            v = [bytes(x) for x in f.data]
        out.append((t, v))
    return out


def code_parse(b):
    from monero_glue.xmr.sub import tsx_helper

    return view(run(tsx_helper.parse_extra_fields(b)))


def ref_parse(b):
    out = []
    for t, v in T.parse_extra(b):
        if t == 0:
            v = len(v)
        elif t == 3:
            r = T.R(v)
            d = r.varint()
            v = (d, r.take(32))
            if not r.end():
                raise T.Bad("mm length")
        out.append((t, v))
    return out


def rand_field(rng, last):
    t = rng.choice([1, 1, 2, 2, 4, 4, 3, 0xDE] + ([0] if last else []))
    if t == 0:
        return (0, rng.choice([0, 1, 5, 200, 254]))
    if t == 1:
        return (1, gen.rb(rng, 32))
    if t == 2:
        n = rng.choice([0, 1, 9, 33, 33, 9, 127, 128, 200, 255, rng.randrange(256)])
        return (2, gen.rb(rng, n))
    if t == 3:
        return (3, (rng.choice([0, 1, 127, 128, rng.getrandbits(32)]), gen.rb(rng, 32)))
    if t == 4:
        return (4, [gen.rb(rng, 32) for _ in range(rng.choice([0, 1, 2, 16, 17, 130 if rng.random() < 0.2 else 3]))])
    return (0xDE, gen.rb(rng, rng.choice([0, 1, 40, 130])))


def rand_fields(rng):
    n = rng.choice([0, 1, 2, 2, 3, 3, 4, 6, 9])
    return [rand_field(rng, i == n - 1) for i in range(n)]


def f_build(c):
    """family 'build': the add functions against the parsers"""
    from monero_glue.xmr import crypto, monero
    from monero_glue.xmr.sub import tsx_helper as H

    rng = c.rng
    for _ in range(8):
        fs = [] if rng.random() < 0.5 else [f for f in rand_fields(rng) if f[0] != 0]
        x = b"".join(map(enc, fs))
        if rng.random() < 0.3:
            x = bytearray(x)
        for _ in range(rng.randrange(1, 6)):
            k = rng.choice(["pub", "nonce", "add", "addenc", "pid", "epid"])
            pt = lambda: ed.mulb(gen.rsc(rng))
            if k == "pub":
                e = ed.enc(pt())
                x = H.add_tx_pub_key_to_extra(x, crypto.decodepoint(e))
                fs.append((1, e))
            elif k in ("add", "addenc"):
                es = [ed.enc(pt()) for _ in range(rng.choice([1, 1, 2, 3, 16]))]
                x = run(H.add_additional_tx_pub_keys_to_extra(x, additional_pub_keys=[crypto.decodepoint(e) for e in es]) if k == "add" else H.add_additional_tx_pub_keys_to_extra(x, pub_enc=es))
                fs.append((4, es))
            else:
                if k == "pid":
                    p = gen.rb(rng, 32)
                    n = H.set_payment_id_to_tx_extra_nonce(p)
                    c.eq(bytes(n), b"\0" + p, "nonce of a plain payment id")
                elif k == "epid":
                    p = gen.rb(rng, 8)
                    n = H.set_encrypted_payment_id_to_tx_extra_nonce(p)
                    c.eq(bytes(n), b"\1" + p, "nonce of an encrypted payment id")
                else:
                    n = gen.rb(rng, rng.choice([0, 1, 9, 33, 126, 127, 128, 129, 254, 255, rng.randrange(256)]))
                x = H.add_extra_nonce_to_tx_extra(x, n)
                fs.append((2, bytes(n)))
        c.eq(bytes(x), b"".join(map(enc, fs)), "built extra", fields=[f[0] for f in fs])
        c.eq(ref_parse(x), fs, "built extra, parsed independently", fields=[f[0] for f in fs])
        c.eq(code_parse(x), fs, "built extra, parsed by the code", fields=[f[0] for f in fs])
        parsed = run(monero.parse_extra_fields(x))
        for t, cls in kinds().items():
            own = [f for f in fs if f[0] == t]
            for i in range(len(own) + 1):
                g = H.find_tx_extra_field_by_type(parsed, cls, i)
                c.eq(view([g])[0] if g is not None else None, own[i] if i < len(own) else None, "field %d of kind %d" % (i, t), fields=[f[0] for f in fs])
        g = H.find_tx_extra_field_by_type(parsed, kinds()[1])
        c.eq(g is None, not any(f[0] == 1 for f in fs), "default index is the first field")
        c.count("built")
        c.distinct("build", tuple(f[0] for f in fs))
    c.refused(lambda: H.add_extra_nonce_to_tx_extra(b"", gen.rb(rng, rng.choice([256, 300, 1000]))), "nonce above 255 bytes")
    c.count("extras", 8)


def f_parse(c):
    """family 'parse': independently encoded extras, and removal"""
    from monero_glue.xmr.sub import tsx_helper as H

    rng = c.rng
    for _ in range(12):
        fs = rand_fields(rng)
        x = b"".join(map(enc, fs))
        c.eq(ref_parse(x), fs, "reference parser disagrees with the encoder (machinery)")
        for form in (bytes, bytearray, list):
            c.eq(code_parse(form(x)), fs, "parsed extra", form=form.__name__, fields=[f[0] for f in fs], extra=x)
        c.count("parsed")
        body = [f for f in fs if f[0] != 0]
        xb = b"".join(map(enc, body))
        for t in (1, 2, 3, 4, 0xDE):
            src = bytearray(xb)
            r = bytes(run(H.remove_field_from_tx_extra(rng.choice([xb, src]), kinds()[t])))
            c.eq(r, b"".join(enc(f) for f in body if f[0] != t), "extra without fields of kind %d" % t, fields=[f[0] for f in body])
            c.eq(bytes(src), xb, "removal alters its input")
            c.count("removals")
        c.distinct("parse", tuple(f[0] for f in fs))
    c.count("extras", 12)


def f_hostile(c):
    """family 'hostile': malformed extras"""
    rng = c.rng
    for _ in range(25):
        fs = [f for f in rand_fields(rng) if f[0] != 3]
        x = bytearray(b"".join(map(enc, fs)))
        k = rng.choice(["cut", "tag", "len", "flip", "junk", "big", "zero"])
        if k == "cut" and x:
            x = x[: rng.randrange(len(x))]
        elif k == "tag":
            x = x + bytes([rng.choice([5, 6, 0x7F, 0x80, 0xDD, 0xDF, 0xFF])]) + gen.rb(rng, rng.randrange(4))
        elif k == "len" and fs:
            i = rng.randrange(len(fs))
            e = bytearray(enc(fs[i]))
            if len(e) > 1:
                e[1] = (e[1] + rng.choice([1, -1, 2, 64])) % 256
            x = bytearray(b"".join(map(enc, fs[:i])) + bytes(e) + b"".join(map(enc, fs[i + 1 :])))
        elif k == "flip" and x:
            x[rng.randrange(len(x))] ^= 1 << rng.randrange(8)
        elif k == "junk":
            x = bytearray(gen.rb(rng, rng.randrange(60)))
        elif k == "big":
            x = x + bytes([rng.choice([2, 4, 0xDE])]) + cn.varint(rng.choice([1 << 20, 1 << 31, 1 << 62, (1 << 64) - 1])) + gen.rb(rng, rng.choice([0, 10, 70]))
        elif k == "zero":
            x = x + bytes(rng.choice([1, 2, 30])) + bytes([rng.randrange(1, 256)])
        try:
            exp = ref_parse(x)
        except T.Bad as e:
            exp, why = None, str(e)
        try:
            got = code_parse(bytes(x))
        except Exception:
            got = None
        if exp is None and got is not None:
            # what the library is allowed to be laxer about
            if why in ("nonce len", "padding", "non-canonical varint", "mm length") or 3 in [t for t, _ in got]:
                c.count("lax")
                continue
            c.fail("malformed extra accepted", extra=bytes(x), parsed=got, reason=why)
        c.eq(got, exp, "parsed extra", extra=bytes(x))
        c.count("malformed" if exp is None else "still_valid")
        c.distinct("hostile", k, exp is None, len(exp or []))
    c.count("extras", 25)


def f_repeat(c):
    """family 'repeat': extras parsed again and again in one process, results altered in between"""
    from monero_glue.xmr.sub import tsx_helper as H

    rng = c.rng
    pool = []
    for _ in range(4):
        fs = rand_fields(rng)
        x = b"".join(map(enc, fs))
        pool.append((x, fs))
        y = x + bytes([rng.choice([5, 6, 0x7F, 0xDD, 0xDF])]) + gen.rb(rng, 2)
        if not (fs and fs[-1][0] in (0,)):
            pool.append((y, None))
        if fs and fs[-1][0] in (1, 2, 4):
            pool.append((x[:-1], None))
    for step in range(40):
        x, fs = rng.choice(pool)
        form = rng.choice([bytes, bytearray, list])
        if fs is None:
            c.refused(lambda: code_parse(form(x)), "malformed extra accepted in one order of calls", extra=x)
            c.count("malformed")
            continue
        got = run(H.parse_extra_fields(form(x)))
        c.eq(view(got), fs, "parsed extra depends on earlier calls", extra=x)
        c.count("parsed")
        r = rng.random()
        if got and r < 0.2:
            got.pop(rng.randrange(len(got)))
        elif got and r < 0.35:
            rng.shuffle(got)
        elif got and r < 0.6:
            f = rng.choice(got)
            if hasattr(f, "nonce"):
                f.nonce = bytearray(b"zz")
            elif hasattr(f, "pub_key"):
                f.pub_key = bytes(32)
            elif hasattr(f, "data"):
                f.data = []
        elif r < 0.75:
            t = rng.choice([1, 2, 4, 0xDE])
            body = [f for f in fs if f[0] != 0]
            r = bytes(run(H.remove_field_from_tx_extra(b"".join(map(enc, body)), kinds()[t])))
            c.eq(r, b"".join(enc(f) for f in body if f[0] != t), "extra without fields of a kind depends on earlier calls")
    c.count("extras", 40)
    c.distinct("repeat", tuple(len(f or ()) for _, f in pool))


def f_nonce(c):
    """family 'nonce': kinds and values of payment-id nonces; encryption"""
    from monero_glue.xmr import crypto, monero
    from monero_glue.xmr.sub import tsx_helper as H

    rng = c.rng
    for n in list(range(0, 12)) + [31, 32, 33, 34, 35, 64, 255]:
        for b0 in (0, 1, 2, rng.randrange(3, 256)):
            x = (bytes([b0]) + gen.rb(rng, n - 1)) if n else b""
            for form in (bytes, bytearray):
                y = form(x)
                long_, short = n == 33 and b0 == 0, n == 9 and b0 == 1
                c.eq(bool(n and H.has_payment_id(y)), long_, "plain payment id nonce recognised", n=n, b0=b0)
                c.eq(bool(n and H.has_encrypted_payment_id(y)), short, "encrypted payment id nonce recognised", n=n, b0=b0)
                if long_:
                    c.eq(bytes(H.get_payment_id_from_tx_extra_nonce(y)), x[1:], "plain payment id")
                else:
                    c.refused(lambda: H.get_payment_id_from_tx_extra_nonce(y), "plain payment id from another nonce", n=n, b0=b0)
                if short:
                    c.eq(bytes(H.get_encrypted_payment_id_from_tx_extra_nonce(y)), x[1:], "encrypted payment id")
                else:
                    c.refused(lambda: H.get_encrypted_payment_id_from_tx_extra_nonce(y), "encrypted payment id from another nonce", n=n, b0=b0)
            c.distinct("nonce", n, b0 if b0 < 3 else 3)
    for _ in range(3):
        r, a, pid = gen.rsc(rng), gen.rsc(rng), gen.rb(rng, 8)
        A, Rp = ed.enc(ed.mulb(a)), ed.enc(ed.mulb(r))
        D = ed.mul8(ed.mul(ed.dec(A), r))
        exp = cn.xor8(pid, cn.pid8_key(D))
        e = H.encrypt_payment_id(pid, crypto.decodepoint(A), crypto.decodeint(ed.scenc(r)))
        c.eq(bytes(e), exp, "encrypted payment id by definition")
        c.eq(bytes(H.encrypt_payment_id(bytes(e), crypto.decodepoint(Rp), crypto.decodeint(ed.scenc(a)))), pid, "payment id decrypted by the recipient")
        w = gen.rsc(rng)
        c.ok(bytes(H.encrypt_payment_id(bytes(e), crypto.decodepoint(Rp), crypto.decodeint(ed.scenc(w)))) != pid, "payment id decrypted with another key")
        c.count("pid_crypted")
    c.count("extras", 1)


def f_dest(c):
    """family 'dest': the one recipient's view key; ring references"""
    from monero_glue.messages.MoneroAccountPublicAddress import MoneroAccountPublicAddress as Ad
    from monero_glue.messages.MoneroTransactionDestinationEntry import MoneroTransactionDestinationEntry as De
    from monero_glue.xmr.sub import tsx_helper as H

    rng = c.rng
    for _ in range(30):
        pool = [(gen.rb(rng, 32), gen.rb(rng, 32)) for _ in range(3)]
        # addresses sharing one of the two keys are different addresses
        pool.append((pool[0][0], gen.rb(rng, 32)))
        pool.append((gen.rb(rng, 32), pool[0][1]))
        ds = [(rng.choice(pool), rng.choice([0, 1, rng.getrandbits(40) + 1])) for _ in range(rng.randrange(0, 6))]
        chg = rng.choice([None, pool[0], pool[1], rng.choice(pool)])
        A = lambda x: Ad(spend_public_key=x[0], view_public_key=x[1])
        r = H.get_destination_view_key_pub([De(amount=m, addr=A(x)) for x, m in ds], A(chg) if chg else None)
        rec = {x for x, m in ds if m and x != chg}
        if len(rec) == 1:
            c.eq(bytes(r), next(iter(rec))[1], "view key of the only recipient", dests=len(ds))
        elif rec:
            c.eq(bytes(r), bytes(32 * [0]) if bytes(r) == bytes(32) else null(), "view key when there are several recipients", dests=len(ds))
        else:
            c.ok(bytes(r) in (null(), bytes(32), chg[1] if chg else null()), "view key without recipients")
        c.count("dest_lists")
        c.distinct("dest", len(ds), len(rec), chg is not None)
    for _ in range(40):
        n = rng.choice([0, 1, 2, 3, 11, 16, 64])
        top = rng.choice([n + 1, 1 << 10, 1 << 32, (1 << 63)])
        offs = sorted({rng.randrange(top) for _ in range(n)})
        src = list(offs)
        if rng.random() < 0.4:
            rng.shuffle(src)
        keep = list(src)
        rel = list(H.absolute_output_offsets_to_relative(src))
        c.eq(src, keep, "the index list handed in is altered")
        acc, back = 0, []
        for v in rel:
            acc += v
            back.append(acc)
        c.eq(back, offs, "absolute from relative references", n=n)
        c.ok(all(v > 0 for v in rel[1:]), "relative references of distinct outputs are positive")
        c.count("ring_refs")
        c.distinct("ref", n, top.bit_length(), src == offs)
    c.count("extras", 1)


def null():
    from monero_glue.xmr import crypto

    return bytes(crypto.NULL_KEY_ENC)


FAMILIES = {
    "build": dict(fn=f_build, quick=25, thorough=400),
    "parse": dict(fn=f_parse, quick=30, thorough=600, backends=("tcry",)),
    "hostile": dict(fn=f_hostile, quick=50, thorough=1500, backends=("tcry",)),
    "repeat": dict(fn=f_repeat, quick=10, thorough=300, backends=("tcry",)),
    "nonce": dict(fn=f_nonce, quick=4, thorough=40),
    "dest": dict(fn=f_dest, quick=20, thorough=300, backends=("tcry",)),
}
