"""Wallet and transaction files round-trip and reject tampering."""

import glob
import json
import os

from .. import cross, dev, gen
from .. import harness as H
from ..harness import run
from ..kis import transfer
from ..ref import cn, ed, symm, tx as rtx
from .C29 import alter_bytes

RULE = (
    "wallet-keys files of random and hostile contents (every byte value in keys, quotes, commas, backslashes, control bytes in strings), unsigned sets of 0..3 generated transfers with 0..6 transfer records in the formats of hard "
    "forks 9 and 10, signed sets made by the real agent and device, exported outputs, and all recorded files; each read back and compared field by field, decrypted by an independent cipher, refused under other keys, truncated at "
    "random and chosen places and altered in prefix, nonce, ciphertext and signature; the caller's objects are compared before and after writing; histories of related values (sharing parts, repeated, interleaved) in one process, each judged alone; distinct = (file kind, format, alteration)"
)
ASSUMPTIONS = [
    "fields that a format version does not hold (use_bulletproofs, rct_config, original, is_integrated, m_key_image_requested, m_uses) are neither compared nor protected: the serialization library recomputes them",
    "the wallet-keys file has no authentication in Monero's format: a wrong password must be refused, altered ciphertext is not judged",
    "construction data are written in a format their own fields fill (hard fork 10 for generated data)",
]
DERIVED = {"use_bulletproofs", "rct_config", "original", "is_integrated", "m_key_image_requested", "m_uses"}


def X():
    from monero_serialize import xmrtypes

    return xmrtypes


def norm(x, skip=()):
    if isinstance(x, (bytes, bytearray)):
        return bytes(x)
    if isinstance(x, bool):
        return int(x)
    if hasattr(x, "f_specs") and hasattr(x.__class__, "MFIELDS") and not isinstance(x, (list, tuple)):
        d = {}
        for f in x.__class__.f_specs():
            if f[0] not in skip:
                d[f[0]] = norm(getattr(x, f[0], None), skip)
        d["__class__"] = x.__class__.__name__
        return d
    if isinstance(x, (list, tuple)):
        return [norm(y, skip) for y in x]
    return x


def diff(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            d = diff(a.get(k), b.get(k), path + "." + k)
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s: %d and %d elements" % (path, len(a), len(b))
        for i, (p, q) in enumerate(zip(a, b)):
            d = diff(p, q, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    return None if a == b else "%s: %r and %r" % (path, a, b)


def same(c, got, exp, msg, skip=(), **d):
    c.observed += 1
    x = diff(norm(got, skip), norm(exp, skip))
    if x:
        c.fail(msg, difference=x, **d)


class slow_hash:
    """The memory-hard key derivation, remembered per input (native code, not under test)."""

    memo = {}

    def __enter__(self):
        from monero_glue.xmr.enc import chacha

        self.m = chacha.pycryptonight
        self.raw = self.m.cn_slow_hash

        def f(d, *a):
            k = (bytes(d), a)
            if k not in self.memo:
                self.memo[k] = self.raw(bytes(d), *a)
            return self.memo[k]

        self.m.cn_slow_hash = f
        return f

    def __exit__(self, *a):
        self.m.cn_slow_hash = self.raw


def open_file(c, f, slow, a, magic):
    """Independent opening of an encrypted wallet file: verifies and decrypts."""
    c.eq(bytes(f[: len(magic)]), magic, "file prefix")
    body, sig = bytes(f[len(magic) : -64]), bytes(f[-64:])
    A = ed.mulb(a)
    cc, r = int.from_bytes(sig[:32], "little"), int.from_bytes(sig[32:], "little")
    R = ed.add(ed.mul(A, cc), ed.mulb(r))
    c.eq(cn.hs(cn.keccak256(body) + ed.enc(A) + ed.enc(R)), cc, "file signature verifies independently")
    k = slow(ed.scenc(a))
    n = len(body)
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms

    if n < 4000:
        return symm.chacha20(k, body[:8], body[8:])
    e = Cipher(algorithms.ChaCha20(k, bytes(8) + body[:8]), None).decryptor()
    return e.update(body[8:])


# -- wallet keys ----------------------------------------------------------------------------------

HOSTILE = [b'",', b'"', b"\\", b"\n", b"\r\n", b"\x00", b"}", b'\\"', b'","', b"key_data", b"\x1f", b"\x7f\x80\xff", b'"key_data":"']


def hostile32(rng):
    b = bytearray(gen.rb(rng, 32))
    for _ in range(rng.choice([0, 1, 2, 4])):
        h = rng.choice(HOSTILE)
        p = rng.randrange(0, 33 - len(h))
        b[p : p + len(h)] = h
    return bytes(b)


def kv_strings(b):
    """The byte strings of a portable-storage blob, read independently: {name: value} of the flat tree."""
    out = {}
    p = [9]

    def vi():
        m = b[p[0]] & 3
        n = 1 << m
        v = int.from_bytes(b[p[0] : p[0] + n], "little") >> 2
        p[0] += n
        return v

    def section(pre):
        for _ in range(vi()):
            ln = b[p[0]]
            name = b[p[0] + 1 : p[0] + 1 + ln].decode()
            p[0] += 1 + ln
            t = b[p[0]]
            p[0] += 1
            if t == 12:
                section(pre + (name,))
            elif t == 10:
                n = vi()
                out[pre + (name,)] = b[p[0] : p[0] + n]
                p[0] += n
            elif t in (1, 5):
                out[pre + (name,)] = int.from_bytes(b[p[0] : p[0] + 8], "little")
                p[0] += 8
            elif t in (2, 6):
                out[pre + (name,)] = int.from_bytes(b[p[0] : p[0] + 4], "little")
                p[0] += 4
            else:
                raise ValueError("type %d" % t)

    section(())
    if p[0] != len(b):
        raise ValueError("trailing bytes")
    return out


def fam_keys(c):
    from monero_glue.xmr import wallet

    rng = c.rng
    x = X()
    with slow_hash() as slow:
        for _ in range(6):
            pw = rng.choice([b"", b"pass", gen.rb(rng, rng.randrange(1, 40)), "p\u00e4ss \u20bf".encode()])
            kd = wallet.WalletKeyData()
            kd.m_creation_timestamp = rng.choice([0, 1, 1542000000, rng.getrandbits(64), (1 << 64) - 1])
            ak = kd.m_keys = x.AccountKeys()
            ak.m_account_address = x.AccountPublicAddress(m_spend_public_key=hostile32(rng), m_view_public_key=hostile32(rng))
            ak.m_spend_secret_key = rng.choice([bytes(32), hostile32(rng)])
            ak.m_view_secret_key = hostile32(rng)
            ak.m_multisig_keys = []
            kf = wallet.WalletKeyFile()
            kf.key_data = kd
            kf.testnet = rng.choice([0, 1, True, False])
            kf.watch_only = rng.choice([0, 1])
            kf.refresh_height = rng.choice([0, 1, rng.getrandbits(32), (1 << 53)])
            kf.seed_language = rng.choice(["English", "", "Espa\u00f1ol", "\u65e5\u672c\u8a9e", 'quo"te,', 'a\\b\nc\t","x"', '"key_data":"'])
            kf.default_mixin = rng.randrange(0, 50)
            before = dict(vars(kf))
            kbefore = norm(kd)
            f = run(wallet.gen_keys_file(pw, kf))
            c.eq({k: v for k, v in vars(kf).items()}, before, "writing changed the caller's wallet key file object")
            c.ok(kf.key_data is kd and norm(kd) == kbefore, "writing changed the caller's key data")
            f2 = run(wallet.gen_keys_file(pw, kf))
            c.ok(bytes(f2)[:8] != bytes(f)[:8], "iv reused under the same password")
            r = run(wallet.load_keys_data(f, pw))
            exp = {k: v for k, v in before.items() if k != "key_data"}
            c.eq({k: v for k, v in r.items() if k != "key_data"}, exp, "settings read back")
            k = r["key_data"]
            c.eq(k["m_creation_timestamp"], kd.m_creation_timestamp, "creation time read back")
            got = (
                bytes(k["m_keys"]["m_account_address"]["m_spend_public_key"]),
                bytes(k["m_keys"]["m_account_address"]["m_view_public_key"]),
                bytes(k["m_keys"]["m_spend_secret_key"]),
                bytes(k["m_keys"]["m_view_secret_key"]),
            )
            expk = (ak.m_account_address.m_spend_public_key, ak.m_account_address.m_view_public_key, ak.m_spend_secret_key, ak.m_view_secret_key)
            c.eq(got, expk, "keys read back")
            # an independent reader: container, cipher, JSON, portable storage
            ln, p, sh = 0, 8, 0
            while True:
                ln |= (f[p] & 127) << sh
                sh += 7
                p += 1
                if not f[p - 1] & 128:
                    break
            c.eq(len(f) - p, ln, "length of the encrypted data")
            dec = symm.chacha20(slow(pw), bytes(f[:8]), bytes(f[p:]))
            js = json.loads(dec.decode("latin1"))
            kv = kv_strings(js["key_data"].encode("latin1"))
            c.eq(kv[("m_creation_timestamp",)], kd.m_creation_timestamp, "creation time in the file")
            c.eq(kv[("m_keys", "m_account_address", "m_spend_public_key")], expk[0], "public spend key in the file")
            c.eq(kv[("m_keys", "m_account_address", "m_view_public_key")], expk[1], "public view key in the file")
            c.eq(kv[("m_keys", "m_spend_secret_key")], expk[2], "secret spend key in the file")
            c.eq(kv[("m_keys", "m_view_secret_key")], expk[3], "secret view key in the file")
            c.count("written and read")
            c.distinct("keys", "ok", len(pw) == 0)
            for w in (pw + b"\x00", pw[:-1] if pw else b"x", gen.rb(rng, 8)):
                c.refused(lambda: run(wallet.load_keys_data(f, w)), "opened with a wrong password", password=w)
                c.distinct("keys", "wrong password")
            for n in {0, 1, 7, 8, 9, len(f) - 1, len(f) // 2, rng.randrange(len(f))}:
                c.refused(lambda: run(wallet.load_keys_data(f[:n], pw)), "truncated file opened", length=n)
                c.distinct("keys", "truncated")
            c.count("refused", 8)


# -- encrypted transaction files ------------------------------------------------------------------


def transfers(rng, w, n, hf):
    x = X()
    out = []
    for _ in range(n):
        o = gen.owned_output(rng, w, gen.Chain(), rng.randrange(1 << 40), rng.choice([0, 0, 1]), rng.choice([0, 3]))
        td = transfer(rng, o)
        td.m_tx.vin = [x.TxinToKey(amount=0, key_offsets=[rng.randrange(1, 1 << 40), 5], k_image=gen.rb(rng, 32)) for _ in range(rng.randrange(0, 2))]
        td.m_block_height = rng.choice([0, rng.getrandbits(40), (1 << 64) - 1])
        td.m_txid = gen.rb(rng, 32)
        td.m_global_output_index = rng.getrandbits(rng.choice([1, 20, 63]))
        td.m_spent = rng.random() < 0.5
        td.m_spent_height = rng.getrandbits(30)
        td.m_key_image = gen.rb(rng, 32)
        td.m_mask = gen.rb(rng, 32)
        td.m_amount = rng.choice([0, o.amount, (1 << 64) - 1])
        td.m_key_image_known = rng.random() < 0.5
        td.m_key_image_requested = 0
        td.m_pk_index = rng.randrange(0, 3)
        td.m_key_image_partial = False
        td.m_multisig_k = [gen.rb(rng, 32) for _ in range(rng.choice([0, 0, 2]))]
        td.m_multisig_info = []
        td.m_uses = []
        out.append(td)
    return out


def cd_of(rng, s):
    x = X()
    cd = gen.construction(s)
    for src in cd.sources:
        src.multisig_kLRki = x.MultisigKLRki(K=gen.rb(rng, 32), L=bytes(32), R=bytes(32), ki=gen.rb(rng, 32))
    if cd.change_dts is None:
        cd.change_dts = x.TxDestinationEntry(
            original="", amount=0, addr=x.AccountPublicAddress(m_spend_public_key=bytes(32), m_view_public_key=bytes(32)), is_subaddress=False, is_integrated=False
        )
    return cd


def tamper(c, kind, f, magic, load, priv, a, plain_nonce=True):
    """Every alteration of the file must be refused."""
    from monero_glue.xmr import crypto

    rng = c.rng
    m = len(magic)
    al = []
    for _ in range(4):
        p = rng.randrange(m + 8, len(f) - 64)
        x = bytearray(f)
        x[p] ^= 1 << rng.randrange(8)
        al.append(("ciphertext", x))
    for p in (0, rng.randrange(m - 1), m - 2):
        x = bytearray(f)
        x[p] ^= 0x20
        al.append(("prefix", x))
    for v in (0, 1, 2, 5, 255):
        if v != f[m - 1]:
            x = bytearray(f)
            x[m - 1] = v
            al.append(("version", x))
    for p in (m, m + 7):
        x = bytearray(f)
        x[p] ^= 1
        al.append(("nonce", x))
    for p in (1, 33, 64, rng.randrange(1, 65)):
        x = bytearray(f)
        x[-p] ^= 1 << rng.randrange(4)
        al.append(("signature", x))
    for off in (-64, -32):
        v = int.from_bytes(f[off:][:32], "little") + ed.L
        x = bytearray(f)
        x[len(f) + off : len(f) + off + 32] = v.to_bytes(32, "little")
        al.append(("signature+L", x))
    for n in {0, 1, m - 1, m, m + 8, m + 63, m + 64, m + 71, m + 72, len(f) - 65, len(f) - 64, len(f) - 1, rng.randrange(len(f)), rng.randrange(len(f))}:
        if 0 <= n < len(f):
            al.append(("truncated", f[:n]))
    al.append(("extended", bytes(f) + b"\x00"))
    al.append(("extended", bytes(f) + gen.rb(rng, 64)))
    al.append(("cut in the middle", bytes(f[: m + 20]) + bytes(f[m + 21 :])))
    al.append(("doubled", bytes(f) + bytes(f)[m:]))
    for nm, x in al:
        if bytes(x) == bytes(f):
            continue
        c.refused(lambda: run(load(priv, bytes(x))), "altered %s file was read" % kind, alteration=nm, length=len(x))
        c.count("refused")
        c.distinct(kind, nm)
    for o in (gen.rsc(rng), (a + 1) % ed.L, ed.L - a):
        c.refused(lambda: run(load(crypto.decodeint(ed.scenc(o)), f)), "%s file was read with another view key" % kind)
        c.count("refused")
        c.distinct(kind, "other key")


def fam_unsigned(c):
    from monero_glue.xmr import crypto, wallet

    rng = c.rng
    x = X()
    with slow_hash() as slow:
        w = gen.W(rng)
        priv = crypto.decodeint(ed.scenc(w.a))
        hf = rng.choice([9, 10])
        n = rng.choice([0, 1, 1, 1, 2, 3])
        u = x.UnsignedTxSet(
            txes=[cd_of(rng, gen.scenario(rng, wallet=w, cheap=True)) for _ in range(n)], transfers=transfers(rng, w, rng.choice([0, 1, 2, 6]), hf)
        )
        before = norm(u, DERIVED)
        f = run(wallet.dump_unsigned_tx(priv, u, hf))
        c.ok(not diff(norm(u, DERIVED), before), "writing changed the caller's transaction set", difference=diff(norm(u, DERIVED), before))
        skip = {"splitted_dsts"} if False else ()
        for h in (hf, 9, 10):
            r = run(wallet.load_unsigned_tx(priv, f, h))
            same(c, r, u, "unsigned set read back", skip=DERIVED | set(skip), hf=hf, read_as=h)
        r = run(wallet.load_unsigned_tx(priv, f))
        if hf == 10:
            for a, b in zip(r.txes, u.txes):
                c.eq(int(a.use_bulletproofs), int(b.use_bulletproofs), "use_bulletproofs read back")
                same(c, a.splitted_dsts, b.splitted_dsts, "destinations read back")
        plain = open_file(c, f, slow, w.a, b"Monero unsigned tx set\x04")
        c.ok(plain.startswith(b"\x01\x16serialization::archive"), "plaintext is a serialization archive", start=plain[:32])
        for cd in u.txes:
            for s in cd.sources:
                c.ok(bytes(s.mask) in plain and bytes(s.real_out_tx_key) in plain, "source data present in the file")
        # reading and writing again gives the same content
        g = run(wallet.dump_unsigned_tx(priv, r, hf))
        c.eq(open_file(c, g, slow, w.a, b"Monero unsigned tx set\x04"), plain, "re-written content")
        c.count("written and read")
        c.distinct("unsigned", hf, n, len(u.transfers))
        tamper(c, "unsigned", f, wallet.UNSIGNED_TX_PREFIX, wallet.load_unsigned_tx, priv, w.a)
        # a file of another kind
        o = run(wallet.save_exported_outputs(crypto.decodeint(ed.scenc(w.b)), priv, u.transfers))
        c.refused(lambda: run(wallet.load_unsigned_tx(priv, o)), "exported outputs read as an unsigned set")
        c.refused(lambda: run(wallet.load_exported_outputs(priv, f)), "unsigned set read as exported outputs")


def load_signed(priv, data):
    """The counterpart of dump_signed_tx, which the library does not have."""
    from monero_glue.xmr import wallet
    from monero_glue.xmr.enc import chacha
    from monero_serialize import xmrboost, xmrserialize

    async def go():
        m = len(wallet.SIGNED_TX_PREFIX)
        if bytes(data[:m]) != b"Monero signed tx set\x04":
            raise ValueError("prefix")
        plain = chacha.decrypt_xmr(priv, bytes(data[m:]))
        ar = xmrboost.Archive(xmrserialize.MemoryReaderWriter(bytearray(plain)), False)
        msg = X().SignedTxSet()
        await ar.root()
        await ar.message(msg)
        return msg

    return go()


def fam_signed(c):
    from monero_glue.xmr import crypto, wallet

    rng = c.rng
    x = X()
    with slow_hash() as slow:
        w = gen.W(rng)
        priv = crypto.decodeint(ed.scenc(w.a))
        ptx, kis, blobs, secrets = [], [], [], []
        for _ in range(rng.choice([1, 1, 2])):
            s = gen.scenario(rng, wallet=w, cheap=True, change=rng.choice([True, True, "sweep"]))
            cd = cd_of(rng, s)
            cfg = rng.choice([(1, 10), (1, 10), (1, 9), (0, 9)])
            d = dev.device(w)
            a = dev.agent(dev.Wire(d), cfg)
            # the set is written from what an unsigned file gave
            u = run(wallet.load_unsigned_tx(priv, run(wallet.dump_unsigned_tx(priv, x.UnsignedTxSet(txes=[cd], transfers=[]), 10))))
            cd = u.txes[0]
            tx = run(a.sign_transaction_data(cd, aux_data=dev.aux_for(s)))
            blobs.append(bytes(run(a.serialize_tx(tx))))
            before = norm(cd, DERIVED)
            p = wallet.construct_pending_tsx(tx, cd)
            c.ok(not diff(norm(cd, DERIVED), before), "making the pending record changed the construction data")
            ptx.append(p)
            kis += [bytes(v.k_image) for v in tx.vin]
        signed = x.SignedTxSet(ptx=ptx, key_images=list(kis))
        before = norm(signed, DERIVED)
        f = run(wallet.dump_signed_tx(priv, signed))
        c.ok(not diff(norm(signed, DERIVED), before), "writing changed the caller's signed set", difference=diff(norm(signed, DERIVED), before))
        open_file(c, f, slow, w.a, b"Monero signed tx set\x04")
        try:
            r = run(load_signed(priv, f))
        except Exception as e:
            c.fail("signed set cannot be read back", error=repr(e)[:300])
        c.eq(len(r.ptx), len(ptx), "number of pending transactions")
        c.eq([bytes(k) for k in r.key_images], kis, "key images read back")
        for q, p, blob in zip(r.ptx, ptx, blobs):
            c.eq(bytes(run(dev.agent(None).serialize_tx(q.tx))) if False else bytes(run(ser(q.tx))), blob, "transaction read back is the signed one")
            same(c, q.construction_data, p.construction_data, "construction data read back", skip=DERIVED)
            same(c, q.change_dts, p.construction_data.change_dts, "change read back", skip=DERIVED)
            same(c, q.dests, p.construction_data.dests, "destinations read back", skip=DERIVED)
            c.eq(list(q.selected_transfers), list(p.construction_data.selected_transfers), "selected transfers read back")
            c.eq(bytes(q.tx_key), ed.enc(ed.ID), "no transaction key goes to the hot wallet")
            c.eq(list(q.additional_tx_keys), [], "no additional transaction keys go to the hot wallet")
        c.count("written and read")
        c.distinct("signed", len(ptx))
        tamper(c, "signed", f, wallet.SIGNED_TX_PREFIX, load_signed, priv, w.a)
        c.refused(lambda: run(wallet.load_unsigned_tx(priv, f)), "signed set read as an unsigned set")


async def ser(tx):
    from monero_serialize import xmrserialize

    writer = xmrserialize.MemoryReaderWriter()
    ar = xmrserialize.Archive(writer, True)
    await ar.message(tx)
    return bytes(writer.get_buffer())


def fam_outputs(c):
    from monero_glue.xmr import crypto, wallet

    rng = c.rng
    with slow_hash() as slow:
        w = gen.W(rng)
        a, b = crypto.decodeint(ed.scenc(w.a)), crypto.decodeint(ed.scenc(w.b))
        tds = transfers(rng, w, rng.choice([0, 1, 2, 5, 12]), 10)
        before = norm(tds, DERIVED)
        f = bytes(run(wallet.save_exported_outputs(b, a, tds)))
        c.ok(not diff(norm(tds, DERIVED), before), "writing changed the caller's records")
        r = run(wallet.load_exported_outputs(a, f))
        c.eq(bytes(r.m_spend_public_key), ed.enc(w.B), "public spend key read back")
        c.eq(bytes(r.m_view_public_key), ed.enc(w.A), "public view key read back")
        same(c, list(r.tds), tds, "records read back", skip=DERIVED)
        plain = open_file(c, f, slow, w.a, b"Monero output export\x03")
        c.eq(plain[:64], ed.enc(w.B) + ed.enc(w.A), "keys at the front of the file")
        g = bytes(run(wallet.save_exported_outputs(b, a, list(r.tds))))
        c.eq(open_file(c, g, slow, w.a, b"Monero output export\x03"), plain, "re-written content")
        c.count("written and read")
        c.distinct("outputs", len(tds))
        tamper(c, "exported outputs", f, wallet.OUTPUTS_PREFIX, wallet.load_exported_outputs, a, w.a)


def fam_again(c):
    """Files of two wallets and of sets that differ in one field, written and read again and again; what was read is altered in between."""
    import copy

    from monero_glue.xmr import crypto, wallet

    rng = c.rng
    x = X()
    with slow_hash() as slow:
        w = gen.W(rng)
        keys = cross.nsc(rng)
        privs = [crypto.decodeint(ed.scenc(k)) for k in keys]
        spend = [crypto.decodeint(ed.scenc(w.b)), crypto.decodeint(ed.scenc(gen.rsc(rng)))]
        tds = transfers(rng, w, 2, 10)
        cd = cd_of(rng, gen.scenario(rng, wallet=w, cheap=True))

        def sets():
            yield x.UnsignedTxSet(txes=[cd], transfers=tds)
            e = copy.deepcopy(cd)
            e.splitted_dsts[0].amount ^= 1
            yield x.UnsignedTxSet(txes=[e], transfers=tds)
            e = copy.deepcopy(cd)
            e.sources[-1].real_out_tx_key = gen.rb(rng, 32)
            yield x.UnsignedTxSet(txes=[e], transfers=tds[:1])

        us = list(sets())
        recs = [tds, tds[:1], [copy.deepcopy(tds[0]), tds[1]]]
        recs[2][0].m_amount ^= 1
        kfs = []
        for i in range(3):
            kd = wallet.WalletKeyData()
            kd.m_creation_timestamp = 7
            ak = kd.m_keys = x.AccountKeys()
            sp = gen.rb(rng, 32)
            ak.m_account_address = x.AccountPublicAddress(m_spend_public_key=kfs[0][0][0] if i == 1 else sp, m_view_public_key=gen.rb(rng, 32))
            ak.m_spend_secret_key, ak.m_view_secret_key, ak.m_multisig_keys = gen.rb(rng, 32), kfs[0][0][3] if i == 1 else gen.rb(rng, 32), []
            kf = wallet.WalletKeyFile()
            kf.key_data, kf.testnet, kf.watch_only, kf.refresh_height, kf.seed_language, kf.default_mixin = kd, i == 2, 0, i, "English", 4
            kfs.append(((ak.m_account_address.m_spend_public_key, ak.m_account_address.m_view_public_key, ak.m_spend_secret_key, ak.m_view_secret_key), i, kf))
        pws = [b"pass", b"pasS", b""]
        before = [norm(u, DERIVED) for u in us], [norm(t, DERIVED) for t in recs]
        files = []  # kind, key, subject, bytes

        def alter(o):
            """the reader's own copy"""
            if isinstance(o, list):
                if o:
                    o.pop()
                return
            if hasattr(o, "txes"):
                if o.txes:
                    o.txes[0].sources.pop()
                    o.txes[0].splitted_dsts[0].amount = 99
                if len(o.transfers):
                    o.transfers[0].m_amount = 98
            elif hasattr(o, "tds"):
                o.m_spend_public_key = bytes(32)
                if len(o.tds):
                    o.tds[0].m_txid = bytes(32)
                    o.tds.pop()
            else:
                o["key_data"]["m_keys"]["m_spend_secret_key"] = b"none"
                o["refresh_height"] = 12345
                o["key_data"]["m_creation_timestamp"] = 1

        def read(kind, k, s, f, own):
            if kind == "keys":
                if not own:
                    c.refused(lambda: run(wallet.load_keys_data(f, pws[k])), "opened with a wrong password")
                    return
                r = run(wallet.load_keys_data(f, pws[k]))
                m = r["key_data"]["m_keys"]
                got = m["m_account_address"]["m_spend_public_key"], m["m_account_address"]["m_view_public_key"], m["m_spend_secret_key"], m["m_view_secret_key"]
                c.eq((tuple(bytes(v) for v in got), r["refresh_height"], bool(r["testnet"]), r["key_data"]["m_creation_timestamp"]), (kfs[s][0], kfs[s][1], s == 2, 7), "wallet keys read back, again")
            elif kind == "unsigned":
                if not own:
                    c.refused(lambda: run(wallet.load_unsigned_tx(privs[k], f)), "read with another key")
                    return
                r = run(wallet.load_unsigned_tx(privs[k], f))
                x_ = diff(norm(r, DERIVED), before[0][s])
                c.ok(not x_, "unsigned set read back, again", difference=x_)
            else:
                if not own:
                    c.refused(lambda: run(wallet.load_exported_outputs(privs[k[0]], f)), "read with another key")
                    return
                r = run(wallet.load_exported_outputs(privs[k[0]], f))
                x_ = diff(norm(list(r.tds), DERIVED), before[1][s])
                c.ok(not x_, "records read back, again", difference=x_)
                c.eq((bytes(r.m_spend_public_key), bytes(r.m_view_public_key)), (bytes(crypto.encodepoint(crypto.scalarmult_base(spend[k[1]]))), ed.enc(ed.mulb(keys[k[0]]))), "keys read back, again")
            c.count("read again")
            if rng.random() < 0.5:
                alter(r)

        for step in range(26):
            kind = rng.choice(["keys", "unsigned", "outputs"])
            if not files or rng.random() < 0.4:
                s = rng.randrange(3)
                if kind == "keys":
                    k = rng.randrange(3)
                    f = run(wallet.gen_keys_file(pws[k], kfs[s][2]))
                elif kind == "unsigned":
                    k = rng.randrange(3)
                    f = run(wallet.dump_unsigned_tx(privs[k], us[s], 10))
                else:
                    k = rng.randrange(3), rng.randrange(2)
                    f = run(wallet.save_exported_outputs(spend[k[1]], privs[k[0]], recs[s]))
                f = bytes(f)
                c.ok(f not in [g[3] for g in files], "the same file was written twice (nonce reused)")
                files.append((kind, k, s, f))
                read(kind, k, s, f, True)
            else:
                kind, k, s, f = rng.choice(files)
                if rng.random() < 0.25:
                    read(kind, (k + rng.randrange(1, 3)) % 3 if kind in ("keys", "unsigned") else ((k[0] + rng.randrange(1, 3)) % 3, k[1]), s, f, False)
                else:
                    read(kind, k, s, f, True)
            c.distinct("again", kind, s)
        c.eq([norm(u, DERIVED) for u in us], before[0], "the caller's sets are as they were")
        c.eq([norm(t, DERIVED) for t in recs], before[1], "the caller's records are as they were")


def recorded():
    return sorted(glob.glob(os.path.join(H.REPO, "monero_glue_test/data/tsx_t_uns_*.txt")))


def fam_recorded(c):
    from monero_glue.xmr import crypto, wallet
    from monero_glue_test.base_agent_test import BaseAgentTest

    creds = BaseAgentTest().get_trezor_creds(0)
    a = int.from_bytes(bytes(crypto.encodeint(creds.view_key_private)), "little")
    fs = recorded()
    c.ok(len(fs) > 5, "recorded files found")
    with slow_hash() as slow:
        for p in [fs[c.idx % len(fs)], fs[(c.idx * 7 + 3) % len(fs)]]:
            d = open(p, "rb").read()
            u = run(wallet.load_unsigned_tx(creds.view_key_private, d))
            plain = open_file(c, d, slow, a, b"Monero unsigned tx set\x04")
            f = run(wallet.dump_unsigned_tx(creds.view_key_private, u, 9))
            c.eq(open_file(c, f, slow, a, b"Monero unsigned tx set\x04"), plain, "recorded file re-written with another content", file=os.path.basename(p))
            same(c, run(wallet.load_unsigned_tx(creds.view_key_private, f)), u, "recorded file re-written and read", file=os.path.basename(p))
            for cd in u.txes:
                for s in cd.sources:
                    o = s.outputs[s.real_output]
                    got = cn.commit(int.from_bytes(bytes(s.mask), "little"), s.amount)
                    if s.rct:
                        c.eq(ed.enc(got), bytes(o[1].mask), "recorded source opens its commitment", file=os.path.basename(p))
            c.count("recorded files")
            c.distinct("recorded", os.path.basename(p))
        if c.idx == 0:
            d = open(os.path.join(H.REPO, "monero_glue_test/data/ki_sync_01.txt"), "rb").read()
            r = run(wallet.load_exported_outputs(creds.view_key_private, d))
            c.eq(bytes(r.m_view_public_key), ed.enc(ed.mulb(a)), "view key of the recorded export")
            c.ok(len(r.tds) > 0, "records in the recorded export")
            f = run(wallet.save_exported_outputs(creds.spend_key_private, creds.view_key_private, r.tds))
            q = run(wallet.load_exported_outputs(creds.view_key_private, bytes(f)))
            same(c, list(q.tds), list(r.tds), "recorded export re-written and read", skip=DERIVED)
            c.count("recorded files")


FAMILIES = {
    "keys": dict(fn=fam_keys, quick=6, thorough=120),
    "unsigned": dict(fn=fam_unsigned, quick=10, thorough=150),
    "signed": dict(fn=fam_signed, quick=8, thorough=80, backends=("tcry",)),
    "outputs": dict(fn=fam_outputs, quick=6, thorough=100),
    "again": dict(fn=fam_again, quick=5, thorough=80, backends=("tcry",)),
    "recorded": dict(fn=fam_recorded, quick=6, thorough=40),
}
