"""Recovery words and seeds restore exactly the same wallet."""

import binascii
import hashlib
import re

from .. import gen
from ..ref import cn, ed
from ..ref.ed import L
from .C21 import int_of, pt_of
from .C27 import ref_path, ref_master

RULE = (
    "16- and 32-byte seeds (random, zeros, ones, around 2^32 and the group order) through the word codec against an independent codec; word lists with altered checksum word, replaced / misspelt / swapped / dropped / "
    "added words and out-of-range triples; wallets derived from words (list, one string, other spacing and case), seed and master secret (both derivation standards, several paths) against an independent "
    "derivation; the command line tools that show seeds, generate credentials and initialise a device (over stand-ins for the device library). distinct = (seed length, alteration, verdict, way of derivation)"
)
ASSUMPTIONS = ["word list: English only, as recorded in the pinned tree (sorted, unique by three letters)", "the checksum word is compared by its unique prefix, as in Monero"]

LIST_SHA = "eaa6bce7dd92f4d6dd74f224264e0ef4ad21095d68ec77616b26ceb599baf4f7"


def words():
    from monero_glue.xmr.core import mnemonic

    return mnemonic.mn_words()


def crc_word(ws):
    return ws[(binascii.crc32("".join(w[:3] for w in ws).encode()) & 0xFFFFFFFF) % len(ws)]


def enc(W, seed, checksum):
    n = len(W)
    out = []
    for i in range(0, len(seed), 4):
        x = int.from_bytes(seed[i : i + 4], "little")
        a = x % n
        b = (x // n + a) % n
        d = (x // n // n + b) % n
        out += [W[a], W[b], W[d]]
    if checksum:
        out.append(crc_word(out))
    return out


def dec(W, ws):
    """bytes, None (refused)."""
    n = len(W)
    ix = {w: i for i, w in enumerate(W)}
    ws = list(ws)
    if len(ws) not in (12, 13, 24, 25):
        return None
    if len(ws) % 3 == 1:
        last = ws.pop()
        if crc_word(ws)[:3] != last[:3]:
            return None
    out = b""
    for i in range(0, len(ws), 3):
        if any(w not in ix for w in ws[i : i + 3]):
            return None
        a, b, d = (ix[w] for w in ws[i : i + 3])
        x = a + n * ((b - a) % n) + n * n * ((d - b) % n)
        if x >> 32:
            return None
        out += x.to_bytes(4, "little")
    return out


def seeds(rng, n):
    r = rng.randrange(8)
    if r == 0:
        return rng.choice([bytes(n), b"\xff" * n])
    if r == 1:
        return b"".join(rng.choice([0, 1, 1625, 1626, 1626 * 1626 - 1, 1626 * 1626, 2**32 - 1, 2**31]).to_bytes(4, "little") for _ in range(n // 4))
    if r == 2 and n == 32:
        return ((rng.choice([1, 2, 15]) * L + rng.choice([1, 2, -1])) % 2**256).to_bytes(32, "little")
    if r == 3:
        return bytes(n // 2) + gen.rb(rng, n - n // 2)
    return gen.rb(rng, n)


def pdec(ws):
    from monero_glue.xmr.core import mnemonic

    try:
        r = mnemonic.mn_decode(ws)
    except Exception:
        return None
    try:
        return binascii.unhexlify(r)
    except Exception:
        return r


def fam_codec(c):
    from monero_glue.xmr.core import mnemonic

    rng = c.rng
    W = words()
    if c.idx == 0:
        c.eq(hashlib.sha256(("\n".join(W) + "\n").encode()).hexdigest(), LIST_SHA, "the word list changed")
        c.eq((len(W), len(set(w[:3] for w in W))), (1626, 1626), "word list")
    for _ in range(20):
        n = rng.choice([16, 32, 32])
        s = seeds(rng, n)
        for ck in (False, True):
            ws = mnemonic.mn_encode(s, ck)
            c.eq(list(ws), enc(W, s, ck), "words of a seed", seed=s)
            orig = list(ws)
            c.eq(pdec(ws), s, "decoding the words of a seed", seed=s, checksum=ck)
            c.eq(list(ws), orig, "decoding modified the caller's words")
            c.count("round-trips")
        c.distinct("codec", n, s == bytes(n), s[:4] == b"\xff" * 4)
    c.sample(dict(seed=s, words=" ".join(ws)))


def alter(rng, W, ws):
    ws = list(ws)
    i = rng.randrange(len(ws))
    k = rng.choice(["checkword", "replace", "replace", "swap", "drop", "add", "misspell", "case", "triple", "triple", "triple-ck", "rotate", "nock", "prefix", "empty", "short", "ckother"])
    if k == "checkword":
        ws[-1] = rng.choice(W)
    elif k == "replace":
        ws[i] = rng.choice(W)
    elif k == "swap":
        j = rng.randrange(len(ws))
        ws[i], ws[j] = ws[j], ws[i]
    elif k == "drop":
        del ws[i]
    elif k == "add":
        ws.insert(i, rng.choice(W))
    elif k == "misspell":
        i = rng.randrange(len(ws) - 1)
        w = list(ws[i])
        j = rng.randrange(len(w))
        w[j] = rng.choice([x for x in "abcdefghijklmnopqrstuvwxyz" if x != w[j]])
        ws[i] = rng.choice(["".join(w), ws[i] + "x", ws[i][:-1], ""])
    elif k == "case":
        i = rng.randrange(len(ws) - 1)
        ws[i] = ws[i].upper()
    elif k in ("triple", "triple-ck"):
        # x >= 2^32
        n = len(W)
        x = rng.choice([2**32, n**3 - 1, rng.randrange(2**32, n**3)])
        a = x % n
        b = (x // n + a) % n
        d = (x // n // n + b) % n
        core = ws[: len(ws) // 3 * 3]
        t = 3 * rng.randrange(len(core) // 3)
        core[t : t + 3] = [W[a], W[b], W[d]]
        ws = core + ([crc_word(core)] if k == "triple-ck" else [])
    elif k == "rotate":
        ws = ws[1:] + ws[:1]
    elif k == "nock":
        ws = ws[:-1] if len(ws) % 3 == 1 else ws
    elif k == "prefix":
        ws = ws[: rng.randrange(len(ws))]
    elif k == "empty":
        ws = []
    elif k == "short":
        m = 3 * rng.choice([1, 2, 3, 5, 6, 7, 9, 10])
        ws = (ws + ws)[:m]
        if rng.random() < 0.5:
            ws.append(crc_word(ws))
    elif k == "ckother":
        core = ws[: len(ws) // 3 * 3]
        ws = core + [rng.choice([w for w in core if w[:3] != crc_word(core)[:3]] or [rng.choice(W)])]
    return k, ws


def fam_refuse(c):
    rng = c.rng
    W = words()
    s = seeds(rng, rng.choice([16, 32]))
    base = enc(W, s, rng.random() < 0.7)
    for _ in range(40):
        k, ws = alter(rng, W, base)
        exp = dec(W, ws)
        got = pdec(list(ws))
        c.eq(got, exp, "verdict on altered words: " + k, words=" ".join(ws))
        c.count("refused" if exp is None else "accepted")
        c.distinct("refuse", k, len(base), exp is None)


def keys_of(master):
    b = int.from_bytes(master, "little") % L
    a = int.from_bytes(cn.keccak256(ed.scenc(b)), "little") % L
    return b, a


def check_sd(c, sd, master, what, **w):
    b, a = keys_of(master)
    c.eq((int_of(sd.spend_sec), int_of(sd.view_sec)), (b, a), "private keys: " + what, **w)
    c.eq((ed.enc(pt_of(sd.spend_pub)), ed.enc(pt_of(sd.view_pub))), (ed.enc(ed.mulb(b)), ed.enc(ed.mulb(a))), "public keys: " + what, **w)
    c.eq(bytes(sd.monero_master), master, "master secret: " + what, **w)
    W = words()
    c.eq(sd.electrum_words.split(" "), enc(W, master, True), "recovery words: " + what, **w)
    net = c.rng.randrange(3)
    from ..ref import b58m

    c.eq(bytes(sd.creds(net).address), b58m.addr_encode(b58m.TAGS[net][0], ed.enc(ed.mulb(b)) + ed.enc(ed.mulb(a))), "address: " + what, **w)


def spellings(rng, ws):
    """the same words as a caller may hand them over."""
    r = rng.randrange(7)
    if r == 0:
        return list(ws), "list"
    if r == 1:
        return " ".join(ws), "string"
    if r == 2:
        return " ".join(ws).upper(), "upper"
    if r == 3:
        return [" ".join(ws)], "one-element"
    if r == 4:
        k = rng.randrange(1, len(ws))
        return [" ".join(ws[:k]), " ".join(ws[k:])], "two parts"
    if r == 5:
        return "  " + "  ".join(ws) + "\n", "spaces"
    return [" " + w + " " for w in ws], "padded"


def fam_wallet(c):
    from monero_glue.xmr.sub.seed import SeedDerivation

    rng = c.rng
    W = words()
    n = rng.choice([16, 32, 32, 32])
    s = seeds(rng, n)
    ck = rng.random() < 0.7
    ws = enc(W, s, ck)
    inp, how = spellings(rng, ws)
    keep = list(inp) if isinstance(inp, list) else inp
    sd = SeedDerivation.from_monero_mnemonics(inp)
    c.eq(inp, keep, "restoring modified the caller's words")
    master = s if n == 32 else s + s
    check_sd(c, sd, master, "from words", how=how, n=n)
    check_sd(c, SeedDerivation.from_monero_seed(master), master, "from seed")
    # again from the words it prints
    check_sd(c, SeedDerivation.from_monero_mnemonics(sd.electrum_words), master, "from printed words")
    k, bad = alter(rng, W, ws)
    if dec(W, bad) is None:
        inp, how = spellings(rng, bad) if len(bad) > 1 and k not in ("case", "misspell") else (list(bad), "list")
        clean = [w.lower() for e in ([inp] if isinstance(inp, str) else inp) for w in e.split()]
        if dec(W, clean) is None:
            c.refused(lambda: SeedDerivation.from_monero_mnemonics(inp), "wallet restored from bad words: " + k, words=" ".join(bad), how=how)
            c.count("bad-words-refused")
    c.count("wallets")
    c.distinct("wallet", n, ck, how)


_bip39 = []


def b39():
    if not _bip39:
        from monero_glue.misc.bip import bip39

        _bip39.extend(bip39.english_words)
    return _bip39


def b39_words(entropy):
    v = int.from_bytes(entropy, "big")
    cs = len(entropy) // 4
    v = (v << cs) | (hashlib.sha256(entropy).digest()[0] >> (8 - cs))
    n = (len(entropy) * 8 + cs) // 11
    return [b39()[(v >> (11 * (n - 1 - i))) & 2047] for i in range(n)]


def master_of(seed, slip, path):
    k = ref_path(ref_master(seed, slip), path, slip)[0]
    if slip:
        return ed.scenc(int.from_bytes(k, "little") % L)
    return cn.keccak256(k)


def fam_hd(c):
    """Wallets of word lists and master secrets of hardware wallets."""
    from monero_glue.misc.bip import bip32
    from monero_glue.xmr.sub.seed import SeedDerivation

    rng = c.rng
    slip = rng.random() < 0.5
    path = rng.choice([None, None, "m/44'/128'/%d'" % rng.randrange(100), "m/44'/128'/0'/0'/0'", "m/%d'" % rng.randrange(2**31)] + ([] if slip else ["m/44'/128'/0'/0/%d" % rng.randrange(50), "m/1/2/3", "m/0"]))
    p = path or ("m/44'/128'/0'" if slip else "m/44'/128'/0'/0/0")
    kw = dict(slip0010=slip)
    if path is not None:
        kw["path"] = path
    mode = rng.choice(["seed", "words", "words", "index"])
    if mode == "seed":
        seed = gen.rb(rng, rng.choice([16, 32, 64]))
        sd = SeedDerivation.from_master_seed(seed, **kw)
    elif mode == "words":
        ws = b39_words(gen.rb(rng, rng.choice([16, 24, 32])))
        pw = rng.choice([b"", b"", b"TREZOR", gen.rb(rng, 9)])
        inp, how = spellings(rng, ws)
        sd = SeedDerivation.from_mnemonics(inp, passphrase=pw, **kw)
        seed = hashlib.pbkdf2_hmac("sha512", " ".join(ws).encode(), b"mnemonic" + pw, 2048)
    else:
        # words printed for a new wallet restore it
        seed = gen.rb(rng, rng.choice([16, 20, 24, 28, 32, 32]))
        ws = bip32.Wallet.from_master_secret(seed).to_seed_words()[0]
        c.eq(list(ws), b39_words(seed), "seed words of a wallet", seed=seed)
        sd = SeedDerivation.from_mnemonics(spellings(rng, ws)[0], as_index=True, **kw)
        bad = list(ws)
        bad[rng.randrange(len(bad))] = rng.choice(b39())
        exp = None
        for e in range(16, 33, 4):
            if len(b39_words(bytes(e))) == len(bad):
                v = 0
                for w in bad:
                    v = v << 11 | b39().index(w)
                ent = (v >> (e // 4)).to_bytes(e, "big")
                exp = b39_words(ent) == bad
        if not exp:
            c.refused(lambda: SeedDerivation.from_mnemonics(bad, as_index=True), "seed words with a wrong checksum accepted", words=" ".join(bad))
            c.count("bad-words-refused")
    c.eq(bytes(sd.master_seed), seed, "seed: " + mode)
    check_sd(c, sd, master_of(seed, slip, p), "hierarchical, " + mode, path=p, slip=slip)
    c.count("hd-wallets")
    c.distinct("hd", mode, slip, p.count("/"), path is None)


def fam_repeat(c):
    """Wallets restored in one process from words and seeds that differ in one respect."""
    from monero_glue.xmr.sub.seed import SeedDerivation

    rng = c.rng
    W = words()
    e = gen.rb(rng, 16)
    wss = [b39_words(e), b39_words(e[:15] + gen.rb(rng, 1)), b39_words(e + e)]
    pws = [b"", b"TREZOR", b"TREZOS"]
    paths = [None, "m/44'/128'/1'", "m/44'/128'/2'"]
    s = gen.rb(rng, 32)
    lst = [s, s[:31] + bytes([s[31] ^ 1]), s[::-1], s[:16], s[16:]]
    hist = []
    for step in range(16):
        if rng.random() < 0.6:
            if hist and rng.random() < 0.6:
                k = list(rng.choice(hist))
                j = rng.randrange(4)
                k[j] = rng.randrange((3, 3, 2, 3)[j])
            else:
                k = [rng.randrange(3), rng.randrange(3), rng.randrange(2), rng.randrange(3)]
            hist.append(tuple(k))
            ws, pw, slip, path = wss[k[0]], pws[k[1]], bool(k[2]), paths[k[3]]
            kw = dict(slip0010=slip)
            if path:
                kw["path"] = path
            inp, how = spellings(rng, ws)
            sd = SeedDerivation.from_mnemonics(inp, passphrase=pw, **kw)
            seed = hashlib.pbkdf2_hmac("sha512", " ".join(ws).encode(), b"mnemonic" + pw, 2048)
            c.eq(bytes(sd.master_seed), seed, "seed depends on earlier wallets", words=ws, passphrase=pw)
            check_sd(c, sd, master_of(seed, slip, path or ("m/44'/128'/0'" if slip else "m/44'/128'/0'/0/0")), "hierarchical, after others", path=path, slip=slip)
        else:
            x = rng.choice(lst)
            ck = rng.random() < 0.5
            sd = SeedDerivation.from_monero_mnemonics(spellings(rng, enc(W, x, ck))[0]) if rng.random() < 0.7 else SeedDerivation.from_monero_seed(x if len(x) == 32 else x + x)
            check_sd(c, sd, x if len(x) == 32 else x + x, "after others")
        c.count("repeated-wallets")
    c.distinct("repeat", len(set(hist)))


def tool(mod, argv):
    """runs a command line tool in this process; what it printed"""
    import asyncio
    import contextlib
    import importlib
    import io
    import logging
    import sys

    m = importlib.import_module(mod)
    out, old, lg = io.StringIO(), sys.argv, logging.root.manager.disable
    logging.disable(logging.CRITICAL)
    sys.argv = [mod] + argv
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            if hasattr(m, "amain"):
                loop = asyncio.new_event_loop()
                try:
                    loop.run_until_complete(m.amain())
                finally:
                    loop.close()
            else:
                m.main()
        return out.getvalue(), None
    except (SystemExit, Exception) as e:
        return out.getvalue(), e
    finally:
        sys.argv = old
        logging.disable(lg)


def table(txt):
    d = {}
    for ln in txt.split("\n"):
        k, sep, v = ln.partition(":")
        if sep and v.strip():
            d[k.strip().lower()] = v.strip()
    return d


def split_args(rng, ws):
    r = rng.randrange(3)
    if r == 0:
        return list(ws)
    if r == 1:
        return [" ".join(ws)]
    k = rng.randrange(1, len(ws))
    return [" ".join(ws[:k]), " ".join(ws[k:]).upper()]


def check_printed(c, txt, master, **w):
    from ..ref import b58m

    d = table(txt)
    b, a = keys_of(master)
    B, A = ed.enc(ed.mulb(b)), ed.enc(ed.mulb(a))
    exp = {"private spend key": ed.scenc(b).hex(), "private view key": ed.scenc(a).hex(), "public spend key": B.hex(), "public view key": A.hex(), "seed monero": master.hex(), "seed monero wrds": " ".join(enc(words(), master, True))}
    for net, name in ((0, "mainnet"), (1, "testnet"), (2, "stagenet")):
        exp[name + " address"] = b58m.addr_encode(b58m.TAGS[net][0], B + A).decode()
    for k, v in exp.items():
        c.eq(d.get(k), v, "printed " + k, **w)
    return b, a


def fam_tools(c):
    """the command line tools over the same derivations"""
    from ..ref import b58m

    rng = c.rng
    W = words()
    mode = rng.choice(["words", "words", "index", "seed", "electrum", "electrum", "master", "conflict", "bad", "generate", "init", "init"])
    opts, path, slip, exp = [], None, False, None
    if mode in ("words", "index", "seed"):
        slip = rng.random() < 0.4
        if slip:
            opts.append("--slip0010")
        if rng.random() < 0.5:
            path = rng.choice(["m/44'/128'/%d'" % rng.randrange(9)] + ([] if slip else ["m/44'/128'/0'/0/%d" % rng.randrange(5), "m/1/2"]))
            opts += ["--path", path]
    p = path or ("m/44'/128'/0'" if slip else "m/44'/128'/0'/0/0")
    if mode == "words":
        ws = b39_words(gen.rb(rng, rng.choice([16, 24, 32])))
        pw = rng.choice(["", "", "TREZOR", "a b c", "p\u00e4ss"])
        if pw:
            opts += ["--passphrase", pw]
        seed = hashlib.pbkdf2_hmac("sha512", " ".join(ws).encode(), b"mnemonic" + pw.encode(), 2048)
        inp, exp = split_args(rng, ws), master_of(seed, slip, p)
    elif mode == "index":
        seed = gen.rb(rng, rng.choice([16, 32]))
        opts.append("--wlist-seed")
        inp, exp = split_args(rng, b39_words(seed)), master_of(seed, slip, p)
    elif mode == "seed":
        seed = gen.rb(rng, rng.choice([16, 32, 64]))
        opts.append("--seed")
        inp, exp = [rng.choice([seed.hex(), seed.hex().upper()])], master_of(seed, slip, p)
    elif mode in ("electrum", "bad"):
        s = seeds(rng, rng.choice([16, 32, 32]))
        ws = enc(W, s, rng.random() < 0.7)
        opts.append("--electrum-mnemonics")
        if mode == "bad":
            _, ws = alter(rng, W, ws)
            low = [x.lower() for y in ws for x in y.split()]
            if len(low) < 2 or dec(W, low) is not None:
                return
        inp, exp = split_args(rng, ws), s if len(s) == 32 else s + s
    elif mode == "master":
        opts.append("--monero-master")
        exp = seeds(rng, 32)
        inp = [exp.hex()]
    if mode in ("words", "index", "seed", "electrum", "master", "bad"):
        nets = [n for n in ("--mainnet", "--testnet", "--stagenet") if rng.random() < 0.3]
        subs = rng.random() < 0.4
        opts += nets + (["--subs"] if subs else [])
        argv = opts + ["--"] + inp if rng.random() < 0.3 else inp + opts
        txt, err = tool("monero_poc.seed", argv)
        if mode == "bad":
            c.ok(err is not None, "seed tool shows a wallet for bad words", argv=argv)
            c.ok("spend" not in txt.lower(), "seed tool shows keys for bad words", argv=argv, out=txt)
        else:
            c.ok(err is None, "seed tool failed", argv=argv, error=repr(err))
            b, a = check_printed(c, txt, exp, argv=argv)
            d = table(txt)
            if mode in ("words", "index", "seed"):
                c.eq(d.get("seed bip32 b58"), seed.hex(), "printed master seed", argv=argv)
            if subs:
                want = []
                for i, n in enumerate(("--mainnet", "--testnet", "--stagenet")):
                    if n in nets or (not nets and i == 0):
                        for mj in range(5):
                            for mi in range(5):
                                if (mj, mi) != (0, 0):
                                    D, C = cn.subaddr_pub(a, ed.mulb(b), mj, mi)
                                    want.append("%d, %d: %s" % (mj, mi, b58m.addr_encode(b58m.TAGS[i][2], ed.enc(D) + ed.enc(C)).decode()))
                got = [ln.strip() for ln in txt.split("\n") if re.match(r"\s*\d+, \d+:", ln)]
                c.eq(got, want, "printed subaddresses", argv=argv)
                c.count("subaddresses_printed", len(want))
    elif mode == "conflict":
        s = seeds(rng, 32)
        fl = rng.choice([["--seed", "--monero-master"], ["--electrum-mnemonics", "--wlist-seed"], ["--monero-master", "--slip0010"], ["--monero-master", "--path", "m/0"], ["--electrum-mnemonics", "--path", "m/0"], ["--electrum-mnemonics", "--slip0010"]])
        inp = enc(W, s, True) if "--electrum-mnemonics" in fl else [s.hex()]
        txt, err = tool("monero_poc.seed", inp + fl)
        c.ok(err is not None and "spend" not in txt.lower(), "contradicting options accepted", opts=fl, out=txt)
    elif mode == "generate":
        n, fl = rng.choice([(0, []), (1, ["--testnet"]), (2, ["--stagenet"])])
        txt, err = tool("monero_poc.generate_creds", fl)
        c.ok(err is None, "credentials tool failed", error=repr(err))
        d = table(txt)
        a, b = (int.from_bytes(bytes.fromhex(d["private %s key" % k]), "little") for k in ("view", "spend"))
        c.ok(0 < a < L and 0 < b < L and a != b, "generated keys are reduced and distinct")
        c.eq(d["address"], b58m.addr_encode(b58m.TAGS[n][0], ed.enc(ed.mulb(b)) + ed.enc(ed.mulb(a))).decode(), "address of the generated keys")
        for k in (a, b):
            c.ok(k not in GENERATED, "a generated key repeats")
            GENERATED.add(k)
    else:
        init_tool(c)
    c.count("tool:" + mode)
    c.distinct("tools", mode, tuple(o for o in opts if o.startswith("--")), p)


GENERATED = set()


def init_tool(c):
    """the device initializer, with stand-ins for the device library"""
    import sys

    import trezorlib.client
    import trezorlib.debuglink
    import trezorlib.device
    import trezorlib.transport

    rng = c.rng
    log = []

    class Client:
        def __init__(self, *a, **k):
            log.append(("open", a))

        def close(self):
            log.append(("close",))

    given = rng.random() < 0.75
    ws = " ".join(b39_words(gen.rb(rng, rng.choice([16, 32]))))
    argv = ["--mnemonic", ws] if given else rng.choice([[], ["--mnemonic-idx", "1"]])
    pin, label = rng.choice(["", "1234"]), rng.choice(["", "my device"])
    argv += (["--pin", pin] if pin else []) + (["--label", label] if label else []) + (["--passphrase"] if rng.random() < 0.5 else []) + (["--debug-link"] if rng.random() < 0.3 else [])
    path = rng.choice([None, "udp:127.0.0.1:21324"])
    if path:
        argv += ["--trezor-path", path]
    stand = [
        (trezorlib.client, "TrezorClient", Client),
        (trezorlib.debuglink, "TrezorClientDebugLink", Client),
        (trezorlib.transport, "get_transport", lambda p=None, *a, **k: log.append(("transport", p)) or p),
        (trezorlib.device, "wipe", lambda *a, **k: log.append(("wipe",))),
        (trezorlib.debuglink, "load_device_by_mnemonic", lambda *a, **k: log.append(("load", k))),
    ]
    saved = [(m, n, getattr(m, n)) for m, n, _ in stand]
    sys.modules.pop("monero_poc.trezor_init", None)
    try:
        for m, n, v in stand:
            setattr(m, n, v)
        _, err = tool("monero_poc.trezor_init", argv)
    finally:
        for m, n, v in saved:
            setattr(m, n, v)
        sys.modules.pop("monero_poc.trezor_init", None)
    c.ok(err is None, "initializer failed", error=repr(err), argv=argv)
    load = [e[1] for e in log if e[0] == "load"]
    c.eq([e[0] for e in log if e[0] in ("wipe", "load")], ["wipe", "load"], "device is wiped and loaded once")
    k = load[0]
    if given:
        c.eq(k["mnemonic"], ws, "words loaded to the device are those given", argv=argv)
    c.eq((k["pin"], k["label"], k["passphrase_protection"]), (pin, label, "--passphrase" in argv), "settings of the device", argv=argv)
    c.count("initialized")


FAMILIES = {
    "codec": dict(fn=fam_codec, quick={"tcry": 40}, thorough={"tcry": 3000}, backends=("tcry",), weight=1),
    "refuse": dict(fn=fam_refuse, quick={"tcry": 80}, thorough={"tcry": 6000}, backends=("tcry",), weight=1),
    "wallet": dict(fn=fam_wallet, quick={"tcry": 120, "py": 6}, thorough={"tcry": 6000, "py": 150}, backends=("tcry", "py"), weight=1),
    "hd": dict(fn=fam_hd, quick={"tcry": 60, "py": 5}, thorough={"tcry": 3000, "py": 100}, backends=("tcry", "py"), weight=2),
    "repeat": dict(fn=fam_repeat, quick={"tcry": 6, "py": 1}, thorough={"tcry": 300, "py": 10}, backends=("tcry", "py"), weight=3),
    "tools": dict(fn=fam_tools, quick={"tcry": 60}, thorough={"tcry": 2500}, backends=("tcry",), weight=2),
}
