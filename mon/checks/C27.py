"""Hierarchical key derivation follows the published standards."""

import hashlib

from .. import cross, gen
from ..ref import secp

RULE = (
    "seeds of 16..64 bytes, BIP32 paths of 0..6 steps mixing hardened and normal, by path strings and by single steps in every call form, private and public chains, SLIP-0010 ed25519 hardened paths; node by node "
    "against an independent secp256k1/BIP32; serialized extended keys (binary, hex, base58) of every network round-tripped and altered, WIF keys likewise, base58(check) strings, word-list entropy. "
    "distinct = (kind, path shape, network, alteration)"
)
ASSUMPTIONS = ["public keys of ed25519 nodes follow Monero, not SLIP-0010, and are not judged; extended keys of depth 256 are out of range"]


def ref_master(seed, slip):
    return secp.slip_master(seed) if slip else secp.master(seed)


def parse(path):
    out = []
    for p in path.split("/"):
        if p in ("m", "M"):
            continue
        h = p[-1] in "'p"
        out.append((int(p.rstrip("'p")), h))
    return out


def ref_path(node, path, slip):
    """-> (key bytes, chain code) of a private path."""
    for i, h in parse(path):
        if slip:
            assert h
            node = secp.slip_ckd(node, i)
        else:
            node = secp.ckd(node, i, h)
    if slip:
        return node
    return node.k.to_bytes(32, "big"), node.cc


NETS = ["bitcoin_testnet", "bitcoin", "dogecoin", "dogecoin_testnet", "litecoin", "litecoin_testnet", "bitcoin_cash", "bitcoin_gold", "dash", "dash_testnet", "monero"]


def net(name):
    from monero_glue.misc.bip.bip32 import Wallet

    return Wallet.get_network(name)


def same(c, w, n, network, what, **d):
    """wallet node equals reference node."""
    priv = n.k is not None
    c.eq(bool(w.private_key), priv, "private part of a node: " + what, **d)
    if priv:
        c.eq(bytes(w.get_private_key_hex()).decode(), n.k.to_bytes(32, "big").hex(), "private key: " + what, **d)
    c.eq(bytes(w.get_public_key_hex()).decode(), secp.ser(n.pub).hex(), "public key: " + what, **d)
    c.eq(bytes(w.chain_code).decode(), n.cc.hex(), "chain code: " + what, **d)
    c.eq((w.depth, w.child_number), (n.depth, n.num), "depth and child number: " + what, **d)
    c.eq(bytes(w.parent_fingerprint).decode(), "0x" + n.fp.hex(), "parent fingerprint: " + what, **d)
    h = secp.hash160(secp.ser(n.pub))
    c.eq((bytes(w.identifier).decode(), bytes(w.fingerprint).decode()), (h.hex(), "0x" + h[:4].hex()), "identifier: " + what, **d)
    nt = net(network)
    if priv:
        c.eq(bytes(w.serialize(True)).decode(), n.ser(nt.EXT_SECRET_KEY).hex(), "private serialization: " + what, **d)
        c.eq(str(w.serialize_b58(True)), b58check(n.ser(nt.EXT_SECRET_KEY)), "private base58: " + what, **d)
    else:
        c.refused(lambda: w.serialize(True), "public node serialized as private")
    c.eq(bytes(w.serialize(False)).decode(), n.neuter().ser(nt.EXT_PUBLIC_KEY).hex(), "public serialization: " + what, **d)
    c.eq(str(w.to_address()), b58check(bytes([nt.PUBKEY_ADDRESS]) + h), "address: " + what, **d)


A = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"


def b58(b):
    v = int.from_bytes(b, "big")
    out = bytearray()
    while v:
        v, r = divmod(v, 58)
        out.append(A[r])
    return (b"1" * (len(b) - len(b.lstrip(b"\0"))) + bytes(reversed(out))).decode()


def b58check(b):
    return b58(b + hashlib.sha256(hashlib.sha256(b).digest()).digest()[:4])


def idx(rng):
    return rng.choice([0, 1, 2, 44, 128, 2**31 - 1, rng.randrange(2**31), rng.randrange(1000)])


def child(rng, w, i, h, form=None):
    """one derivation step in one of the call forms."""
    f = form if form is not None else rng.randrange(5)
    if f == 0:
        return w.get_child(i, h)
    if f == 1:
        return w.get_child(i, is_prime=h)
    if f == 2:
        return w.get_child(child_number=i, is_prime=h)
    if f == 3 and (i != 0 or not h):
        return w.get_child(-i if h else i)
    return w.get_child_for_path("m/%d%s" % (i, rng.choice("'p") if h else ""))


def fam_derive(c):
    from monero_glue.misc.bip.bip32 import Wallet

    rng = c.rng
    seed = gen.rb(rng, rng.choice([16, 32, 64, 20]))
    network = rng.choice(NETS)
    w = Wallet.from_master_secret(seed, network=network)
    n = secp.master(seed)
    same(c, w, n, network, "master")
    shape = ""
    path = "m"
    for step in range(rng.choice([1, 1, 2, 3])):
        i = idx(rng)
        h = rng.random() < 0.5
        path += "/%d%s" % (i, "'" if h else "")
        shape += "h" if h else "n"
        # both kinds of the same index, in either order: they are different keys
        forms = rng.randrange(1, 3)
        if rng.random() < 0.5:
            other = child(rng, w, i, not h, forms)
            same(c, other, secp.ckd(n, i, not h), network, "sibling of the other kind", path=path)
            c.count("sibling-pairs")
        w2 = child(rng, w, i, h, forms if rng.random() < 0.6 else None)
        n2 = secp.ckd(n, i, h)
        same(c, w2, n2, network, "child", path=path)
        pub = w.public_copy()
        same(c, pub, n.neuter(), network, "public copy", path=path)
        if h:
            c.refused(lambda: child(rng, pub, i, True, 1), "hardened child of a public node", path=path)
        else:
            wp = child(rng, pub, i, False)
            same(c, wp, n2.neuter(), network, "public derivation", path=path)
            c.ok(wp == w2.public_copy(), "private and public derivations of a path disagree", path=path)
            if rng.random() < 0.5:
                u = w.create_new_address_for_user(i)
                same(c, u, n2.neuter(), network, "user address", path=path)
            if rng.random() < 0.4:
                cr = wp.public_copy() and pub.crack_private_key(w2)
                same(c, cr, n, network, "recovered parent", path=path)
                c.count("recovered-parents")
                # somebody else's child gives nothing away
                stray = Wallet.from_master_secret(seed + b"x", network=network).get_child(i, False)
                c.refused(lambda: pub.crack_private_key(stray), "parent recovered from a key that is no child of it", path=path)
            c.count("public-derivations")
        w, n = w2, n2
        c.count("children")
    top = Wallet.from_master_secret(seed, network=network)
    same(c, top.get_child_for_path(path), n, network, "whole path", path=path)
    for pp in ("M" + path[1:], path + ".pub", "M" + path[1:] + ".pub"):
        same(c, top.get_child_for_path(pp), n.neuter(), network, "public path", path=pp)
    same(c, top.get_child_for_path(path.replace("'", "p")), n, network, "path with p", path=path)
    c.distinct("derive", shape, network, len(seed))
    c.sample(dict(path=path, network=network, seed=seed))


def fam_paths(c):
    """Malformed paths and numbers out of range are refused."""
    from monero_glue.misc.bip.bip32 import Wallet

    rng = c.rng
    w = Wallet.from_master_secret(gen.rb(rng, 32), network="monero")
    for bad in ("", "m/", "m//1", "m/x", "m/1''", "m/1'2'", "m/1p2'", "m/'", "m/2147483648", "m/2147483648'", "m/4294967296", "m/-2147483648", "m/1'/y", "m/1.5", "m/0x10", "1/2/z", "m/p", "m/1h", "m/44'/128'/0'/0/0/"):
        c.refused(lambda: w.get_child_for_path(bad), "malformed path accepted", path=bad)
        c.distinct("path", bad)
    for i, h in ((2**31, None), (2**31, True), (2**31, False), (-1, True), (-1, False), (-(2**31), None), (2**32, None)):
        c.refused(lambda: w.get_child(i, h), "child number out of range accepted", i=i, h=h)
    we = Wallet.from_master_secret(gen.rb(rng, 32), use_ed25519=True)
    c.refused(lambda: we.get_child_for_path("m/1"), "normal derivation on ed25519")
    c.count("malformed-paths", 26)


def fam_slip(c):
    from monero_glue.misc.bip.bip32 import Wallet

    rng = c.rng
    seed = gen.rb(rng, rng.choice([16, 32, 64]))
    w = Wallet.from_master_secret(seed, use_ed25519=True)
    kc = secp.slip_master(seed)
    top = w
    path = "m"
    for _ in range(rng.choice([0, 1, 3, 5])):
        i = idx(rng)
        path += "/%d'" % i
        if rng.random() < 0.4:
            c.refused(lambda: w.get_child(i, is_prime=False), "normal derivation on ed25519", path=path)
        w = child(rng, w, i, True)
        kc = secp.slip_ckd(kc, i)
        c.eq((bytes(w.get_private_key_hex()).decode(), bytes(w.chain_code).decode(), w.depth, w.child_number), (kc[0].hex(), kc[1].hex(), path.count("/"), i + 2**31), "ed25519 child", path=path)
        c.count("ed25519-children")
    w2 = top.get_child_for_path(path)
    c.eq((bytes(w2.get_private_key_hex()).decode(), bytes(w2.chain_code).decode()), (kc[0].hex(), kc[1].hex()), "ed25519 path", path=path)
    c.distinct("slip", path.count("/"), len(seed))


def rnd_node(rng, priv):
    # secrets with leading zero bytes as well
    k = rng.choice([rng.randrange(1, secp.N), rng.randrange(1, secp.N), rng.getrandbits(rng.choice([248, 247, 240, 192, 8])) or 1])
    n = secp.Node(k, secp.mul(secp.G, k), gen.rb(rng, 32), rng.choice([1, 2, 255, rng.randrange(1, 256)]), gen.rb(rng, 4), rng.choice([0, 2**31, 2**32 - 1, rng.getrandbits(32)]))
    if rng.random() < 0.2:
        n.depth, n.fp, n.num = 0, bytes(4), 0
    if rng.random() < 0.1:
        n.cc = bytes(31) + b"\1"
        n.fp = b"\0\0\0\1" if n.depth else bytes(4)
    return n if priv else n.neuter()


def fam_serial(c):
    from monero_glue.misc.bip.bip32 import Wallet

    rng = c.rng
    for _ in range(4):
        network = rng.choice(NETS)
        nt = net(network)
        priv = rng.random() < 0.5
        n = rnd_node(rng, priv)
        raw = n.ser(nt.EXT_SECRET_KEY if priv else nt.EXT_PUBLIC_KEY)
        form = rng.choice(["raw", "hex", "hexb", "b58", "b58b"])
        s = {"raw": raw, "hex": raw.hex(), "hexb": raw.hex().encode(), "b58": b58check(raw), "b58b": b58check(raw).encode()}[form]
        w = Wallet.deserialize(s, network=network)
        same(c, w, n, network, "deserialized", form=form)
        w2 = Wallet.deserialize(w.serialize_b58(priv), network=network)
        c.ok(w == w2 and not (w != w2), "serialization round trip", network=network)
        if priv:
            p = Wallet.deserialize(w.serialize(False), network=network)
            same(c, p, n.neuter(), network, "public half", form=form)
            c.ok(p != w, "public and private node compare equal")
        if n.depth < 255:
            i, h = idx(rng), priv and rng.random() < 0.5
            same(c, child(rng, w, i, h), secp.ckd(n, i, h), network, "child of a deserialized node")
            k1 = child(rng, w, i, h)
            k2 = Wallet.deserialize(k1.serialize(priv), network=network)
            c.ok(k1 == k2, "a derived node differs from its own serialization", network=network, private=priv)
        c.count("serialized")
        c.distinct("serial", network, priv, form)
        # another network's key
        alien = rng.choice([x for x in NETS if net(x).EXT_SECRET_KEY != nt.EXT_SECRET_KEY and net(x).EXT_PUBLIC_KEY != nt.EXT_PUBLIC_KEY])
        c.refused(lambda: Wallet.deserialize(s, network=alien), "extended key of another network accepted", network=network, alien=alien)
        # bad contents
        k = rng.choice(["swapversion", "prefix", "zero", "order", "notoncurve", "short", "long"])
        b = bytearray(raw)
        if k == "swapversion":
            b[:4] = (nt.EXT_PUBLIC_KEY if priv else nt.EXT_SECRET_KEY).to_bytes(4, "big")
        elif k == "prefix":
            b[45] = rng.choice([1, 5, 255])
        elif k == "zero":
            b = bytearray(n.ser(nt.EXT_SECRET_KEY)[:45]) + bytes(33)
            b[:4] = nt.EXT_SECRET_KEY.to_bytes(4, "big")
        elif k == "order":
            b = bytearray(raw[:45]) + b"\0" + rng.choice([secp.N, secp.N + 1, 2**256 - 1]).to_bytes(32, "big")
            b[:4] = nt.EXT_SECRET_KEY.to_bytes(4, "big")
        elif k == "notoncurve":
            while True:
                x = b"\2" + gen.rb(rng, 32)
                if secp.unser(x) is None:
                    break
            b = bytearray(raw[:45]) + x
            b[:4] = nt.EXT_PUBLIC_KEY.to_bytes(4, "big")
        elif k == "short":
            b = b[:-1]
        elif k == "long":
            b = b + b"\0"
        c.refused(lambda: Wallet.deserialize(bytes(b), network=network), "invalid extended key accepted: " + k, key_=bytes(b))
        if len(b) == 78:
            c.refused(lambda: Wallet.deserialize(b58check(bytes(b)), network=network), "invalid extended key accepted (base58): " + k)
        # altered strings
        t = bytearray(b58check(raw).encode())
        for _ in range(6):
            u = bytearray(t)
            q = rng.choice(["sub", "ins", "del", "swap", "foreign"])
            i = rng.randrange(len(u))
            if q == "sub":
                u[i] = rng.choice([x for x in A if x != u[i]])
            elif q == "ins":
                u.insert(i, rng.choice(A))
            elif q == "del":
                del u[i]
            elif q == "swap":
                j = (i + 1) % len(u)
                u[i], u[j] = u[j], u[i]
            else:
                u[i] = rng.choice(b"0OIl+/ ")
            if bytes(u) == bytes(t):
                continue
            c.refused(lambda: Wallet.deserialize(bytes(u).decode(), network=network), "altered extended key accepted: " + q, string=bytes(u).decode())
            c.count("altered-strings")
            c.distinct("serial-alter", q, k)


def b58dec(s):
    """bytes or None."""
    v = 0
    for ch in s:
        if ch not in A:
            return None
        v = v * 58 + A.index(ch)
    body = v.to_bytes((v.bit_length() + 7) // 8, "big")
    return bytes(len(s) - len(s.lstrip(b"1"))) + body


def fam_base58(c):
    from monero_glue.misc import b58 as pb
    from monero_glue.misc.bip.keys import PrivateKey

    rng = c.rng
    for _ in range(15):
        n = rng.choice([0, 1, 2, 4, 20, 21, 25, 32, 34, 78, rng.randrange(100)])
        b = rng.choice([gen.rb(rng, n), bytes(n), bytes(n // 2) + gen.rb(rng, n - n // 2), b"\xff" * n])
        c.eq(bytes(pb.b58encode(b)).decode(), b58(b), "base58 encoding", data=b)
        c.eq(bytes(pb.b58decode(b58(b))), b, "base58 decoding", data=b)
        s = b58check(b)
        c.eq(bytes(pb.b58encode_check(b)).decode(), s, "base58check encoding", data=b)
        c.eq(bytes(pb.b58decode_check(s)), b, "base58check decoding", data=b)
        for _ in range(5):
            u = bytearray(s.encode())
            i = rng.randrange(len(u))
            q = rng.choice(["sub", "ins", "del", "one", "foreign"])
            if q == "sub":
                u[i] = rng.choice(A)
            elif q == "ins":
                u.insert(i, rng.choice(A))
            elif q == "del":
                del u[i]
            elif q == "one":
                u = bytearray(b"1") + u
            else:
                u[i] = rng.choice([x for x in range(128) if x not in A])
            d = b58dec(bytes(u))
            exp = None
            if d is not None and hashlib.sha256(hashlib.sha256(d[:-4]).digest()).digest()[:4] == d[-4:]:
                exp = d[:-4]
            try:
                got = bytes(pb.b58decode_check(bytes(u)))
            except Exception:
                got = None
            c.eq(got, exp, "verdict on a base58check string: " + q, string=bytes(u).decode("latin1"))
            c.distinct("b58", q, n, exp is None)
        c.count("base58")
    # WIF keys
    for _ in range(2):
        network = net(rng.choice(NETS))
        k = rng.choice([rng.randrange(1, secp.N), 1, secp.N - 1])
        comp = rng.random() < 0.5
        exp = b58check(bytes([network.SECRET_KEY]) + k.to_bytes(32, "big") + (b"\1" if comp else b""))
        key = PrivateKey(k, network=network, compressed=comp)
        c.eq(str(key.export_to_wif()), exp, "exported private key", compressed=comp)
        c.eq(str(PrivateKey(k, network=network).export_to_wif(compressed=comp)), exp, "exported private key", compressed=comp)
        back = PrivateKey.from_wif(exp, network=network)
        c.ok(back == key and back.compressed == comp, "imported private key", compressed=comp)
        pub = secp.mul(secp.G, k)
        c.eq(bytes(back.get_public_key().get_key(True)).decode(), secp.ser(pub).hex(), "public key of an imported key")
        c.eq(bytes(back.get_public_key().get_key(False)).decode(), "04" + pub[0].to_bytes(32, "big").hex() + pub[1].to_bytes(32, "big").hex(), "uncompressed public key")
        from monero_glue.misc.bip.keys import PublicKey

        for f in (True, False):
            h = back.get_public_key().get_key(f)
            p2 = PublicKey.from_hex_key(h, network=network)
            c.eq((p2.x, p2.y), pub, "public key from its encoding")
        u = bytearray(exp.encode())
        i = rng.randrange(len(u))
        u[i] = rng.choice([x for x in A if x != u[i]])
        c.refused(lambda: PrivateKey.from_wif(bytes(u).decode(), network=network), "altered private key string accepted")
        c.count("wif")


def fam_words(c):
    from monero_glue.misc.bip import bip39, bip39_deriv
    from monero_glue.misc.bip.bip32 import Wallet

    rng = c.rng
    W = bip39.english_words
    if c.idx == 0:
        c.eq(hashlib.sha256(("\n".join(W) + "\n").encode()).hexdigest(), "2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda", "BIP39 word list")
    for _ in range(20):
        n = rng.choice([16, 20, 24, 28, 32])
        e = rng.choice([gen.rb(rng, n), bytes(n), b"\xff" * n])
        cs = n // 4
        v = int.from_bytes(e, "big") << cs | hashlib.sha256(e).digest()[0] >> (8 - cs)
        cnt = (n * 8 + cs) // 11
        exp = [(v >> 11 * (cnt - 1 - i)) & 2047 for i in range(cnt)]
        ws, ix = Wallet.from_master_secret(e).to_seed_words()
        c.eq(list(ix), exp, "word indices of an entropy", entropy=e)
        c.eq(list(ws), [W[i] for i in exp], "words of an entropy", entropy=e)
        c.eq(bytes(Wallet.indices_to_bytes(exp))[:n], e, "entropy of the words", entropy=e)
        c.count("entropies")
        c.distinct("entropy", n, e == bytes(n))
    if c.idx % 4 == 0:
        ws = " ".join(rng.choice(W) for _ in range(rng.choice([12, 24])))
        pw = rng.choice([b"", b"TREZOR", gen.rb(rng, 20)])
        c.eq(bytes(bip39_deriv.mnemonics_to_seed(ws, pw)), hashlib.pbkdf2_hmac("sha512", ws.encode(), b"mnemonic" + pw, 2048), "seed of a mnemonic")
        c.count("mnemonic-seeds")


def fam_keys(c):
    """single keys: text forms, brain wallets, differences, addresses"""
    from monero_glue.misc.bip.bip32 import Wallet
    from monero_glue.misc.bip.keys import PrivateKey, PublicKey

    rng = c.rng
    for _ in range(3):
        network = rng.choice(NETS)
        nt = net(network)
        pick = lambda: rng.choice([1, 2, secp.N - 1, rng.randrange(1, secp.N), rng.randrange(1, secp.N), rng.getrandbits(rng.choice([248, 192, 8])) or 1])
        k, k2 = pick(), pick()
        raw = k.to_bytes(32, "big")
        form = rng.choice(["raw", "hex", "hexb"])
        key = PrivateKey.from_hex_key({"raw": raw, "hex": raw.hex(), "hexb": raw.hex().encode()}[form], nt)
        c.eq(bytes(key.get_key()).decode(), raw.hex(), "private key read", form=form)
        c.ok(key == PrivateKey(k, network=nt) and key.network is nt, "private key differs from its own text", form=form)
        c.eq(key == PrivateKey(k2, network=nt), k == k2, "private keys compared", k=k, k2=k2)
        for bad in (raw[:31], raw + b"\0", raw.hex()[:-1], raw.hex() + "0", raw.hex()[:-1] + "g", bytes(32), secp.N.to_bytes(32, "big"), b"\xff" * 32, ""):
            c.refused(lambda: PrivateKey.from_hex_key(bad, nt), "invalid private key accepted", key_=bad)
        # exported form: only what an export makes is read
        for tail in (b"", b"\1"):
            c.ok(PrivateKey.from_wif(b58check(bytes([nt.SECRET_KEY]) + raw + tail), nt) == key, "exported key read", tail=tail)
        bad = raw[:31] + b"\1"
        for pay in (raw + b"\0", raw + b"\2", raw + b"\1\1", bad[:31], b"\1", b"", b"\0" + raw[:31] + b"\1" * 2, bytes(32), bytes(32) + b"\1", secp.N.to_bytes(32, "big")):
            c.refused(lambda: PrivateKey.from_wif(b58check(bytes([nt.SECRET_KEY]) + pay), nt), "key of a wrong form accepted", payload=pay)
        c.refused(lambda: PrivateKey.from_wif(b58check(bytes([nt.SECRET_KEY ^ 1]) + raw), nt), "key of another network accepted")
        # difference
        if k != k2:
            c.eq(bytes((key - PrivateKey(k2, network=nt)).get_key()).decode(), ((k - k2) % secp.N).to_bytes(32, "big").hex(), "difference of private keys", k=k, k2=k2)
        # public side
        P = secp.mul(secp.G, k)
        comp, unc = secp.ser(P), b"\4" + P[0].to_bytes(32, "big") + P[1].to_bytes(32, "big")
        pub = key.get_public_key()
        c.eq((bytes(pub.get_key(True)), bytes(pub.get_key(False))), (comp.hex().encode(), unc.hex().encode()), "public key", k=k)
        c.eq((pub.x, pub.y), (P[0], P[1]), "point of the public key")
        for b in (comp, unc):
            f = rng.choice(["raw", "hex", "hexb"])
            q = PublicKey.from_hex_key({"raw": b, "hex": b.hex(), "hexb": b.hex().encode()}[f], network=nt)
            c.eq((q.x, q.y), (P[0], P[1]), "public key read", form=f, size=len(b))
            c.eq(bytes(q.get_key()), b.hex().encode(), "form of a public key read", form=f)
            h = secp.hash160(b)
            c.eq(str(q.to_address()), b58check(bytes([nt.PUBKEY_ADDRESS]) + h), "address of a public key", size=len(b))
            c.eq(str(q.to_address(compressed=b is not comp)), b58check(bytes([nt.PUBKEY_ADDRESS]) + secp.hash160(unc if b is comp else comp)), "address in the other form", size=len(b))
            other = PublicKey.from_hex_key(secp.ser(secp.mul(secp.G, k2)), network=nt)
            c.eq(q == other, k == k2, "public keys compared")
        while True:
            x = gen.rb(rng, 32)
            if secp.unser(b"\2" + x) is None:
                break
        for bad in (comp[:-1], comp + b"\0", unc[:-1], unc + b"\0", b"\5" + comp[1:], b"\0" + comp[1:], b"\2" + x, b"\3" + x, unc[:-1] + bytes([unc[-1] ^ 1]), b"\4" + comp[1:], b"\2" + unc[1:]):
            c.refused(lambda: PublicKey.from_hex_key(bad, network=nt), "invalid public key accepted", key_=bad)
        # brain wallet
        pw = rng.choice(["", "correct horse", "p\u00e4ss", "x" * 200, "%d" % rng.getrandbits(40)])
        e = hashlib.sha256(pw.encode()).digest()
        c.eq(bytes(PrivateKey.from_master_password(pw, nt).get_key()).decode(), e.hex(), "key of a password", password=pw)
        c.count("keys")
        c.distinct("keys", network, form)
    if c.idx % 5 == 0:
        d = bytes(32)
        import hmac as hm

        for _ in range(50000):
            d = hm.digest(pw.encode(), d, "sha256")
        same(c, Wallet.from_master_secret_slow(pw, network=network), secp.master(d), network, "wallet of a password", password=pw)
        a, b = Wallet.new_random_wallet(network=network), Wallet.new_random_wallet(network=network)
        c.ok(a != b and a.depth == 0 and a.private_key is not None, "random wallets")
        c.ok(Wallet.deserialize(a.serialize_b58(True), network=network) == a, "random wallet differs from its own serialization")
        c.count("slow")


FAMILIES = {
    "derive": dict(fn=fam_derive, quick={"tcry": 60}, thorough={"tcry": 4000}, backends=("tcry",), weight=4),
    "paths": dict(fn=fam_paths, quick={"tcry": 4}, thorough={"tcry": 40}, backends=("tcry",), weight=2),
    "history": dict(fn=cross.c27, quick={"tcry": 6}, thorough={"tcry": 200}, backends=("tcry",), weight=3),
    "curves": dict(fn=cross.c27slip, quick={"tcry": 3}, thorough={"tcry": 60}, backends=("tcry",), weight=1),
    "slip": dict(fn=fam_slip, quick={"tcry": 40, "py": 10}, thorough={"tcry": 2000, "py": 100}, backends=("tcry", "py"), weight=1),
    "serial": dict(fn=fam_serial, quick={"tcry": 40}, thorough={"tcry": 3000}, backends=("tcry",), weight=4),
    "base58": dict(fn=fam_base58, quick={"tcry": 60}, thorough={"tcry": 4000}, backends=("tcry",), weight=1),
    "keys": dict(fn=fam_keys, quick={"tcry": 20}, thorough={"tcry": 1000}, backends=("tcry",), weight=2),
    "words": dict(fn=fam_words, quick={"tcry": 40}, thorough={"tcry": 3000}, backends=("tcry",), weight=1),
}
