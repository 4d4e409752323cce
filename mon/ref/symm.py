"""ChaCha20 (64-bit and 96-bit nonces), Poly1305 and the RFC 8439 AEAD, written from the RFC; AES
through the `cryptography` package (the code under test uses pycryptodome for AES)."""

import struct

M32 = 0xFFFFFFFF


def _qr(s, a, b, c, d):
    s[a] = (s[a] + s[b]) & M32
    x = s[d] ^ s[a]
    s[d] = ((x << 16) | (x >> 16)) & M32
    s[c] = (s[c] + s[d]) & M32
    x = s[b] ^ s[c]
    s[b] = ((x << 12) | (x >> 20)) & M32
    s[a] = (s[a] + s[b]) & M32
    x = s[d] ^ s[a]
    s[d] = ((x << 8) | (x >> 24)) & M32
    s[c] = (s[c] + s[d]) & M32
    x = s[b] ^ s[c]
    s[b] = ((x << 7) | (x >> 25)) & M32


def block(key, ctr, nonce):
    st = list(struct.unpack("<4I", b"expand 32-byte k")) + list(struct.unpack("<8I", key))
    if len(nonce) == 8:
        st += [ctr & M32, ctr >> 32] + list(struct.unpack("<2I", nonce))
    else:
        st += [ctr & M32] + list(struct.unpack("<3I", nonce))
    w = list(st)
    for _ in range(10):
        _qr(w, 0, 4, 8, 12)
        _qr(w, 1, 5, 9, 13)
        _qr(w, 2, 6, 10, 14)
        _qr(w, 3, 7, 11, 15)
        _qr(w, 0, 5, 10, 15)
        _qr(w, 1, 6, 11, 12)
        _qr(w, 2, 7, 8, 13)
        _qr(w, 3, 4, 9, 14)
    return struct.pack("<16I", *[(a + b) & M32 for a, b in zip(w, st)])


def chacha20(key, nonce, data, ctr=0):
    out = bytearray()
    for i in range(0, len(data), 64):
        ks = block(key, ctr + i // 64, nonce)
        out += bytes(a ^ b for a, b in zip(data[i : i + 64], ks))
    return bytes(out)


def poly1305(key, msg):
    r = int.from_bytes(key[:16], "little") & 0x0FFFFFFC0FFFFFFC0FFFFFFC0FFFFFFF
    s = int.from_bytes(key[16:32], "little")
    p = (1 << 130) - 5
    a = 0
    for i in range(0, len(msg), 16):
        a = (a + int.from_bytes(msg[i : i + 16] + b"\x01", "little")) * r % p
    return ((a + s) & ((1 << 128) - 1)).to_bytes(16, "little")


def aead_seal(key, nonce, pt, aad=b""):
    otk = block(key, 0, nonce)[:32]
    ct = chacha20(key, nonce, pt, 1)
    pad = lambda x: bytes(-len(x) % 16)
    return ct + poly1305(otk, aad + pad(aad) + ct + pad(ct) + struct.pack("<QQ", len(aad), len(ct)))


def aead_open(key, nonce, ct, aad=b""):
    if len(ct) < 16 or len(nonce) != 12:
        return None
    body = ct[:-16]
    pt = chacha20(key, nonce, body, 1)
    return pt if aead_seal(key, nonce, pt, aad) == ct else None


def gcm_seal(key, nonce, pt, aad=b""):
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

    e = Cipher(algorithms.AES(key), modes.GCM(nonce)).encryptor()
    e.authenticate_additional_data(aad)
    ct = e.update(pt) + e.finalize()
    return ct, e.tag


def cbc(key, iv, data, enc=True):
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

    x = Cipher(algorithms.AES(key), modes.CBC(iv))
    x = x.encryptor() if enc else x.decryptor()
    return x.update(data) + x.finalize()


def selftest():
    k = bytes(range(32))
    n = bytes.fromhex("000000090000004a00000000")
    assert block(k, 1, n).hex().startswith("10f1e7e4d13b5915500fdd1fa32071c4")
    pt = b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it."
    k = bytes(range(0x80, 0xA0))
    c = aead_seal(k, bytes.fromhex("070000004041424344454647"), pt, bytes.fromhex("50515253c0c1c2c3c4c5c6c7"))
    assert c[-16:].hex() == "1ae10b594f09e26a7e902ecbd0600691" and c.hex().startswith("d31a8d34648e60db7b86afbc53ef7ec2")
    assert chacha20(bytes(32), bytes(8), bytes(64)).hex().startswith("76b8e0ada0f13d90405d6ae55386bd28")
