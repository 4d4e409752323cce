"""Known-answer tests of the reference model itself (vectors from the Keccak, RFC 8032 and Monero documents)."""

import hashlib

from . import cn, ed, keccak, symm


def main():
    h = lambda s: bytes.fromhex(s)
    assert keccak.keccak256_pure(b"").hex() == "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470"
    assert keccak.keccak256(b"abc").hex() == "4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45"
    for n in (0, 1, 135, 136, 137, 300):
        d = bytes(i & 255 for i in range(n))
        assert keccak.sha3_256_pure(d) == hashlib.sha3_256(d).digest()
        assert keccak.keccak256(d) == keccak.keccak256_pure(d)
    # RFC 8032 test 1: public key of the hashed seed
    k = hashlib.sha512(h("9d61b19deffd5a60ba844af492ec2cc44449c5697b326919703bac031cae7f60")).digest()[:32]
    a = (int.from_bytes(k, "little") & ((1 << 254) - 8)) | (1 << 254)
    assert ed.enc(ed.mul(ed.B, a)).hex() == "d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a"
    assert ed.is_id(ed.mul(ed.B, ed.L)) and ed.eq(ed.mulb(12345), ed.mul(ed.B, 12345))
    # Monero tests/crypto: hash_to_ec, generate_key_derivation
    assert (
        ed.enc(cn.hash_to_ec(h("da66e9ba613919dec28ef367a125bb310d6d83fb9052e71034164b6dc4f392d0"))).hex()
        == "52b3f38753b4e13b74624862e253072cf12f745d43fcfafbe8c217701a6e5875"
    )
    assert ed.enc(ed.dec(h("8b655970153799af2aeadc9ff1add0ea6c7251d54154cfa92c173a0dd39c1f94")))  # H
    assert len(ed.torsion_points()) == 8
    # homomorphism
    assert ed.eq(cn.commit(5, 7), ed.add(ed.mulb(5), ed.mul(cn.H, 7)))
    symm.selftest()
    print("reference model ok")


if __name__ == "__main__":
    main()
