"""Key-image synchronisation workload and oracle."""

from monero_serialize import xmrtypes as X

from . import dev, gen
from .harness import run
from .ref import cn, ed, sigs
from .ref.ed import L
from .ref.keccak import keccak256


def M():
    from monero_glue import messages

    return messages


def extra_of(o, rng=None, pid=b""):
    e = b"\x01" + ed.enc(o.R)
    if pid:
        e += bytes([2, len(pid)]) + pid
    if o.add_pubs:
        e += b"\x04" + cn.varint(len(o.add_pubs)) + b"".join(ed.enc(x) for x in o.add_pubs)
    return e


def transfer(rng, o, extra=None):
    """TransferDetails of an owned output, as the wallet file would hold it"""
    n = max(o.oidx + 1, len(o.add_pubs)) + rng.randrange(0, 2)
    vout = []
    for i in range(n):
        key = ed.enc(o.P) if i == o.oidx else ed.enc(ed.mulb(gen.rsc(rng)))
        vout.append(X.TxOut(amount=0, target=X.TxoutToKey(key=key)))
    tx = X.TransactionPrefix(version=2, unlock_time=0, vin=[], vout=vout, extra=list(extra if extra is not None else extra_of(o, rng, gen.rb(rng, rng.choice([0, 0, 9, 33])))))
    td = X.TransferDetails()
    td.m_tx = tx
    td.m_internal_output_index = o.oidx
    td.m_subaddr_index = X.SubaddressIndex(major=o.major, minor=o.minor)
    td.m_pk_index = 0
    td.m_amount = o.amount
    td.m_rct = True
    return td


class KI:
    def __init__(self, c, w, n, outs=None):
        rng = c.rng
        self.w = w
        self.outs = outs if outs is not None else [
            fix_idx(rng, gen.owned_output(rng, w, None, rng.randrange(1 << 40), rng.choice([0, 0, 1, 3]), rng.choice([0, 0, 1, 5, rng.randrange(60)])))
            for _ in range(n)
        ]
        self.tds = [self.td(o) for o in self.outs]
        self.rng = rng

    def td(self, o):
        return M().MoneroTransferDetails(
            out_key=ed.enc(o.P),
            tx_pub_key=ed.enc(o.R),
            additional_tx_pub_keys=[ed.enc(x) for x in o.add_pubs] or None,
            internal_output_index=o.oidx,
        )

    def transfers(self):
        return [transfer(self.rng, o) for o in self.outs]

    @staticmethod
    def td_hash(td):
        b = bytes(td.out_key) + bytes(td.tx_pub_key) + b"".join(bytes(x) for x in td.additional_tx_pub_keys or [])
        return keccak256(b + cn.varint(td.internal_output_index or 0))

    def hash(self, tds=None):
        return keccak256(b"".join(self.td_hash(t) for t in (self.tds if tds is None else tds)))

    def subs(self):
        d = {}
        for o in self.outs:
            d.setdefault(o.major, set()).add(o.minor)
        return [M().MoneroSubAddressIndicesList(account=k, minor_indices=sorted(v)) for k, v in d.items()]

    def init_msg(self, num=None, hash=None):
        return M().MoneroKeyImageExportInitRequest(
            num=len(self.tds) if num is None else num, hash=self.hash() if hash is None else hash, address_n=[], network_type=1, subs=self.subs()
        )

    def chunks(self, size=None):
        size = size or self.rng.choice([1, 2, 3, 10])
        return [self.tds[i : i + size] for i in range(0, len(self.tds), size)]

    def go(self, d, size=None):
        """honest session; returns [(ki, c, r)] decrypted"""
        s = Session(d)
        r = s.init(self.init_msg())
        if dev.is_failure(r):
            raise RuntimeError("honest key image export refused: %s" % str(r.message)[-200:])
        for ch in self.chunks(size):
            r = s.step(ch)
            if dev.is_failure(r):
                raise RuntimeError("honest key image export step refused: %s" % str(r.message)[-200:])
        r = s.final()
        if dev.is_failure(r):
            raise RuntimeError("honest key image export end refused: %s" % str(r.message)[-200:])
        return s.open(r.enc_key)

    def check(self, c, res):
        c.eq(len(res), len(self.outs), "number of exported key images")
        for o, (ki, cc, rr) in zip(self.outs, res):
            c.eq(ki, o.ki, "key image of output")
            c.ok(
                sigs.ring_sig_verify(ki, ed.dec(ki), [o.P], [(int.from_bytes(cc, "little"), int.from_bytes(rr, "little"))]),
                "key image proof does not verify under the output key",
            )
            c.count("key_images_verified")


def fix_idx(rng, o):
    return o


class Session:
    def __init__(self, d):
        self.w = dev.Wire(d)
        self.kis = []

    def init(self, m):
        return run(self.w.exchange("key_image_sync", m))

    def step(self, tds):
        r = run(self.w.exchange("key_image_sync", M().MoneroKeyImageSyncStepRequest(tdis=list(tds))))
        if not dev.is_failure(r):
            self.kis += r.kis
        return r

    def final(self):
        return run(self.w.exchange("key_image_sync", M().MoneroKeyImageSyncFinalRequest()))

    def open(self, key):
        """decrypts with an independent cipher"""
        from cryptography.hazmat.primitives.ciphers import Cipher, algorithms

        res = []
        for k in self.kis:
            # ChaCha20-Poly1305 keystream: block 0 is the one-time MAC key, data starts at block 1
            nonce = (1).to_bytes(4, "little") + bytes(k.iv)
            d = Cipher(algorithms.ChaCha20(bytes(key), nonce), mode=None).decryptor()
            p = d.update(bytes(k.blob))
            res.append((p[:32], p[32:64], p[64:96]))
        return res
