"""Streaming transaction hashes equal the hashes of the whole."""

from .. import dev, gen
from ..harness import run
from ..ref import cn
from ..ref.keccak import keccak256
from ..ref import tx as T

RULE = (
    "random transactions (1..20 inputs, 1..20 outputs, extra of 0..700 bytes, all four signature types, one or several aggregated proofs or Borromean range proofs, proofs raw or as objects) streamed through the prefix hasher and "
    "the signing-message hasher in the device's order with state save/reload at random points (also after a long pause with another session in between), and hashed in one go; every digest against an independently serialized "
    "transaction; every element changed in turn; random step orders against the order automaton; digests returned by the device in real signing sessions. distinct = (type, shape, save points) and step sequences"
)
ASSUMPTIONS = [
    "the transaction-prefix message may be set at any step before the end of the base part (its order is not tracked)",
    "signature types 5 and above are not used by this code base and not hashed by it",
]


class Tx:
    def __init__(self, rng, typ=None, nin=None, nout=None):
        self.type = typ or rng.choice([1, 2, 3, 4])
        nin = nin or (1 if self.type == 1 and rng.random() < 0.5 else rng.choice([1, 1, 2, 3, 5, 16, 20]))
        nout = nout or rng.choice([1, 2, 2, 3, 4, 8, 16, 17])
        self.unlock = rng.choice([0, 1, 127, 128, 500000000, rng.getrandbits(40)])
        self.vin = [
            (rng.choice([0, 0, rng.getrandbits(30)]), [rng.getrandbits(rng.choice([1, 7, 8, 20, 40])) for _ in range(rng.choice([1, 2, 11, 16]))], gen.rb(rng, 32)) for _ in range(nin)
        ]
        self.vout = [(rng.choice([0, 0, 0, rng.getrandbits(20)]), gen.rb(rng, 32)) for _ in range(nout)]
        self.extra = gen.rb(rng, rng.choice([0, 1, 33, 44, 127, 128, 255, 256, 575, 700]))
        self.fee = rng.choice([0, 1, 127, 128, rng.getrandbits(36), (1 << 64) - 1])
        self.pseudo = [gen.rb(rng, 32) for _ in range(nin)]
        self.ecdh = [(gen.rb(rng, 32), gen.rb(rng, 32) if self.type != 4 else gen.rb(rng, 8) + bytes(24)) for _ in range(nout)]
        self.out_pk = [gen.rb(rng, 32) for _ in range(nout)]
        if self.type in (3, 4):
            self.proofs = []
            for _ in range(rng.choice([1, 1, 2, nout])):
                n = rng.choice([6, 7, 8, 9])
                self.proofs.append({k: gen.rb(rng, 32) for k in ("A", "S", "T1", "T2", "taux", "mu", "a", "b", "t")} | {k: [gen.rb(rng, 32) for _ in range(n)] for k in "LR"})
        else:
            self.proofs = [dict(s0=[gen.rb(rng, 32) for _ in range(64)], s1=[gen.rb(rng, 32) for _ in range(64)], ee=gen.rb(rng, 32), Ci=[gen.rb(rng, 32) for _ in range(64)]) for _ in range(nout)]

    # -- independent serialization -----------------------------------------
    def vin_b(self, i):
        a, off, ki = self.vin[i]
        return b"\x02" + cn.varint(a) + cn.varint(len(off)) + b"".join(map(cn.varint, off)) + ki

    def vout_b(self, i):
        a, k = self.vout[i]
        return cn.varint(a) + b"\x02" + k

    def prefix(self):
        b = cn.varint(2) + cn.varint(self.unlock) + cn.varint(len(self.vin)) + b"".join(self.vin_b(i) for i in range(len(self.vin)))
        b += cn.varint(len(self.vout)) + b"".join(self.vout_b(i) for i in range(len(self.vout)))
        return b + cn.varint(len(self.extra)) + self.extra

    def ecdh_b(self, i):
        m, a = self.ecdh[i]
        return a[:8] if self.type == 4 else m + a

    def base(self):
        b = bytes([self.type]) + cn.varint(self.fee)
        if self.type == 2:
            b += b"".join(self.pseudo)
        return b + b"".join(self.ecdh_b(i) for i in range(len(self.ecdh))) + b"".join(self.out_pk)

    def proof_b(self, i):
        p = self.proofs[i]
        if self.type in (3, 4):
            return p["A"] + p["S"] + p["T1"] + p["T2"] + p["taux"] + p["mu"] + b"".join(p["L"]) + b"".join(p["R"]) + p["a"] + p["b"] + p["t"]
        return b"".join(p["s0"]) + b"".join(p["s1"]) + p["ee"] + b"".join(p["Ci"])

    def message(self):
        return keccak256(keccak256(self.prefix()) + keccak256(self.base()) + keccak256(b"".join(self.proof_b(i) for i in range(len(self.proofs)))))

    # -- objects of the code -------------------------------------------------
    def proof_o(self, i):
        from monero_serialize import xmrtypes as x

        p = self.proofs[i]
        if self.type in (3, 4):
            return x.Bulletproof(**p)
        return x.RangeSig(asig=x.BoroSig(s0=p["s0"], s1=p["s1"], ee=p["ee"]), Ci=p["Ci"])

    def tx_o(self, rng):
        from monero_serialize import xmrtypes as x

        t = x.TransactionPrefix() if rng.random() < 0.5 else x.Transaction()
        t.version, t.unlock_time = 2, self.unlock
        t.vin = [x.TxinToKey(amount=a, key_offsets=list(o), k_image=k) for a, o, k in self.vin]
        t.vout = [x.TxOut(amount=a, target=x.TxoutToKey(key=k)) for a, k in self.vout]
        t.extra = bytearray(self.extra)
        return t

    def rv_o(self):
        from monero_serialize import xmrtypes as x

        rv = x.RctSig()
        rv.p = x.RctSigPrunable()
        rv.type, rv.txnFee, rv.message = self.type, self.fee, keccak256(self.prefix())
        rv.ecdhInfo = [x.EcdhTuple(mask=m, amount=a) for m, a in self.ecdh]
        rv.outPk = [x.CtKey(dest=k, mask=m) for (_, k), m in zip(self.vout, self.out_pk)]
        if self.type == 2:
            rv.pseudoOuts = list(self.pseudo)
        elif self.type in (3, 4):
            rv.p.pseudoOuts = list(self.pseudo)
        if self.type in (3, 4):
            rv.p.bulletproofs = [self.proof_o(i) for i in range(len(self.proofs))]
        else:
            rv.p.rangeSigs = [self.proof_o(i) for i in range(len(self.proofs))]
        return rv


def breaks(rng):
    """a function saying at which steps the state is saved and reloaded"""
    k = rng.choice(["never", "always", "some", "one"])
    one = rng.randrange(30)
    n = [0]

    def f():
        n[0] += 1
        return k == "always" or k == "some" and rng.random() < 0.4 or k == "one" and n[0] == one

    f.kind = k
    return f


def stream_prefix(t, rng, br, touch=None):
    from monero_glue.xmr.sub.keccak_hasher import KeccakXmrArchive
    from monero_serialize.core.message_types import BlobType

    h = KeccakXmrArchive()
    saves = 0

    def step(h):
        nonlocal saves
        if br():
            saves += 1
            h = KeccakXmrArchive(ctx=h.ctx())
            if rng.random() < 0.2:
                h.refresh()
        return h

    async def go(h):
        if rng.random() < 0.7:
            h.keep()
        await h.uvarint(2)
        await h.uvarint(t.unlock)
        await h.container_size(len(t.vin))
        h.release()
        h = step(h)
        for i in range(len(t.vin)):
            await h.buffer(t.vin_b(i))
            h = step(h)
        await h.uvarint(len(t.vout))
        for i in range(len(t.vout)):
            await h.buffer(t.vout_b(i))
            h = step(h)

        class E:
            extra = t.extra

        await h.message_field(E, ("extra", BlobType))
        h = step(h)
        return h.get_digest()

    return bytes(run(go(h))), saves


def stream_msg(t, rng, br):
    from monero_glue.xmr.sub.mlsag_hasher import PreMlsagHasher
    from monero_serialize import xmrtypes as x

    h = PreMlsagHasher()
    saves = 0

    def step(h):
        nonlocal saves
        if br():
            saves += 1
            s = h.state_save()
            if rng.random() < 0.5:
                h2 = PreMlsagHasher(state=s)
            else:
                h2 = PreMlsagHasher()
                h2.state_load(s)
            h = h2
        return h

    raw_ecdh = t.type == 4 or rng.random() < 0.5
    order = rng.choice(["early", "late", "mixed"])
    pend = list(range(len(t.proofs)))

    async def proofs(h, n):
        for i in pend[:n]:
            k = rng.choice(["obj", "raw", "chunks"])
            b = t.proof_b(i)
            if k == "obj":
                await h.rsig_val(t.proof_o(i), t.type in (3, 4))
            elif k == "raw":
                await h.rsig_val(b, t.type in (3, 4), raw=True)
            else:
                await h.rsig_val([b[j : j + 32 * 9] for j in range(0, len(b), 32 * 9)], t.type in (3, 4), raw=True)
            h = step(h)
        del pend[:n]
        return h

    async def go(h):
        h.init(t.type != 1)
        h = step(h)
        await h.set_type_fee(t.type, t.fee)
        h = step(h)
        msg_at = rng.choice(["a", "b", "c"])
        msg = keccak256(t.prefix())
        if msg_at == "a":
            await h.set_message(msg)
        if t.type == 2:
            for p in t.pseudo:
                await h.set_pseudo_out(p)
                h = step(h)
        if msg_at == "b":
            await h.set_message(msg)
        for i in range(len(t.ecdh)):
            if order == "early":
                h = await proofs(h, 1)
            if raw_ecdh:
                await h.set_ecdh(t.ecdh_b(i))
            else:
                await h.set_ecdh(x.EcdhTuple(mask=t.ecdh[i][0], amount=t.ecdh[i][1]), raw=False)
            h = step(h)
        if order == "mixed":
            h = await proofs(h, rng.randrange(len(pend) + 1))
        for i in range(len(t.out_pk)):
            if rng.random() < 0.5:
                await h.set_out_pk(t.out_pk[i])
            else:
                await h.set_out_pk(t.vout[i][1], mask=t.out_pk[i])
            h = step(h)
        if msg_at == "c":
            await h.set_message(msg)
            h = step(h)
        await h.rctsig_base_done()
        h = step(h)
        h = await proofs(h, len(pend))
        h = step(h)
        return await h.get_digest()

    return bytes(run(go(h))), saves, order


def f_stream(c):
    """family 'stream': digests with save and reload"""
    from monero_glue.xmr import monero

    rng = c.rng
    for _ in range(3):
        t = Tx(rng)
        br = breaks(rng)
        d, n = stream_prefix(t, rng, br)
        exp = keccak256(t.prefix())
        c.eq(d, exp, "streamed prefix hash", reloads=br.kind, nin=len(t.vin), nout=len(t.vout), extra=len(t.extra))
        c.eq(bytes(run(monero.get_transaction_prefix_hash(t.tx_o(rng)))), exp, "prefix hash in one pass", nin=len(t.vin), nout=len(t.vout), extra=len(t.extra))
        m, n2, order = stream_msg(t, rng, br)
        expm = t.message()
        c.eq(m, expm, "streamed signing message", type=t.type, reloads=br.kind, proofs=len(t.proofs), order=order)
        c.eq(bytes(run(monero.get_pre_mlsag_hash(t.rv_o()))), expm, "signing message in one pass", type=t.type, nin=len(t.vin), nout=len(t.vout))
        c.count("transactions")
        c.count("reloads", n + n2)
        c.distinct("stream", t.type, len(t.vin), len(t.vout), len(t.proofs), br.kind, order)


def f_change(c):
    """family 'change': every element matters"""
    from monero_glue.xmr import monero

    rng = c.rng
    t = Tx(rng, nin=rng.choice([1, 2]), nout=rng.choice([1, 2, 3]))
    never = lambda: False
    base = (bytes(run(monero.get_transaction_prefix_hash(t.tx_o(rng)))), bytes(run(monero.get_pre_mlsag_hash(t.rv_o()))))

    def flip(b):
        b = bytearray(b)
        b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        return bytes(b)

    def muts():
        yield "fee", lambda u: setattr(u, "fee", u.fee ^ 1), 1
        for i in range(len(t.ecdh)):
            yield "ecdh", lambda u, i=i: u.ecdh.__setitem__(i, (u.ecdh[i][0], flip(u.ecdh[i][1][:8]) + u.ecdh[i][1][8:])), 1
            yield "out_pk", lambda u, i=i: u.out_pk.__setitem__(i, flip(u.out_pk[i])), 1
            yield "vout", lambda u, i=i: u.vout.__setitem__(i, (u.vout[i][0], flip(u.vout[i][1]))), 0
            if t.type != 4:
                yield "ecdh mask", lambda u, i=i: u.ecdh.__setitem__(i, (flip(u.ecdh[i][0]), u.ecdh[i][1])), 1
        if t.type == 2:
            for i in range(len(t.pseudo)):
                yield "pseudo", lambda u, i=i: u.pseudo.__setitem__(i, flip(u.pseudo[i])), 1
        for i, p in enumerate(t.proofs):
            for k, v in p.items():
                if isinstance(v, list):
                    j = rng.randrange(len(v))
                    yield "proof " + k, lambda u, i=i, k=k, j=j: u.proofs[i].__setitem__(k, u.proofs[i][k][:j] + [flip(u.proofs[i][k][j])] + u.proofs[i][k][j + 1 :]), 1
                else:
                    yield "proof " + k, lambda u, i=i, k=k: u.proofs[i].__setitem__(k, flip(u.proofs[i][k])), 1
        yield "unlock", lambda u: setattr(u, "unlock", u.unlock + 1), 0
        yield "extra", lambda u: setattr(u, "extra", flip(u.extra) if u.extra else b"\0"), 0
        for i in range(len(t.vin)):
            yield "key image", lambda u, i=i: u.vin.__setitem__(i, (u.vin[i][0], u.vin[i][1], flip(u.vin[i][2]))), 0
            yield "offset", lambda u, i=i: u.vin.__setitem__(i, (u.vin[i][0], [u.vin[i][1][0] + 1] + u.vin[i][1][1:], u.vin[i][2])), 0

    import copy

    for name, f, msg_only in muts():
        u = copy.deepcopy(t)
        f(u)
        m, _, _ = stream_msg(u, rng, never)
        c.ok(m != base[1], "changing %s leaves the streamed signing message as it was" % name, type=t.type)
        c.eq(m, u.message(), "streamed signing message after changing %s" % name, type=t.type)
        c.eq(bytes(run(monero.get_pre_mlsag_hash(u.rv_o()))), u.message(), "signing message in one pass after changing %s" % name, type=t.type)
        if not msg_only:
            c.eq(stream_prefix(u, rng, never)[0], keccak256(u.prefix()), "streamed prefix hash after changing %s" % name)
            c.ok(bytes(run(monero.get_transaction_prefix_hash(u.tx_o(rng)))) != base[0], "changing %s leaves the prefix hash" % name)
        c.count("changed_elements")
        c.distinct("change", t.type, name)


def f_order(c):
    """family 'order': steps in any order against the order the protocol fixes"""
    from monero_glue.xmr.sub.mlsag_hasher import PreMlsagHasher

    rng = c.rng
    # the order the signing message is defined in, with what may follow what
    after = dict(start=["init"], init=["fee"], fee=["pseudo", "ecdh"], pseudo=["pseudo", "ecdh"], ecdh=["ecdh", "out"], out=["out", "done"], done=["digest"], digest=[])
    for _ in range(25):
        h = PreMlsagHasher()
        st = "start"
        hist = []
        for _ in range(rng.randrange(1, 14)):
            legal = after[st]
            s = rng.choice(legal) if legal and rng.random() < 0.72 else rng.choice(["init", "fee", "pseudo", "ecdh", "out", "done", "digest", "proof"])
            if rng.random() < 0.25 and st != "digest":
                h = PreMlsagHasher(state=h.state_save())
            try:
                if s == "init":
                    h.init(True)
                elif s == "fee":
                    run(h.set_type_fee(2, 7))
                elif s == "pseudo":
                    run(h.set_pseudo_out(gen.rb(rng, 32)))
                elif s == "ecdh":
                    run(h.set_ecdh(gen.rb(rng, 64)))
                elif s == "out":
                    run(h.set_out_pk(gen.rb(rng, 32)))
                elif s == "done":
                    run(h.rctsig_base_done())
                elif s == "digest":
                    run(h.get_digest())
                else:
                    run(h.rsig_val(gen.rb(rng, 64), True, raw=True))
                done = True
            except Exception:
                done = False
            if s == "proof":
                c.eq(done, st != "digest", "range proof accepted", after=hist)
            else:
                c.eq(done, s in legal, "step %s %s" % (s, "accepted out of order" if done else "refused in its place"), after=hist)
                if done:
                    st = s
            hist.append(s + ("" if done else "!"))
            c.count("steps" if done else "refused_steps")
        c.distinct("order", tuple(hist))


def f_device(c):
    """family 'device': the digests the device answers with in real sessions"""
    rng = c.rng
    s = gen.scenario(rng, n_in=rng.choice([1, 2, 3]), n_out=rng.choice([1, 2, 3, 4]), ring=rng.choice([2, 3, 5]))
    cfg = dev.pick_cfg(rng, len(s.dests))
    seen = []

    def hook(i, method, req, res):
        if type(req).__name__ == "MoneroTransactionAllOutSetRequest":
            seen.append(res)
        return res

    d = dev.device(s.w)
    w = dev.Wire(d)
    w.res_hook = hook
    r = dev.sign(s, cfg, d, w)
    t = T.parse(r.blob)
    c.eq(len(seen), 1, "one message with the digests")
    c.eq(bytes(seen[0].tx_prefix_hash), T.prefix_hash(t), "prefix hash answered by the device", cfg=cfg)
    c.eq(bytes(seen[0].full_message_hash), T.pre_mlsag_hash(t), "signing message answered by the device", cfg=cfg, bps=len(t.bps))
    c.eq(bytes(r.ct.tx_prefix_hash), T.prefix_hash(t), "prefix hash kept by the host")
    c.count("sessions")
    c.distinct("device", cfg, len(t.vin), len(t.vout), len(t.bps))


FAMILIES = {
    "stream": dict(fn=f_stream, quick=dict(tcry=60, py=8), thorough=dict(tcry=1500, py=60)),
    "change": dict(fn=f_change, quick=10, thorough=150, backends=("tcry",)),
    "order": dict(fn=f_order, quick=dict(tcry=30, py=4), thorough=dict(tcry=600, py=40)),
    "device": dict(fn=f_device, quick=16, thorough=200, backends=("tcry",)),
}
