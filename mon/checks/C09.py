"""Signing secrets are fresh and never leave the device in the clear."""

import binascii
import os
import re

from .. import dev, gen, host, kis, mut
from ..harness import run
from ..refdev import device_key, unpack
from ..ref import cn, ed, tx as rtx
from ..ref.ed import L

RULE = (
    "the same signing request is repeated (also after abandoned and failed sessions, on the same and a fresh device, and in forked processes) and everything "
    "derived from device randomness is collected as seen from outside: transaction keys, input commitments, masks, ciphertexts, tags, nonce points of the "
    "ring signatures, range-proof blinding commitments, salts; no value may repeat. Leak scanner: every 32-byte window (both byte orders, and decoded hex) "
    "of every byte the device sent is tried as a secret scalar of any known public point and as a key of any sealed box. distinct = values collected"
)
ASSUMPTIONS = ["values handed out by design: output masks when the host makes the range proofs, the key that opens key images after a completed export"]


class Collector:
    def __init__(self, c):
        self.c = c
        self.seen = {}

    def add(self, role, v, where):
        v = bytes(v)
        if not v:
            return
        c = self.c
        c.observed += 1
        c.count("values_collected")
        c.distinct(role, v)
        k = (role.split("[")[0], v)
        if k in self.seen and self.seen[k] != where:
            c.fail("value derived from device randomness repeats", role=role, first=self.seen[k], again=where, value=v)
        if k in self.seen:
            c.fail("value derived from device randomness repeats within a session", role=role, where=where, value=v)
        self.seen[k] = where


def nonce_points(mg, ring, pseudo, msg, real):
    """the commitment points ss*G + c*P at the real position: equal points would mean an equal nonce"""
    c = int.from_bytes(mg.cc, "little")
    ss = [[int.from_bytes(x, "little") for x in col] for col in mg.ss]
    n = len(ring)
    for i in range(n):
        P, C = ring[i]
        M2 = ed.sub(C, pseudo)
        l0 = ed.add(ed.mulb(ss[i][0]), ed.mul(P, c))
        l1 = ed.add(ed.mulb(ss[i][1]), ed.mul(M2, c))
        if i == real:
            return l0, l1, c, ss[i]
        ki = ed.dec(mg.ki)
        r0 = ed.add(ed.mul(cn.hash_to_ec(ed.enc(P)), ss[i][0]), ed.mul(ki, c))
        c = cn.hs(msg + ed.enc(P) + ed.enc(l0) + ed.enc(r0) + ed.enc(M2) + ed.enc(l1))
    raise AssertionError


def collect(col, h, where):
    """everything random the (possibly partial) session showed"""
    s = h.s
    for j, r in enumerate(h.inp):
        col.add("input commitment", r.pseudo_out, where)
        col.add("sealed blinding factor", r.pseudo_out_alpha, where)
        col.add("nonce", bytes(r.pseudo_out_alpha)[:12], where)
        col.add("sealed spend key", r.spend_key, where)
        col.add("nonce", bytes(r.spend_key)[:12], where)
        col.add("tag", r.vini_hmac, where)
        col.add("tag", r.pseudo_out_hmac, where)
    for x in h.dst_hmac or []:
        col.add("tag", x, where)
    for r in h.outs:
        col.add("output key", bytes(r.tx_out)[2:], where)
        col.add("output commitment", bytes(r.out_pk)[32:], where)
        col.add("hidden amount", r.ecdh_info, where)
        col.add("tag", r.vouti_hmac, where)
    for g in h.gamma:
        col.add("output mask", g, where)
    if h.allout is not None:
        for k, v in rtx.parse_extra(bytes(h.allout.extra)):
            if k == 1:
                col.add("transaction key", v, where)
            elif k == 4:
                for x in v:
                    col.add("additional key", x, where)
    if not h.offload:
        for b in h.bps:
            for i, n in enumerate(("A", "S", "T1", "T2", "taux", "mu")):
                col.add("range proof " + n, b[32 * i : 32 * i + 32], where)
    if h.final is not None:
        col.add("salt", h.final.salt, where)
        col.add("rand_mult", h.final.rand_mult, where)
        col.add("sealed keys", h.final.tx_enc_keys, where)
        # with the wallet's spend key (which only this monitor knows besides the device) the sealed
        # transaction secrets can be looked at directly
        t = rtx.parse(h.blob())
        keys = unpack(device_key(s.w.b, rtx.prefix_hash(t), h.final.salt, h.final.rand_mult), h.final.tx_enc_keys)
        if keys is not None and len(keys) % 32 == 0:
            for i in range(0, len(keys), 32):
                col.add("additional secret" if i else "transaction secret", keys[i : i + 32], where)
            if getattr(col, "c", None):
                col.c.count("sessions_with_additional_keys" if len(keys) > 32 else "sessions_with_one_key")
        col.add("nonce", bytes(h.final.tx_enc_keys)[:12], where)
        t = rtx.parse(h.blob())
        msg = rtx.pre_mlsag_hash(t)
        for i, v in enumerate(t.vin):
            mg = t.mgs[i]
            mg.ki = v.k_image
            ring = [tuple(ed.dec(x) for x in e) for e in s.chain.ring(v.key_offsets)]
            src = s.sources[h.perm[i]]
            l0, l1, ch, ss = nonce_points(mg, ring, ed.dec(t.pseudo[i]), msg, src.real_output)
            col.add("signature nonce", ed.enc(l0), where)
            col.add("signature nonce", ed.enc(l1), where)
            for colm in mg.ss:
                for x in colm:
                    col.add("signature scalar", x, where)
    # targets for the leak scanner
    return


def targets(h, extra_secrets=()):
    """{encoded point: meaning} whose discrete logarithm must stay inside the device"""
    s = h.s
    w = s.w
    t = {ed.enc(w.B): "spend key"}
    for o, src in zip(s.owned, s.sources):
        t[ed.enc(o.P)] = "one-time spend key of an input"
        t[w.addr(o.major, o.minor)[0]] = "subaddress spend key"
    for j, r in enumerate(h.inp):
        p = ed.dec(bytes(r.pseudo_out))
        t[ed.enc(ed.sub(p, ed.mul(cn.H, h.src[j].amount)))] = "input blinding factor"
        # difference of masks: the signing secret of the commitment row
        real = h.src[j].outputs[h.src[j].real_output].key
        t[ed.enc(ed.sub(ed.dec(bytes(real.commitment)), p))] = "commitment signing secret"
    for i, r in enumerate(h.outs):
        if not h.offload:
            cpt = ed.dec(bytes(r.out_pk)[32:])
            t[ed.enc(ed.sub(cpt, ed.mul(cn.H, h.s.outs[i].amount)))] = "output mask"
    if h.allout is not None:
        for k, v in rtx.parse_extra(bytes(h.allout.extra)):
            subs = [d for d in s.outs if d.is_sub]
            for x in [v] if k == 1 else v if k == 4 else []:
                t[bytes(x)] = "transaction secret key"
    if h.final is not None:
        tt = rtx.parse(h.blob())
        msg = rtx.pre_mlsag_hash(tt)
        for i, v in enumerate(tt.vin):
            tt.mgs[i].ki = v.k_image
            ring = [tuple(ed.dec(x) for x in e) for e in s.chain.ring(v.key_offsets)]
            ps = ed.dec(tt.pseudo[i])
            src = s.sources[h.perm[i]]
            l0, l1, ch, ss = nonce_points(tt.mgs[i], ring, ps, msg, src.real_output)
            t[ed.enc(l0)] = "signature nonce"
            t[ed.enc(l1)] = "signature nonce"
            t[ed.enc(ed.sub(ed.dec(s.chain.ring(v.key_offsets)[src.real_output][1]), ps))] = "commitment signing secret"
            t[ed.enc(ed.sub(ps, ed.mul(cn.H, src.amount)))] = "input blinding factor"
    return t


def windows(raw):
    raw = bytes(raw)
    for i in range(len(raw) - 31):
        yield raw[i : i + 32]
    for m in re.finditer(rb"(?<![0-9a-fA-F])(?:[0-9a-fA-F]{2}){32,}", raw):
        b = binascii.unhexlify(m.group(0))
        for i in range(len(b) - 31):
            yield b[i : i + 32]
    for m in re.finditer(rb"\d{60,80}", raw):
        yield (int(m.group(0)) % (1 << 256)).to_bytes(32, "little")


def sealed_boxes(h):
    b = []
    for r in h.inp:
        b.append(("blinding factor", bytes(r.pseudo_out_alpha)))
        b.append(("spend key", bytes(r.spend_key)))
    if h.final is not None:
        b.append(("transaction keys", bytes(h.final.tx_enc_keys)))
    return b


def leak_scan(c, raws, tg, boxes, label):
    from cryptography.exceptions import InvalidTag
    from cryptography.hazmat.primitives.ciphers.aead import ChaCha20Poly1305
    from monero_glue.xmr import crypto

    seen = set()
    tgk = set(tg)
    for raw in raws:
        for w in windows(raw):
            if w in seen:
                continue
            seen.add(w)
            for v in (w, w[::-1]):
                x = int.from_bytes(v, "little") % L
                if x < 1 << 64:
                    continue
                # fast multiplication by the library; the reference confirms hits
                e = bytes(crypto.encodepoint(crypto.scalarmult_base(crypto.decodeint(ed.scenc(x)))))
                if e in tgk and ed.enc(ed.mulb(x)) == e:
                    c.fail("device sent a secret in the clear", secret=tg[e], where=label)
            if boxes:
                key = ChaCha20Poly1305(w)
                for name, box in boxes:
                    try:
                        key.decrypt(box[:12], box[12:], None)
                    except InvalidTag:
                        continue
                    c.fail("device sent the key of a sealed box", box=name, where=label)
    c.observed += len(seen)
    c.count("windows_scanned", len(seen))
    c.count("secrets_targeted", len(tg))


def raws_of(wire):
    return [r[4] for r in wire.log if not r[3].__name__.startswith("_")]


def shape(c, n_in=None, n_out=None):
    return gen.scenario(c.rng, n_in=n_in or c.rng.choice([1, 2]), n_out=n_out or c.rng.choice([2, 2, 3]), ring=2, change=True, cheap=True)


def f_fresh(c):
    """the same request again and again, with abandoned and failed sessions in between"""
    if c.idx % 2:
        # one key per output, two of them to the same address
        kinds = ["sub", "sub", "std"][: c.rng.choice([2, 3])] if c.rng.random() < 0.7 else ["sub"] * 3
        s = gen.scenario(c.rng, n_in=1, n_out=len(kinds) + 1, ring=2, change=True, shape=kinds, dup=c.rng.random() < 0.8)
    else:
        s = shape(c)
    cfg = dev.CFGS[c.idx % 3]
    col = Collector(c)
    d = dev.device(s.w)
    n = 3 if c.tier == "quick" else 6
    for k in range(n):
        if k and c.rng.random() < 0.4:
            d = dev.device(s.w)
        h = host.RawHost(s, cfg, d)
        plan = h.plan()
        kind = c.rng.choice(["full", "full", "abandoned", "failed"]) if k else "full"
        if kind == "abandoned":
            h.go(plan[: c.rng.randrange(2, len(plan))])
        elif kind == "failed":
            i = c.rng.randrange(2, len(plan))
            h.go(plan[:i])
            h.step(plan[i], lambda m: m.__class__() if m.__class__.get_fields() else host.M().MoneroTransactionFinalRequest())
        else:
            h.go()
        c.count("sessions_" + kind)
        collect(col, h, "session %d (%s)" % (k, kind))
    c.sample(dict(case=gen.describe(s), cfg=cfg, values=len(col.seen)))


def in_child(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            out = fn()
            while out:
                out = out[os.write(w, out) :]
        finally:
            os._exit(0)
    os.close(w)
    b = b""
    while True:
        x = os.read(r, 1 << 16)
        if not x:
            break
        b += x
    os.close(r)
    os.waitpid(pid, 0)
    return b


def f_fork(c):
    """process state copied (as a snapshot or a fork server would): the copies must not repeat each other"""
    import pickle

    s = shape(c)
    cfg = dev.CFGS[c.idx % 3]
    d = dev.device(s.w)
    h = host.RawHost(s, cfg, d)
    plan = h.plan()
    k = c.rng.choice([0, 0, 1])
    h.go(plan[:k])

    class Sink:
        def __init__(self):
            self.v = []

        def add(self, role, v, where):
            self.v.append((role, bytes(v)))

    def child():
        h.go(plan[k:])
        x = Sink()
        collect(x, h, "")
        return pickle.dumps(x.v)

    outs = [pickle.loads(in_child(child)) for _ in range(3)]
    # what was fixed before the copy may be equal: session roots (tags, masks derived from them) and transaction keys
    fixed = set() if k == 0 else {"tag", "output mask", "transaction key", "transaction secret", "output key", "hidden amount", "output commitment"}
    col = Collector(c)
    for i, o in enumerate(outs):
        c.ok(o, "forked session did not finish")
        for role, v in o:
            if role not in fixed:
                col.add(role, v, "copy %d" % i)
    c.count("forked_sessions", len(outs))


def f_leak(c):
    s = shape(c, n_in=1 if c.tier == "quick" else None)
    cfg = dev.CFGS[c.idx % 3]
    h = host.RawHost(s, cfg)
    plan = h.plan()
    stop = len(plan) if c.rng.random() < 0.7 else c.rng.randrange(3, len(plan))
    h.go(plan[:stop])
    if stop < len(plan):
        # provoke an error report at this point
        st = plan[stop]
        ms = mut.mutations(c.rng, h.build(st))
        if ms:
            h.step(st, c.rng.choice(ms)[1])
        c.count("error_reports_scanned")
    raws = raws_of(h.w)
    if h.offload:
        # the masks are handed over by design
        pass
    leak_scan(c, raws, targets(h), sealed_boxes(h), "signing")
    c.count("sessions_scanned")
    c.distinct("leak", gen.shape_key(s), cfg, stop == len(plan))


def f_errors(c):
    """error reports at every step carry no secret"""
    s = shape(c, n_in=1, n_out=2)
    cfg = dev.CFGS[c.idx % 3]
    d = dev.device(s.w)
    ref = host.RawHost(s, cfg, d).go()
    for st in ref.plan()[1:]:
        h = host.RawHost(s, cfg, d)
        h.upto(st)
        tg = targets(h)
        ms = mut.mutations(c.rng, h.build(st))
        raw = []
        if ms:
            r = h.send(c.rng.choice(ms)[1](h.build(st)))
            if not dev.is_failure(r):
                continue
            raw.append(dev.pb_dump(r))
        else:
            r = h.send(host.M().MoneroTransactionSetInputRequest())
            raw.append(dev.pb_dump(r))
        leak_scan(c, raw, tg, sealed_boxes(h), "error at %s" % (st,))
        c.count("error_reports_scanned")


def f_ki(c):
    w = gen.W(c.rng)
    n = c.rng.choice([1, 2, 3, 5])
    k = kis.KI(c, w, n)
    d = dev.device(w)
    col = Collector(c)
    for rep in range(3):
        s = kis.Session(d if c.rng.random() < 0.6 else dev.device(w))
        s.init(k.init_msg())
        for ch in k.chunks():
            s.step(ch)
        before = [r[4] for r in s.w.log]
        boxes = [("key image", bytes(x.iv), bytes(x.blob)) for x in s.kis]
        for x in s.kis:
            col.add("nonce", x.iv, "export %d" % rep)
            col.add("sealed key image", x.blob, "export %d" % rep)
        # nobody can open the blobs before the end: no window of the replies is the key
        if rep == 0:
            kis_ = [o.ki for o in k.outs]
            for raw in before:
                for win in windows(raw):
                    c.ok(win not in kis_, "key image in the clear before the export was completed")
                    s2 = kis.Session.__new__(kis.Session)
                    s2.kis = s.kis[:1]
                    c.ok(s2.open(win)[0][0] != kis_[0], "key of the sealed key images sent before the export was completed")
                    c.count("windows_scanned")
        fin = s.final()
        col.add("export key", fin.enc_key, "export %d" % rep)
        res = s.open(fin.enc_key)
        k.check(c, res)
        # signature nonces: r*G + c*P
        for o, (ki, cc, rr) in zip(k.outs, res):
            ci, ri = int.from_bytes(cc, "little"), int.from_bytes(rr, "little")
            col.add("proof nonce", ed.enc(ed.add(ed.mulb(ri), ed.mul(o.P, ci))), "export %d" % rep)
        tg = {ed.enc(w.B): "spend key"}
        for o in k.outs:
            tg[ed.enc(o.P)] = "one-time spend key"
            tg[w.addr(o.major, o.minor)[0]] = "subaddress spend key"
        leak_scan(c, [r[4] for r in s.w.log] + [b"".join(x) for x in res], tg, [], "key image export")
        c.count("exports")


FAMILIES = {
    "fresh": dict(fn=f_fresh, quick={"tcry": 18, "py": 1}, thorough={"tcry": 300, "py": 9}, weight=4),
    "fork": dict(fn=f_fork, quick={"tcry": 6, "py": 1}, thorough={"tcry": 100, "py": 4}, weight=4),
    "leak": dict(fn=f_leak, quick={"tcry": 15, "py": 0}, thorough={"tcry": 300, "py": 0}, weight=5),
    "errors": dict(fn=f_errors, quick=3, thorough=60, backends=("tcry",), weight=6),
    "ki": dict(fn=f_ki, quick={"tcry": 9, "py": 0}, thorough={"tcry": 120, "py": 0}, weight=2),
}
