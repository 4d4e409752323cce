"""A scriptable host: drives the real device one message at a time, so that a case can alter, drop, repeat,
reorder or replay any message and still assemble whatever transaction the device ends up supporting."""

import copy
import os

from . import dev, gen
from .harness import Violation, run
from .ref import cn, ed, tx as rtx


def M():
    from monero_glue import messages

    return messages


def src_pb(src):
    m = M()
    e = m.MoneroTransactionSourceEntry()
    e.outputs = [
        m.MoneroOutputEntry(idx=i, key=m.MoneroRctKeyPublic(dest=bytes(k.dest), commitment=bytes(k.mask)))
        for i, k in src.outputs
    ]
    e.real_output = src.real_output
    e.real_out_tx_key = src.real_out_tx_key
    e.real_out_additional_tx_keys = list(src.real_out_additional_tx_keys)
    e.real_output_in_tx_index = src.real_output_in_tx_index
    e.amount = src.amount
    e.rct = src.rct
    e.mask = src.mask
    return e


def dst_pb(d):
    m = M()
    return m.MoneroTransactionDestinationEntry(
        amount=d.amount,
        is_subaddress=d.is_sub,
        addr=m.MoneroAccountPublicAddress(spend_public_key=d.spend, view_public_key=d.view),
    )


def tsx_data_pb(s, cfg, grouping=None, rsig_type=None):
    m = M()
    n = len(s.outs)
    t = m.MoneroTransactionData(
        version=1,
        payment_id=s.pid,
        unlock_time=s.unlock,
        outputs=[dst_pb(d) for d in s.outs],
        change_dts=dst_pb(s.change_dst) if s.change_dst else None,
        num_inputs=len(s.sources),
        mixin=len(s.sources[0].outputs),
        fee=s.fee,
        account=s.account,
        minor_indices=list(s.minors),
        integrated_indices=[],
        client_version=cfg[0],
    )
    t.rsig_data = m.MoneroTransactionRsigData(rsig_type=1 if rsig_type is None else rsig_type, grouping=grouping or default_grouping(n))
    if cfg[1] >= 10:
        t.rsig_data.bp_version = 2
    return t


def default_grouping(n):
    return [n]


class Refused(Exception):
    def __init__(self, step, res):
        super().__init__("%r refused: %s" % (step, str(getattr(res, "message", ""))[-200:]))
        self.step, self.res = step, res


class RawHost:
    def __init__(self, s, cfg=(1, 10), device=None, grouping=None, wire=None):
        self.s, self.cfg = s, cfg
        self.w = wire or dev.Wire(device or dev.device(s.w))
        self.dev = self.w.dev
        self.tsx = tsx_data_pb(s, cfg, grouping)
        self.src = [src_pb(x) for x in s.sources]
        self.dst = [dst_pb(d) for d in s.outs]
        self.n_in, self.n_out = len(self.src), len(self.dst)
        self.grouping = list(self.tsx.rsig_data.grouping)
        self.dst_hmac = None
        self.offload = False
        self.inp = []  # replies of set_input
        self.perm = None
        self.gamma = []
        self.outs = []  # replies of set_output
        self.bps = []  # serialized proofs in order
        self.sigs = {}
        self.allout = None
        self.final = None
        self.trace = []  # (step, accepted)
        self.prover = prove

    # -- plan ----------------------------------------------------------------
    def will_offload(self):
        return self.n_out > 2 and bool(self.tsx.rsig_data.rsig_type)

    def plan(self):
        p = [("init",)]
        p += [("inp", i) for i in range(self.n_in)]
        p.append(("perm",))
        p += [("vini", i) for i in range(self.n_in)]
        p.append(("allin",))
        end = 0
        ends = set()
        for g in self.grouping:
            end += g
            ends.add(end - 1)
        for i in range(self.n_out):
            p.append(("out", i))
            if self.cfg[0] >= 1 and self.will_offload() and i in ends:
                p.append(("bp", i))
        p.append(("allout",))
        p += [("sign", i) for i in range(self.n_in)]
        p.append(("final",))
        return p

    def batch_of(self, i):
        c = 0
        for g in self.grouping:
            if c <= i < c + g:
                return c, c + g
            c += g
        raise IndexError(i)

    # -- messages --------------------------------------------------------------
    def build(self, step):
        m = M()
        k = step[0]
        if k == "init":
            return m.MoneroTransactionInitRequest(version=0, address_n=[], network_type=1, tsx_data=copy.deepcopy(self.tsx))
        if k == "inp":
            return m.MoneroTransactionSetInputRequest(src_entr=copy.deepcopy(self.src[step[1]]))
        if k == "perm":
            return m.MoneroTransactionInputsPermutationRequest(perm=list(self.perm))
        if k == "vini":
            j = self.perm[step[1]]
            return m.MoneroTransactionInputViniRequest(
                src_entr=copy.deepcopy(self.src[j]), vini=bytes(self.inp[j].vini), vini_hmac=bytes(self.inp[j].vini_hmac), orig_idx=j
            )
        if k == "allin":
            return m.MoneroTransactionAllInputsSetRequest()
        if k == "out":
            i = step[1]
            r = m.MoneroTransactionSetOutputRequest(dst_entr=copy.deepcopy(self.dst[i]), dst_entr_hmac=bytes(self.dst_hmac[i]))
            if self.offload and self.cfg[0] == 0:
                a, b = self.batch_of(i)
                if i == b - 1:
                    r.rsig_data = m.MoneroTransactionRsigData(rsig=self.prove(a, b))
            return r
        if k == "bp":
            a, b = self.batch_of(step[1])
            return m.MoneroTransactionSetOutputRequest(
                rsig_data=m.MoneroTransactionRsigData(rsig=self.prove(a, b)), is_offloaded_bp=True
            )
        if k == "allout":
            return m.MoneroTransactionAllOutSetRequest()
        if k == "sign":
            j = self.perm[step[1]]
            i = self.inp[j]
            return m.MoneroTransactionSignInputRequest(
                src_entr=copy.deepcopy(self.src[j]),
                vini=bytes(i.vini),
                vini_hmac=bytes(i.vini_hmac),
                pseudo_out=bytes(i.pseudo_out),
                pseudo_out_hmac=bytes(i.pseudo_out_hmac),
                pseudo_out_alpha=bytes(i.pseudo_out_alpha),
                spend_key=bytes(i.spend_key),
                orig_idx=j,
            )
        if k == "final":
            return m.MoneroTransactionFinalRequest()
        raise ValueError(k)

    def prove(self, a, b):
        return self.prover([d.amount for d in self.s.outs[a:b]], self.gamma[a:b])

    def send(self, msg):
        return run(self.w.exchange("tsx_sign", msg))

    def absorb(self, step, res, msg):
        k = step[0]
        if k == "init":
            self.dst_hmac = [bytes(x) for x in res.hmacs]
            self.offload = bool(res.rsig_data and res.rsig_data.offload_type)
        elif k == "inp":
            self.inp.append(res)
            if len(self.inp) == self.n_in:
                self.perm = sorted(range(self.n_in), key=lambda x: bytes(self.inp[x].vini)[-32:], reverse=True)
        elif k == "allin":
            if res.rsig_data is not None and res.rsig_data.mask:
                mk = bytes(res.rsig_data.mask)
                self.gamma = [mk[i : i + 32] for i in range(0, len(mk), 32)]
        elif k == "out":
            self.outs.append(res)
            if res.rsig_data is not None:
                if res.rsig_data.mask and self.cfg[0] >= 1:
                    self.gamma.append(bytes(res.rsig_data.mask))
                if res.rsig_data.rsig:
                    self.bps.append(bytes(res.rsig_data.rsig))
            if msg.rsig_data is not None and msg.rsig_data.rsig:
                self.bps.append(bytes(msg.rsig_data.rsig))
        elif k == "bp":
            self.bps.append(bytes(msg.rsig_data.rsig))
        elif k == "allout":
            self.allout = res
        elif k == "sign":
            self.sigs[step[1]] = res
        elif k == "final":
            self.final = res

    def step(self, step, mutate=None):
        """Sends one step; returns True when accepted."""
        msg = self.build(step)
        sent = self.last_sent = mutate(msg) if mutate else msg
        raw = dev.pb_load(dev.pb_dump(sent), sent.__class__)
        res = self.send(sent)
        self.last = res
        if dev.is_failure(res):
            self.trace.append((step, False))
            return False
        self.trace.append((step, True))
        self.absorb(step, res, raw)
        return True

    def go(self, steps=None, hook=None):
        """Runs steps; raises Refused at the first refusal. hook(step) -> None | mutator"""
        for st in steps if steps is not None else self.plan():
            if not self.step(st, hook(st) if hook else None):
                raise Refused(st, self.last)
        return self

    def upto(self, step):
        """All steps before `step`."""
        p = self.plan()
        self.go(p[: p.index(step)])
        return p[p.index(step) :]

    # -- result ----------------------------------------------------------------
    def blob(self):
        """The transaction the device's replies add up to."""
        cfg = self.cfg
        o = bytearray()
        o += cn.varint(2) + cn.varint(self.tsx.unlock_time or 0) + cn.varint(self.n_in)
        for i in range(self.n_in):
            o += bytes(self.inp[self.perm[i]].vini)
        o += cn.varint(self.n_out)
        for r in self.outs:
            o += bytes(r.tx_out)
        ex = bytes(self.allout.extra)
        o += cn.varint(len(ex)) + ex
        rv = self.allout.rv
        o += bytes([rv.rv_type]) + cn.varint(rv.txn_fee or 0)
        for r in self.outs:
            o += bytes(r.ecdh_info)
        for r in self.outs:
            o += bytes(r.out_pk)[32:]
        o += len(self.bps).to_bytes(4, "little") if rv.rv_type == 3 else cn.varint(len(self.bps))
        for b in self.bps:
            o += trim_bp(b)
        for i in range(self.n_in):
            # MgSig: ss matrix with counts, II, cc
            o += strip_mg(bytes(self.sigs[i].signature), len(self.s.sources[self.perm[i]].outputs))
        for i in range(self.n_in):
            o += bytes(self.sigs[i].pseudo_out)
        return bytes(o)


def trim_bp(b):
    """the proof proper: the device signs the proof it parsed, bytes behind it are not part of anything"""
    r = rtx.R(b)
    r.take(6 * 32)
    for _ in range(2):
        for _ in range(r.varint()):
            r.take(32)
    r.take(3 * 32)
    return r.b[: r.o]


def strip_mg(b, cols):
    """serialized MgSig -> the bytes it has inside a transaction (fixed sizes, no key images)"""
    r = rtx.R(b)
    out = b""
    n = r.varint()
    if n != cols:
        raise Violation("signature has %d columns for a ring of %d" % (n, cols))
    for _ in range(n):
        rows = r.varint()
        if rows != 2:
            raise Violation("signature has %d rows" % rows)
        out += r.take(64)
    out += r.take(32)
    if not r.end():
        # II follows or precedes depending on the archive format
        raise Violation("unexpected signature format (%d bytes)" % len(b))
    return out


def prove(amounts, masks):
    """A serialized range proof made by the project's own prover (as the honest host does)."""
    from monero_glue.hwtoken import misc
    from monero_glue.xmr import crypto, ring_ct

    bp = run(ring_ct.prove_range_bp_batch(list(amounts), [crypto.decodeint(bytes(x)) for x in masks]))
    return bytes(run(misc.dump_msg(bp)))
