"""Workload generator: wallets, a toy chain and honest construction data, all built with the
reference crypto only (never with the code under test)."""

import struct

from monero_serialize import xmrtypes as X

from .ref import cn, ed
from .ref.ed import L


def rb(rng, n):
    return rng.getrandbits(8 * n).to_bytes(n, "little") if n else b""


def rsc(rng):
    return rng.randrange(1, L)


class W:
    """A wallet (reference side)."""

    def __init__(self, rng):
        self.a = rsc(rng)
        self.b = rsc(rng)
        self.A = ed.mulb(self.a)
        self.B = ed.mulb(self.b)
        self._sub = {}

    def addr(self, major=0, minor=0):
        """(spend public, view public) of the (sub)address, encoded."""
        k = (major, minor)
        if k not in self._sub:
            d, c = cn.subaddr_pub(self.a, self.B, major, minor)
            self._sub[k] = (ed.enc(d), ed.enc(c))
        return self._sub[k]

    def sub_secret(self, major, minor):
        if (major, minor) == (0, 0):
            return self.b
        return (self.b + cn.subaddr_m(self.a, major, minor)) % L


class Chain:
    def __init__(self):
        self.out = {}  # absolute index -> (dest, commitment)

    def ring(self, rel):
        r = []
        s = 0
        for o in rel:
            s += o
            r.append(self.out.get(s))
        return r


class Dst:
    """An approved destination. kind: 'std', 'sub', 'int', 'change', 'dummy'"""

    def __init__(self, kind, wallet, major, minor, amount, pid=None):
        self.kind, self.wallet, self.major, self.minor, self.amount, self.pid = kind, wallet, major, minor, amount, pid

    @property
    def spend(self):
        return self.wallet.addr(self.major, self.minor)[0]

    @property
    def view(self):
        return self.wallet.addr(self.major, self.minor)[1]

    @property
    def is_sub(self):
        return (self.major, self.minor) != (0, 0)

    def entry(self):
        return X.TxDestinationEntry(
            original="",
            amount=self.amount,
            addr=X.AccountPublicAddress(m_spend_public_key=self.spend, m_view_public_key=self.view),
            is_subaddress=self.is_sub,
            is_integrated=self.kind == "int",
        )

    def key(self):
        return (self.spend, self.view, self.amount, self.is_sub)

    def __repr__(self):
        return "%s(%d,%d,%d)" % (self.kind, self.major, self.minor, self.amount)


class Owned:
    """An output the wallet owns, as created by some earlier transaction."""


def owned_output(rng, w, chain, amount, major, minor, additionals=None, idx=None, rct=True):
    """Creates an output paid to w's (major, minor) and registers it on the chain under idx."""
    o = Owned()
    o.major, o.minor, o.amount, o.rct = major, minor, amount, rct
    r = rsc(rng)
    d, c = w.addr(major, minor)
    D, C = ed.dec(d), ed.dec(c)
    is_sub = (major, minor) != (0, 0)
    if additionals is None:
        additionals = rng.random() < 0.35
    o.oidx = rng.choice([0, 0, 1, 2, 3, 5, 11, 15, 127, 128, 300]) if rng.random() < 0.5 else rng.randrange(0, 16)
    o.add_pubs = []
    if additionals:
        n = o.oidx + 1 + rng.randrange(0, 3)
        if o.oidx > 20:
            o.oidx = rng.randrange(0, 6)
            n = o.oidx + 1
        s = rsc(rng)
        o.R = ed.mulb(r)
        o.add_pubs = [ed.mulb(rsc(rng)) for _ in range(n)]
        o.add_pubs[o.oidx] = ed.mul(D, s) if is_sub else ed.mulb(s)
        # the sender derives with s*C for subaddresses, with r*A for ordinary ones
        sh = cn.derivation(C, s if is_sub else r)
    else:
        o.R = ed.mul(D, r) if is_sub else ed.mulb(r)
        sh = cn.derivation(C, r)
    o.r = r
    o.sh, o.ks = sh, w.sub_secret(major, minor)
    place(o, o.oidx)
    o.mask = rsc(rng) if rct else 1
    o.C = cn.commit(o.mask, amount)
    if idx is not None:
        o.idx = idx
        chain.out[idx] = (ed.enc(o.P), ed.enc(o.C))
    return o


def place(o, oidx):
    """one-time key and key image of the output at position oidx of its transaction"""
    o.oidx = oidx
    o.x = cn.derive_sec(o.sh, oidx, o.ks)
    o.P = ed.mulb(o.x)
    o.ki = ed.enc(cn.key_image(o.x, ed.enc(o.P)))


def sibling(rng, o, amount):
    """another output of the transaction that created o, paid to the same address (no additional keys)"""
    q = Owned()
    q.__dict__.update(o.__dict__)
    q.amount = amount
    place(q, rng.choice([x for x in [0, 1, 2, 3, 15, 127, 128, o.oidx + 1, o.oidx + 128] if x != o.oidx]))
    q.mask = rsc(rng) if o.rct else 1
    q.C = cn.commit(q.mask, amount)
    return q


def twins(rng, a, b, n=60):
    """moves two outputs (without additional keys) within their transactions until their key images begin
    with the same byte or bytes"""
    ca, cb = [], []
    for k in range(n):
        for o, l in ((a, ca), (b, cb)):
            place(o, 20 + 2 * k + (o is b))
            l.append((o.ki, o.oidx))
    _, ia, ib = max((next((i for i in range(32) if x[i] != y[i]), 32), i, j) for x, i in ca for y, j in cb)
    place(a, ia)
    place(b, ib)


def fresh_indices(rng, chain, n):
    """n distinct fresh global indices (sorted)."""
    style = rng.randrange(4)
    while True:
        if style == 0:
            base = rng.randrange(0, 1 << 20)
            s = {base + i for i in range(n)}
        elif style == 1:
            s = {rng.randrange(0, 1 << 14) for _ in range(n)}
        elif style == 2:
            s = {rng.randrange(0, 1 << 24) for _ in range(n)}
        else:
            s = {rng.randrange(0, 1 << rng.choice([7, 14, 21, 28, 35, 49])) for _ in range(n)}
        if len(s) == n and not (s & chain.out.keys()):
            return sorted(s)
        style = 2


class Scenario:
    pass


def needs_additional(dsts, chg):
    std = {(d.spend, d.view) for d in dsts if not d.is_sub and (d.spend, d.view) != chg}
    sub = {(d.spend, d.view) for d in dsts if d.is_sub and (d.spend, d.view) != chg}
    return bool(sub) and (bool(std) or len(sub) > 1)


def amount_total(rng):
    k = rng.random()
    if k < 0.25:
        return rng.randrange(1 << 20, 1 << 30)
    if k < 0.75:
        return rng.randrange(1 << 33, 1 << 45)
    if k < 0.9:
        return rng.randrange(1 << 60, 1 << 62)
    return (1 << 63) + rng.randrange(1 << 40)


def big_index(rng):
    """an account or address index of any size"""
    return rng.choice([127, 128, 200, 255, 256, 65536, rng.randrange(1 << rng.choice([9, 17, 25, 31, 32])) or 1, (1 << 32) - 1])


def split(rng, total, n):
    """n positive parts summing to total"""
    cuts = sorted(rng.sample(range(1, total), n - 1)) if total < 1 << 30 else sorted(
        {rng.randrange(1, total) for _ in range(n - 1)}
    )
    while len(cuts) < n - 1:
        cuts = sorted(set(cuts) | {rng.randrange(1, total)})
    pts = [0] + list(cuts) + [total]
    return [pts[i + 1] - pts[i] for i in range(n)]


def source_entry(rng, chain, o, ring_size):
    """TxSourceEntry for an owned output placed in a ring of decoys with sorted unique indices."""
    idxs = fresh_indices(rng, chain, ring_size)
    pos = rng.choice([0, ring_size - 1, rng.randrange(ring_size)])
    outs = []
    for i, gi in enumerate(idxs):
        if i == pos:
            dest, com = ed.enc(o.P), ed.enc(o.C)
            o.idx = gi
        else:
            dest = ed.enc(ed.mulb(rsc(rng)))
            com = ed.enc(ed.mulb(rsc(rng)))
        chain.out[gi] = (dest, com)
        outs.append((gi, X.CtKey(dest=dest, mask=com)))
    s = X.TxSourceEntry()
    s.outputs = outs
    s.real_output = pos
    s.real_out_tx_key = ed.enc(o.R)
    s.real_out_additional_tx_keys = [ed.enc(x) for x in o.add_pubs]
    s.real_output_in_tx_index = o.oidx
    s.amount = o.amount
    s.rct = o.rct
    s.mask = ed.scenc(o.mask)
    s.multisig_kLRki = None
    return s


def nonce_extra(pid):
    if not pid:
        return []
    if len(pid) == 8:
        return list(b"\x02\x09\x01" + pid)
    return list(b"\x02\x21\x00" + pid)


def scenario(
    rng,
    n_in=None,
    n_out=None,
    ring=None,
    account=None,
    shape=None,
    pid=None,
    change=None,
    wallet=None,
    unlock=None,
    cheap=False,
    rct=True,
    dup=None,
    kin=None,
):
    """An honest transfer. n_out counts all outputs including change.

    shape: None (random mix) or a list of kinds for the non-change outputs
    pid: None (random), b'' (none), 8 or 32 bytes
    kin: None (random), "sibling" (two inputs were created by one transaction), "twins" (two key images
         begin alike), False
    change: True (own change output), False (no change declared amount, exact spend with explicit
            zero declared change absent -> uses change=None), 'sweep' (two outputs, dummy zero change)
    """
    s = Scenario()
    s.chain = Chain()
    s.w = w = wallet or W(rng)
    s.account = acc = account if account is not None else rng.choice([0, 0, 0, 1, 2, 7, big_index(rng)])
    n_in = n_in or rng.choice([1, 1, 2, 2, 3, 4])
    n_out = n_out or rng.choice([2, 2, 2, 2, 3, 3, 4, 5])
    if change is None:
        change = rng.choice([True, True, True, True, "sweep", False])
    if change == "sweep":
        n_out = 2
    n_real = n_out - 1 if change in (True, "sweep") else n_out
    total = amount_total(rng)
    fee = rng.choice([1, rng.randrange(1, 1 << 16), rng.randrange(1, 1 << 18), rng.randrange(1, total // 2)])
    ins = split(rng, total, n_in)
    avail = total - fee
    others = [W(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    kinds = shape or [rng.choice(["std", "std", "sub", "sub", "own_sub", "own_main"][: 4 if cheap else 6]) for _ in range(n_real)]
    if pid is None:
        pid = rng.choice([b"", b"", rb(rng, 8), rb(rng, 32)])
        if pid and rng.random() < 0.2:
            # zeros at either end, or nothing but zeros
            k = rng.choice([0, 1, len(pid) - 1])
            pid = rng.choice([pid[:k] + bytes(len(pid) - k), bytes(len(pid) - k) + pid[:k]])
    s.dests = []
    amts = split(rng, avail, n_out if change is True else n_real)
    if n_real > 1 and rng.random() < 0.15:
        # a zero-amount output is legal
        k = rng.randrange(n_real)
        amts[(k + 1) % n_real] += amts[k]
        amts[k] = 0
    for i in range(n_real):
        k = kinds[i]
        if k == "std":
            d = Dst("std", rng.choice(others), 0, 0, amts[i])
        elif k == "sub":
            d = Dst("sub", rng.choice(others), rng.choice([0, 0, 1, 3, big_index(rng)]), rng.choice([rng.randrange(1, 50), big_index(rng)]), amts[i])
        elif k == "own_sub":
            d = Dst("sub", w, acc, rng.randrange(1, 20), amts[i])
        elif k == "own_main":
            # own address of another account; account 0 is the main address
            oacc = 0 if acc else 3
            d = Dst("std" if oacc == 0 else "sub", w, oacc, 0, amts[i])
        elif k == "self":
            d = Dst("std" if acc == 0 else "sub", w, acc, 0, amts[i])
        else:
            raise ValueError(k)
        s.dests.append(d)
    if dup if dup is not None else (n_real > 1 and shape is None and rng.random() < 0.15):
        # the same address twice, sometimes with the same amount
        i, j = rng.sample(range(n_real), 2)
        o = s.dests[i]
        s.dests[j] = Dst(o.kind, o.wallet, o.major, o.minor, s.dests[j].amount)
    s.integrated = None
    own_change = (w.addr(acc, 0)[0], w.addr(acc, 0)[1])
    paying = {(d.spend, d.view) for d in s.dests if d.amount and (d.spend, d.view) != own_change}
    if pid and len(pid) == 8:
        # an encrypted payment id needs exactly one paid destination
        if len(paying) != 1 or sum(1 for d in s.dests if (d.spend, d.view) in paying and d.amount) != 1:
            pid = b"" if rng.random() < 0.5 else rb(rng, 32)
        elif needs_additional(s.dests, own_change) and any(d.is_sub for d in s.dests if d.amount and (d.spend, d.view) in paying):
            # zero-amount outputs to further addresses force one key per output; Monero then has no
            # transaction key a subaddress recipient could decrypt the id with
            pid = b""
    s.pid = pid
    if pid and len(pid) == 8:
        for d in s.dests:
            if (d.spend, d.view) in paying and d.kind == "std" and d.amount:
                d.kind = "int"
                d.pid = pid
                s.integrated = d
    s.change_dst = None
    if change is True:
        s.change_dst = Dst("change", w, acc, 0, amts[-1])
    elif change == "sweep":
        s.change_dst = Dst("dummy", W(rng), 0, 0, 0)
    outs = list(s.dests)
    if s.change_dst is not None:
        outs.insert(rng.randrange(len(outs) + 1), s.change_dst)
    s.outs = outs
    s.fee = fee
    s.unlock = unlock if unlock is not None else rng.choice([0, 0, 0, 1, 127, 128, 2000000, (1 << 32) + 5, rng.randrange(1 << rng.choice([9, 31, 63, 64]))])
    ring = ring or rng.choice([2, 3, 3, 5, 11])
    s.owned = []
    s.sources = []
    minors = set()
    if kin is None:
        kin = "sibling" if n_in > 1 and not cheap and rng.random() < 0.2 else False
    i, j = sorted(rng.sample(range(n_in), 2)) if kin else (-1, -1)
    for k, a in enumerate(ins):
        mi = rng.choice([0, 0, 1, 2, rng.randrange(1, 30), big_index(rng)])
        if kin == "sibling" and k == j:
            o = sibling(rng, s.owned[i], a)
            mi = o.minor
        else:
            o = owned_output(rng, w, s.chain, a, acc, mi, rct=rct, additionals=False if kin and k in (i, j) else None)
        minors.add(mi)
        s.owned.append(o)
    if kin == "twins":
        a, b = s.owned[i], s.owned[j]
        twins(rng, a, b)
        if (a.ki > b.ki) == (rng.random() < 0.8):
            s.owned[i], s.owned[j] = b, a
    for o in s.owned:
        s.sources.append(source_entry(rng, s.chain, o, ring))
    s.minors = sorted(minors | ({rng.randrange(0, 40)} if rng.random() < 0.3 else set()))
    s.ring = ring
    s.use_bp = True
    return s


def construction(s):
    return X.TxConstructionData(
        sources=list(s.sources),
        change_dts=s.change_dst.entry() if s.change_dst else None,
        splitted_dsts=[d.entry() for d in s.outs],
        selected_transfers=list(range(len(s.sources))),
        extra=nonce_extra(s.pid),
        unlock_time=s.unlock,
        use_rct=True,
        use_bulletproofs=True,
        rct_config=X.RCTConfig(range_proof_type=3, bp_version=2),
        dests=[d.entry() for d in s.outs if d is not s.change_dst],
        subaddr_account=s.account,
        subaddr_indices=list(s.minors),
    )


def describe(s):
    return "in=%d ring=%d outs=%r acc=%d pid=%d fee=%d unlock=%d" % (
        len(s.sources),
        s.ring,
        s.outs,
        s.account,
        len(s.pid),
        s.fee,
        s.unlock,
    )


def shape_key(s):
    return (
        len(s.sources),
        s.ring,
        tuple(sorted((d.kind, d.amount == 0) for d in s.outs)),
        s.account != 0,
        len(s.pid),
        bool(s.unlock),
        tuple(sorted((o.major != 0, o.minor != 0, bool(o.add_pubs)) for o in s.owned)),
    )
