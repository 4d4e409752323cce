"""Consensus validity of everything the host and the device sign together."""

from .. import dev, gen
from ..harness import run

RULE = (
    "random honest transfers (inputs 1-8 and about 128, rings 2-16 and about 128, accounts, subaddress/integrated/sweep/change mixes, payment ids, inputs created by one transaction, key images that begin alike, "
    "client and range-proof versions) signed by the real agent and device over a serialized wire; the transaction is "
    "parsed and verified by an independent consensus verifier against the chain the case was generated from. "
    "distinct = different (shape of inputs/outputs/rings, version) tuples; all of them are non-trivial (a full signing session each)"
)
ASSUMPTIONS = ["independent reference implementation in mon/ref", "pre-HF-clsag rules (signature types 3 and 4)"]


def one(c, **kw):
    s = gen.scenario(c.rng, **kw)
    cfg = dev.pick_cfg(c.rng, len(s.outs))
    r = dev.sign(s, cfg)
    t = dev.check_consensus(c, s, r.blob, cfg)
    c.count("signed")
    c.count("messages", len(r.wire.log))
    c.count("ring_signatures_verified", len(t.vin))
    c.count("commitments_verified", len(t.vout))
    c.distinct(gen.shape_key(s), cfg)
    c.sample(dict(case=gen.describe(s), cfg=cfg, blob_len=len(r.blob), messages=len(r.wire.log)))
    from ..ref import tx as rtx

    # the object the agent keeps is the one it serialized
    c.eq(rtx.prefix_hash(t), bytes(r.ct.tx_prefix_hash), "prefix hash the device approved")
    return s, r, t


def f_random(c):
    one(c)


def f_small(c):
    one(c, n_in=c.rng.choice([1, 2]), n_out=2, cheap=True)


def f_many_in(c):
    one(c, n_in=c.rng.choice([5, 6, 8]), n_out=2, ring=c.rng.choice([2, 3]))


def f_many_out(c):
    n = c.rng.choice([6, 7, 8, 9, 16] if c.tier == "quick" else [6, 7, 8, 9, 12, 15, 16])
    one(c, n_in=1, n_out=n, ring=2)


def f_big_ring(c):
    one(c, n_in=c.rng.choice([1, 2]), n_out=2, ring=c.rng.choice([12, 16]))


def f_wide(c):
    """counts of inputs and ring members that need more than one byte"""
    if c.idx % 2:
        one(c, n_in=1, n_out=2, ring=c.rng.choice([127, 128, 129, 140]), cheap=True)
        c.count("rings_above_one_byte")
    else:
        one(c, n_in=c.rng.choice([127, 128, 129, 133]), n_out=2, ring=2, account=0, pid=b"", shape=["std"], cheap=True)
        c.count("input_lists_above_one_byte")


def f_kin(c):
    """inputs that resemble each other: created by one transaction, or key images that begin alike"""
    kin = ["twins", "twins", "sibling"][c.idx % 3]
    n = c.rng.choice([2, 2, 3, 4])
    s, r, t = one(c, n_in=n, n_out=2, ring=c.rng.choice([2, 3]), kin=kin)
    ks = sorted(bytes(x.k_image) for x in t.vin)
    same = max(next(i for i in range(32) if x[i] != y[i]) for x, y in zip(ks, ks[1:]))
    c.count("key_images_that_begin_alike", same > 0)
    c.distinct("kin", kin, n, same)


def f_prerct(c):
    one(c, n_in=c.rng.choice([1, 2]), n_out=2, ring=3, rct=False)


def f_seq(c):
    """one device signs several transactions in a row, some in one call"""
    w = gen.W(c.rng)
    d = dev.device(w)
    for k in range(2):
        s = gen.scenario(c.rng, wallet=w, n_in=c.rng.choice([1, 2]), n_out=2)
        cfg = dev.pick_cfg(c.rng, len(s.outs))
        r = dev.sign(s, cfg, dev=d)
        dev.check_consensus(c, s, r.blob, cfg)
        c.distinct("seq", gen.shape_key(s), cfg)


def f_list(c):
    """several transactions signed by one call, and the calls the agent offers for it"""
    from monero_serialize import xmrtypes as X

    w = gen.W(c.rng)
    n = [1, 2, 3][c.idx % 3]
    lst = [gen.scenario(c.rng, wallet=w, account=c.rng.choice([0, 0, 1]), n_in=c.rng.choice([1, 2]), n_out=2, ring=2, pid=b"") for _ in range(n)]
    cons = [gen.construction(s) for s in lst]
    wire = dev.Wire(dev.device(w))
    cfg = dev.pick_cfg(c.rng, 2)
    a = dev.agent(wire, cfg)
    how = ["set", "list", "one"][(c.idx // 3) % 3]
    if how == "set":
        res = run(a.sign_unsigned_tx(X.UnsignedTxSet(txes=cons, transfers=[])))
    elif how == "list":
        res = run(a.sign_tx(cons))
    else:
        res, cons, lst = run(a.sign_tx(cons[-1])), cons[-1:], lst[-1:]
    c.eq(len(res), len(lst), "number of signed transactions", how=how)
    for s, blob in zip(lst, res):
        t = dev.check_consensus(c, s, bytes(blob), cfg)
        dev.check_recipients(c, s, t)
    c.count("signed_in_lists", len(lst))
    c.distinct("list", how, n, cfg)


FAMILIES = {
    "random": dict(fn=f_random, quick=24, thorough=500, backends=("tcry",), weight=3),
    "small": dict(fn=f_small, quick={"tcry": 10, "py": 3}, thorough={"tcry": 200, "py": 60}, weight=4),
    "many_in": dict(fn=f_many_in, quick=3, thorough=60, backends=("tcry",), weight=6),
    "many_out": dict(fn=f_many_out, quick=3, thorough=40, backends=("tcry",), weight=9),
    "big_ring": dict(fn=f_big_ring, quick=3, thorough=60, backends=("tcry",), weight=5),
    "wide": dict(fn=f_wide, quick=2, thorough=16, backends=("tcry",), weight=15),
    "kin": dict(fn=f_kin, quick=6, thorough=90, backends=("tcry",), weight=4),
    "list": dict(fn=f_list, quick=9, thorough=90, backends=("tcry",), weight=4),
    "prerct": dict(fn=f_prerct, quick=2, thorough=30, backends=("tcry",), weight=3),
    "seq": dict(fn=f_seq, quick=3, thorough=60, backends=("tcry",), weight=4),
}
