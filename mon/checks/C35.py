"""Batch plans and list helpers lose nothing."""

import itertools

from .. import dev, gen
from ..ref import tx as rtx

RULE = (
    "every number of outputs from 0 to a few hundred with every mode, judged by the definition of a batch plan (exact cover in order, sizes a power of two not above 16 or one padded batch of at most 16); all "
    "permutations of up to 6 (7) elements and random ones up to 300, all words of length up to 5 (6) over slightly more letters that are no permutation; chunks, defaults, byte-string equality; whole sessions of the real host with the real "
    "device whose messages are watched: the batches announced, the proofs sent and the proofs in the signed transaction match the plan. distinct = (operation, size class, verdict)"
)
ASSUMPTIONS = [
    "mode 0 and 1: one proof per output; mode 2: powers of two of at most 16; mode 3: one padded proof of at most 16 outputs",
    "helpers are used with lists; a permutation is a list of integers",
]


def f_plan(c):
    """family 'plan': batch plans for all numbers of outputs"""
    from monero_glue.agent import agent_lite as al

    top = 128 if c.tier == "quick" else 600
    lo = c.idx * top
    for n in range(lo, lo + top):
        for mode in (0, 1, 2, 3):
            if mode == 3 and n > 16:
                c.refused(lambda: al.generate_rsig_batch_sizes(3, n), "one padded proof for more than 16 outputs", n=n)
                c.distinct("plan", mode, "refused")
                continue
            b = list(al.generate_rsig_batch_sizes(mode, n))
            c.eq(sum(b), n, "plan does not cover the outputs exactly once", n=n, mode=mode, plan=b)
            c.ok(all(type(x) is int and x > 0 for x in b), "plan with an empty batch", n=n, mode=mode, plan=b)
            if mode in (0, 1):
                c.eq(b, [1] * n, "one proof per output", n=n, mode=mode)
            elif mode == 3:
                c.ok(len(b) <= 1, "padded mode has one batch", n=n, plan=b)
            else:
                c.ok(all(x <= 16 and x & (x - 1) == 0 for x in b), "unsupported batch size", n=n, plan=b)
                c.eq(len(b), n // 16 + bin(n % 16).count("1"), "more batches than needed", n=n, plan=b)
            c.distinct("plan", mode, len(b), min(n, 40))
            c.count("plans")
        # the mode the host picks can carry that many outputs
        if n:
            m = al.get_rsig_type(True, n)
            c.ok(m in (2, 3), "range-proof mode for aggregated proofs", n=n, mode=m)
            c.eq(sum(al.generate_rsig_batch_sizes(m, n)), n, "chosen mode covers the outputs", n=n, mode=m)
        c.eq(al.get_rsig_type(False, n), 0, "range-proof mode without aggregated proofs", n=n)
    for mode in (4, 5, -1, 255, None):
        c.refused(lambda: al.generate_rsig_batch_sizes(mode, 1 + c.rng.randrange(40)), "unknown mode", mode=mode)
    c.observed += top


def apply(common, perm, items):
    lst = list(items)
    swaps = []

    def swap(x, y):
        swaps.append((x, y))
        lst[x], lst[y] = lst[y], lst[x]

    p = list(perm)
    common.apply_permutation(p, swap)
    return lst, swaps, p


def one_perm(c, common, perm):
    n = len(perm)
    items = [("item", i) for i in range(n)]
    common.check_permutation(list(perm))
    common.check_permutation(tuple(perm))
    got, swaps, p = apply(common, perm, items)
    c.eq(got, [items[i] for i in perm], "permutation applied", perm=perm)
    c.eq(list(p), list(perm), "the permutation handed in was changed", perm=perm)
    inv = [0] * n
    for i, x in enumerate(perm):
        inv[x] = i
    back, _, _ = apply(common, inv, got)
    c.eq(back, items, "the inverse permutation restores the list", perm=perm)
    c.count("permutations")
    return len(swaps)


def not_perm(c, common, bad):
    items = list(range(100, 100 + len(bad)))
    lst = list(items)
    seen = []
    c.refused(lambda: common.check_permutation(list(bad)), "invalid permutation accepted", perm=bad)

    def swap(x, y):
        seen.append((x, y))

    c.refused(lambda: common.apply_permutation(list(bad), swap), "invalid permutation applied", perm=bad)
    c.ok(not seen, "list touched before the permutation was refused", perm=bad, swaps=seen)
    c.eq(lst, items, "list")
    c.count("non_permutations")


def f_perm(c):
    """family 'perm': permutations and words that are none"""
    from monero_glue.xmr import common

    top = 6 if c.tier == "quick" else 7
    if c.idx == 0:
        for n in range(0, top + 1):
            for perm in itertools.permutations(range(n)):
                k = one_perm(c, common, perm)
                c.distinct("perm", n, k)
        for n in range(1, top):
            for w in itertools.product(range(-1, n + 1), repeat=n):
                if sorted(w) != list(range(n)):
                    not_perm(c, common, w)
                    c.distinct("word", n, len(set(w)), min(w), max(w))
        c.observed += 1
        return
    for _ in range(20):
        n = c.rng.choice([c.rng.randrange(1, 20), c.rng.randrange(1, 300)])
        perm = list(range(n))
        c.rng.shuffle(perm)
        k = one_perm(c, common, perm)
        c.distinct("perm", n.bit_length(), k.bit_length())
        if n > 1:
            bad = list(perm)
            i, j = c.rng.sample(range(n), 2)
            how = c.rng.randrange(4)
            if how == 0:
                bad[i] = bad[j]
            elif how == 1:
                bad[i] = n + c.rng.randrange(3)
            elif how == 2:
                bad[i] = -1 - c.rng.randrange(n)
            else:
                bad[i] = bad[i] + 1 if bad[i] + 1 < n else bad[i] - 1
            not_perm(c, common, bad)
            c.distinct("word", how)
    c.observed += 1


def rnd(c, n):
    return bytes(c.rng.getrandbits(8) for _ in range(n))


def f_helpers(c):
    """family 'helpers': chunks, defaults, equality"""
    from monero_glue.xmr import common

    for _ in range(40):
        n = c.rng.randrange(0, 70)
        size = c.rng.randrange(1, 80)
        for mk in (list, tuple, bytes, bytearray):
            arr = mk(c.rng.randrange(256) for _ in range(n))
            ch = common.chunk(arr, size)
            flat = [x for part in ch for x in part]
            c.eq(flat, list(arr), "chunks concatenate to the original", n=n, size=size)
            c.eq([len(x) for x in ch], [size] * (n // size) + ([n % size] if n % size else []), "chunk sizes", n=n, size=size)
        c.distinct("chunk", (n % size == 0), n == 0, size > n)

        # byte strings are equal exactly when they are the same
        a = rnd(c, c.rng.choice([0, 1, 31, 32, 33, 64, n]))
        b = bytearray(a)
        how = c.rng.randrange(5)
        if how == 1 and b:
            b[c.rng.randrange(len(b))] ^= 1 << c.rng.randrange(8)
        elif how == 2:
            b += b"\0"
        elif how == 3 and b:
            b = b[:-1]
        elif how == 4 and len(b) > 1:
            b = b[::-1]
        for x, y in ((a, bytes(b)), (bytearray(a), bytes(b)), (a, bytearray(b)), (memoryview(a), bytes(b))):
            for u, v in ((x, y), (y, x)):
                c.eq(bool(common.ct_equal(u, v)), bytes(a) == bytes(b), "byte-string equality", a=a, b=bytes(b))
        c.distinct("equal", how, len(a) in (0, 1), a == bytes(b))

        # hashing a byte string to a word: big-endian value of the last eight bytes
        c.eq(common.hash_bytearray(bytearray(a)), int.from_bytes(a, "big") & (2**64 - 1), "word of a byte string", a=a)

        # defaults replace exactly what is missing
        for v in (None, 0, False, b"", [], "x", [0], b"\0"):
            c.eq(common.defval(v, "dflt"), "dflt" if v is None else v, "default for a missing value", v=v)
            if v is None or hasattr(v, "__len__"):
                c.eq(common.is_empty(v), v is None or len(v) == 0, "emptiness", v=v)
                c.eq(common.defval_empty(v, "dflt"), "dflt" if v is None or len(v) == 0 else v, "default for an empty value", v=v)
            for tn in (True, False):
                exp = "dflt" if (v is None and not tn) else v
                c.eq(common.defvalkey({"k": v}, "k", "dflt", take_none=tn), exp, "default for a key", v=v)
                c.eq(common.defvalkey({"k": v}, "other", "dflt", take_none=tn), "dflt", "default for a missing key", v=v)

                class O:
                    pass

                o = O()
                o.k = v
                c.eq(common.defattr(o, "k", "dflt", take_none=tn), exp, "default for an attribute", v=v)
                c.eq(common.defattr(o, "other", "dflt", take_none=tn), "dflt", "default for a missing attribute", v=v)
            c.eq(common.defvalkeys({"a": {"b": v}}, "a.b", "dflt"), v, "nested key", v=v)
            c.eq(common.defvalkeys({"a": {"b": v}}, ["a", "b"], "dflt"), v, "nested key", v=v)
            c.eq(common.defvalkeys({"a": {"b": v}}, "a.c", "dflt"), "dflt", "missing nested key", v=v)
        c.eq(common.defvalkey(None, "k", "dflt"), "dflt", "default without dictionary")
        c.eq(common.defattr(None, "k", "dflt"), "dflt", "default without object")
    c.count("helper_rounds", 40)
    c.observed += 1


def f_hashes(c):
    """family 'hashes': the hash wrappers hash exactly what was written"""
    from monero_glue.xmr import common, crypto
    from ..harness import run

    for _ in range(10):
        parts = [rnd(c, c.rng.choice([0, 1, 7, 64, 135, 136, 137, 300])) for _ in range(c.rng.randrange(0, 6))]
        forms = [c.rng.choice([bytes, bytearray])(p) for p in parts]
        exp = bytes(crypto.cn_fast_hash(b"".join(parts)))
        h = common.HashWrapper(crypto.get_keccak())
        for p in forms:
            h.update(p)
        c.eq(bytes(h.digest()), exp, "wrapped hash", parts=parts)

        class Sub:
            def __init__(self):
                self.b = bytearray()

            async def awrite(self, buf):
                self.b += buf
                return len(buf)

        sub = Sub() if c.rng.random() < 0.7 else None
        w = common.AHashWriter(common.HashWrapper(crypto.get_keccak()), sub)

        async def go():
            n = 0
            for p in forms:
                n += await w.awrite(p)
            return n

        c.eq(run(go()), sum(map(len, parts)), "bytes written through the hash", parts=parts)
        c.eq(bytes(w.get_digest()), exp, "hash of what was written", parts=parts)
        if sub:
            c.eq(bytes(sub.b), b"".join(parts), "what was passed on")
        c.distinct("hash", len(parts), sub is None)
    c.count("hashes", 10)
    c.observed += 1


NOUT = [2, 3, 4, 5, 7, 17, 6, 8, 16, 19, 20, 11, 9, 13, 18, 12, 15, 10, 14]


def f_session(c):
    """family 'session': the plan is what is announced, proved and signed"""
    n = NOUT[c.idx % (6 if c.tier == "quick" else len(NOUT))]
    cfg = [(1, 10), (1, 9), (0, 9)][c.idx % 3] if n <= 2 else (1, c.rng.choice([9, 10]))
    s = gen.scenario(c.rng, n_in=1, n_out=n, ring=2, change=True, pid=b"", cheap=True)
    d = dev.device(s.w)
    w = dev.Wire(d)
    log = []

    def req(i, method, msg):
        log.append(msg)
        return msg

    w.req_hook = req
    t = rtx.parse(dev.sign(s, cfg, dev=d, wire=w).blob)
    init = [m for m in log if type(m).__name__ == "MoneroTransactionInitRequest"][0]
    plan = [int(x) for x in init.tsx_data.rsig_data.grouping]
    c.eq(int(init.tsx_data.num_inputs), 1, "inputs announced")
    c.eq(len(init.tsx_data.outputs), n, "outputs announced")
    c.eq(sum(plan), n, "announced batches cover the outputs", plan=plan)
    c.ok(all(0 < x <= 16 for x in plan), "announced batch size", plan=plan)
    c.eq(len(t.bps), len(plan), "proofs in the transaction", plan=plan)
    outs = [m for m in log if type(m).__name__ == "MoneroTransactionSetOutputRequest"]
    off = [m for m in outs if m.is_offloaded_bp or (m.rsig_data is not None and m.rsig_data.rsig and cfg[0] == 0)]
    c.eq(len([m for m in outs if m.dst_entr is not None]), n, "outputs sent one by one", plan=plan)
    if n > 2:
        c.eq(len(off), len(plan), "one proof sent per batch", plan=plan, outputs=n)
    else:
        c.eq(len([m for m in outs if m.is_offloaded_bp]), 0, "proofs sent although the device makes them")
    for g, bp in zip(plan, t.bps):
        rounds = 6
        while (1 << (rounds - 6)) < g:
            rounds += 1
        c.eq(len(bp.L), rounds, "rounds of the proof of a batch", batch=g)
    c.distinct("session", n, cfg)
    c.count("sessions")
    c.sample(dict(outputs=n, cfg=cfg, plan=plan, messages=len(log)))


FAMILIES = dict(
    plan=dict(fn=f_plan, quick=1, thorough=2, backends=("tcry",), weight=1),
    perm=dict(fn=f_perm, quick=6, thorough=60, backends=("tcry",), weight=1),
    helpers=dict(fn=f_helpers, quick=6, thorough=60, backends=("tcry",), weight=1),
    hashes=dict(fn=f_hashes, quick=4, thorough=30, weight=1),
    session=dict(fn=f_session, quick=6, thorough=38, backends=("tcry",), weight=3),
)
