"""The test generator hands a set of unsigned transactions over to other keys without changing its worth."""

import asyncio
import contextlib
import io
import logging
import os
import random
import shutil
import sys
import tempfile

from .. import dev, gen
from ..harness import run
from ..ref import cn, ed
from ..ref import tx as T
from ..ref.ed import L

RULE = (
    "files of 1..3 generated unsigned transactions (1..4 inputs of main, account and subaddresses, with and without per-output keys, 1..5 destinations of every kind, change, sweeps and exact spends, payment ids) given to the console "
    "tool with random options (destination account and subaddresses, more inputs, fewer and more outputs, subaddress outputs, wider rings, per-output keys, payment ids, description, file or standard output; other or the same "
    "keys); every transaction of the result is judged by an independent wallet, and signed by the real host and device when its rings stayed. distinct = (options, account, inputs, outputs)"
)
ASSUMPTIONS = [
    "inputs lie within the tool's window of accounts 0..9 and minor indices below 200",
    "the filler members of amplified rings and their reference numbers are not judged beyond being points of the group",
    "the option combinations of the recorded defects (known_findings.txt) are provoked on their own (family known) and left out elsewhere",
    "which of the kept destinations gets the value of the dropped ones is not judged",
]


def creds_hex(w):
    return (ed.scenc(w.b) + ed.scenc(w.a)).hex()


def tool(argv, stdin=None):
    """the console tool with these arguments; -> its standard output"""
    from monero_poc.tools import test_gen

    lg = logging.getLogger()
    for h in list(lg.handlers):
        lg.removeHandler(h)
    out, err = io.TextIOWrapper(io.BytesIO(), write_through=True), io.StringIO()
    olds = sys.argv, sys.stdin
    sys.argv = ["monero-test-gen"] + argv
    if stdin is not None:
        sys.stdin = io.TextIOWrapper(io.BytesIO(stdin))
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            asyncio.run(test_gen.TestGen().main())
    except SystemExit as e:
        if e.code:
            raise ValueError("the tool refused its arguments: %s" % err.getvalue()[-300:])
    finally:
        sys.argv, sys.stdin = olds
    return out.buffer.getvalue()


def setof(rng, ss, hf):
    from .C28 import X, cd_of

    return X().UnsignedTxSet(txes=[cd_of(rng, s) for s in ss], transfers=[])


def usable(rng, w):
    """a transfer whose inputs the tool can find"""
    while True:
        s = gen.scenario(rng, wallet=w, cheap=rng.random() < 0.7, account=rng.choice([0, 0, 1, 2, 9]), n_in=rng.choice([1, 1, 2, 3]), n_out=rng.choice([2, 2, 3, 4]), ring=rng.choice([2, 3, 5]), dup=False)
        if all(o.minor < 200 for o in s.owned) and all(sum(a.key()[:3] == b.key()[:3] for b in s.outs) == 1 for a in s.outs):
            # the change is told by its address
            if s.change_dst is None or sum((a.spend, a.view) == (s.change_dst.spend, s.change_dst.view) for a in s.outs) == 1:
                return s


def owner(w, major, minors, src):
    """-> (minor, spend secret) of the subaddress that owns the source's real output"""
    P = bytes(src.outputs[src.real_output][1].dest)
    oi = src.real_output_in_tx_index
    adds = [bytes(x) for x in src.real_out_additional_tx_keys]
    for R in [bytes(src.real_out_tx_key)] + ([adds[oi]] if oi < len(adds) else []):
        h = cn.deriv_scalar(cn.derivation(ed.dec(R), w.a), oi)
        for m in minors:
            x = (h + w.sub_secret(major, m)) % L
            if ed.enc(ed.mulb(x)) == P:
                return m, x
    return None


def ring_of(src):
    return [(i, bytes(k.dest), bytes(k.mask)) for i, k in src.outputs]


def dkey(d):
    return bytes(d.addr.m_spend_public_key), bytes(d.addr.m_view_public_key), d.amount


def judge(c, s, tx, w, to, o):
    """one transaction of the result against the one it was made of"""
    n = len(s.sources)
    more = o.get("inputs") or 0
    c.eq(len(tx.sources), n + more, "number of inputs", options=o)
    c.eq(sum(x.amount for x in tx.sources), sum(x.amount for x in s.sources), "value of the inputs", options=o)
    S = gen.Scenario()
    S.chain, S.owned = gen.Chain(), []
    seen = set()
    for i, src in enumerate(tx.sources):
        was = s.sources[min(i, n - 1)]
        c.eq(src.real_output, was.real_output, "place of the real output")
        ring, old = ring_of(src), ring_of(was)
        c.eq(len(ring), max(len(old), o.get("mixin") or 0), "ring size", options=o)
        for _, a, b in ring:
            c.ok(all(ed.in_prime_group(ed.dec(e)) for e in (a, b)), "ring member is no point of the group")
        if not more or i < n - 1:
            c.eq(src.amount, was.amount, "amount of an input", options=o)
            for j, e in enumerate(old):
                if j != was.real_output:
                    c.eq(ring[j], e, "another ring member changed", place=j, options=o)
                else:
                    c.eq(ring[j][::2], e[::2], "reference or commitment of the real output changed", options=o)
        P, C = ring[src.real_output][1:]
        mask = int.from_bytes(bytes(src.mask), "little")
        c.ok(mask < L and ed.enc(cn.commit(mask, src.amount)) == C, "amount and mask do not open the real output", input=i, options=o)
        c.ok(bool(src.rct) == bool(was.rct), "kind of input")
        c.ok(P not in {e[1] for e in old}, "the real output still is the old one", input=i)
        c.ok(P not in seen, "two inputs spend one output", input=i)
        seen.add(P)
        hit = owner(to, o["major"], o["minors"], src)
        c.ok(hit is not None, "the new keys do not own an input under the asked subaddresses", input=i, options=o, per_output=len(src.real_out_additional_tx_keys))
        if was.real_out_additional_tx_keys or (o.get("add_extra") and (o["major"], hit[0]) != (0, 0)):
            c.ok(len(src.real_out_additional_tx_keys) > src.real_output_in_tx_index, "per-output key missing", options=o)
        ow = gen.Owned()
        ow.ki = ed.enc(cn.key_image(hit[1], P))
        ow.amount, ow.rct, ow.major, ow.minor = src.amount, True, o["major"], hit[0]
        S.owned.append(ow)
        for gi, a, b in ring:
            S.chain.out[gi] = (a, b)
        c.count("inputs")
    # destinations
    got = [dkey(d) for d in tx.splitted_dsts]
    want = [d.key()[:3] for d in s.outs]
    change = s.change_dst
    prim = to.addr(o["major"], 0)
    outs = o.get("outs")
    c.eq(len(got), len(want) if outs is None else outs, "number of outputs", options=o)
    c.eq(sum(g[2] for g in got), sum(d[2] for d in want), "value of the outputs", options=o)
    if change is not None:
        c.eq(dkey(tx.change_dts)[:2], prim, "change address", options=o, change=repr(change))
        ch = [i for i, g in enumerate(got) if g == dkey(tx.change_dts)]
        c.ok(len(ch) >= 1, "the declared change is no output of the transaction", options=o, declared=tx.change_dts.amount, outputs=[g[2] for g in got], case=gen.describe(s))
        ci = ch[0]
        if outs is None:
            c.eq(ci, s.outs.index(change), "place of the change")
            c.eq(got[ci][2], change.amount, "amount of the change", options=o)
    else:
        ci = None
        c.eq(tx.change_dts.amount, 0, "change declared where there is none", options=o)
    mine = {(change.spend, change.view)} if change is not None else set()
    if o.get("outs_subs"):
        own, met = {}, set()
        for d in tx.splitted_dsts:
            k = dkey(d)[:2]
            if change is not None and k == prim:
                continue
            c.ok(d.is_subaddress, "output is not marked as going to a subaddress", options=o)
            if not own:
                ms = {o["major"]} | {d.major for d in s.outs if d.wallet is w}
                own = {x.addr(a, m) for x in (w, to) for a in ms for m in range(1, len(got) + 1)}
            c.ok(k in own, "output does not go to a subaddress of the wallets", options=o)
            c.ok(k not in met, "two outputs go to one subaddress", options=o)
            met.add(k)
    else:
        kinds = {(d.spend, d.view): d.is_sub for d in s.outs if d is not change}
        for i, d in enumerate(tx.splitted_dsts):
            k = dkey(d)[:2]
            if k == prim and change is not None:
                continue
            c.ok(k in kinds, "value goes to an address nobody asked for", options=o)
            c.eq(bool(d.is_subaddress), kinds[k], "kind of a destination")
        if outs is None:
            c.eq([g for i, g in enumerate(got) if i != ci], [x for i, x in enumerate(want) if i != ci], "destinations", options=o)
    c.eq(tx.subaddr_account, o["major"], "account")
    c.eq(list(tx.subaddr_indices), o["minors"], "subaddress indices")
    c.eq(tx.unlock_time, s.unlock, "unlock time")
    extra = gen.nonce_extra(s.pid)
    for k, t in (("nonce", b"\x02\x09\x01"), ("long_nonce", b"\x02\x21\x00")):
        if o.get(k):
            extra += t + o[k]
    c.eq(bytes(bytearray(tx.extra or b"")), bytes(bytearray(extra)), "extra", options=o)
    # what is needed to sign it
    S.w, S.account, S.minors, S.sources = to, o["major"], o["minors"], list(tx.sources)
    S.change_dst = gen.Dst("change", to, o["major"], 0, change.amount) if change is not None else None
    S.outs = [S.change_dst if d is change else d for d in s.outs]
    S.dests = [d for d in S.outs if d is not S.change_dst]
    S.fee, S.unlock, S.pid, S.ring, S.integrated, S.use_bp = s.fee, s.unlock, s.pid, len(tx.sources[0].outputs), s.integrated, True
    return S


def signed(c, s):
    """the real host and device spend it with the new keys"""
    if s.change_dst is None or any((d.spend, d.view) == (s.change_dst.spend, s.change_dst.view) for d in s.dests):
        return
    # an id no subaddress recipient could decrypt
    if s.pid and len(s.pid) == 8 and gen.needs_additional(s.outs, (s.change_dst.spend, s.change_dst.view)):
        return
    r = dev.sign(s, (1, 10))
    t = dev.check_consensus(c, s, r.blob, (1, 10))
    dev.check_recipients(c, s, t)
    c.count("signed")


# Recorded defects of the tool (known_findings.txt), and when they can show: the other families stay clear of them, the
# family 'known' provokes them one by one, so that anything else that goes wrong is reported.
KNOWN = ["testgen-subaddress-choice", "testgen-extra-index", "testgen-split", "testgen-outs-change"]


def opt_risks(o, same):
    r = set()
    if (o["major"] != 0 and o["minors"] == [0]) or (o["major"] == 0 and 0 not in o["minors"]):
        r.add("testgen-subaddress-choice")
    if o.get("inputs") and not same:
        r.add("testgen-split")
    return r


def risks(o, s, same):
    """recorded defects that handing over s with these options can meet"""
    r = opt_risks(o, same)
    if o.get("add_extra") and o["major"] != 0 and any(x.real_output_in_tx_index >= 2 and not x.real_out_additional_tx_keys for x in s.sources):
        r.add("testgen-extra-index")
    if o.get("inputs") and s.sources[-1].real_out_additional_tx_keys:
        r.add("testgen-split")
    if o.get("outs") and o["outs"] != len(s.outs):
        ci = s.outs.index(s.change_dst) if s.change_dst is not None else None
        if ci is None or (o["outs"] < len(s.outs) and ci != 0) or (o["outs"] > len(s.outs) and ci == len(s.outs) - 1):
            r.add("testgen-outs-change")
    return r


def options(rng, shape):
    o = dict(major=rng.choice([0, 0, 1, 2, 9]))
    o["minors"] = rng.choice([[0], [0], [1], [5, 7], [0, 3], [199]])
    if rng.random() < 0.35:
        o["add_extra"] = True
    if rng.random() < 0.2:
        o["nonce"] = gen.rb(rng, 8)
    if rng.random() < 0.2:
        o["long_nonce"] = gen.rb(rng, 32)
    if rng.random() < 0.3:
        o["mixin"] = rng.choice([1, 3, 4, 7])
    if shape:
        if rng.random() < 0.5:
            o["inputs"] = rng.choice([1, 2, 3])
        if rng.random() < 0.7:
            o["outs"] = rng.choice([1, 2, 3, 4, 6])
        if rng.random() < 0.5:
            o["outs_subs"] = True
    return o


def plan(rng, shape, want):
    """keys, options and the transactions of each file; want: a recorded defect at least one of them meets, else none does"""
    while True:
        o = options(rng, shape or want in KNOWN[2:])
        w = gen.W(rng)
        to = w if rng.random() < 0.15 or (o.get("inputs") and not want) else gen.W(rng)
        have = opt_risks(o, to is w)
        if have - {want}:
            continue
        if want == "testgen-subaddress-choice" and not have or want == "testgen-extra-index" and not (o.get("add_extra") and o["major"]):
            continue
        if want == "testgen-outs-change" and not o.get("outs"):
            continue
        sets, tries, met = [], 0, False
        for _ in range(rng.choice([1, 1, 2])):
            ss = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                while tries < 60:
                    tries += 1
                    s = usable(rng, w)
                    r = risks(o, s, to is w)
                    if not r - {want}:
                        met = met or want in r
                        ss.append(s)
                        break
            sets.append(ss)
        if all(sets) and (met or not want):
            return o, w, to, sets


def f_hand(c):
    """families 'hand' and 'shape': hand over, the latter with options that change the transaction's shape"""
    hand_over(c, False, None)


def f_known(c):
    """family 'known': the recorded defects of the tool"""
    from ..harness import Violation

    key = KNOWN[c.idx % len(KNOWN)]
    c.observed += 1
    c.distinct("known", key)
    try:
        hand_over(c, key in KNOWN[2:], key)
    except Violation as e:
        c.fail("%s: %s" % (key, e.msg), key=key, **(e.detail or {}))
    except Exception as e:
        c.fail("%s: %s %s" % (key, type(e).__name__, str(e)[:200]), key=key)


def hand_over(c, shape, want):
    from monero_glue.xmr import crypto, wallet

    rng = c.rng
    random.seed(rng.getrandbits(64))
    d = tempfile.mkdtemp(prefix="c40-")
    try:
        o, w, to, sets = plan(rng, shape, want)
        files = []
        for i, ss in enumerate(sets):
            f = run(wallet.dump_unsigned_tx(crypto.decodeint(ed.scenc(w.a)), setof(rng, ss, 9)))
            p = os.path.join(d, "tx%d.bin" % i)
            with open(p, "wb") as fh:
                fh.write(f)
            files.append((p, ss, f))
        # (a list of numbers ends where the next option begins)
        argv = ["--minors"] + [str(m) for m in o["minors"]] + ["--current", creds_hex(w), "--dest", creds_hex(to), "--major", str(o["major"])]
        for k, opt in (("nonce", "--add-nonce"), ("long_nonce", "--add-long-nonce")):
            if o.get(k):
                argv += [opt, o[k].hex()]
        for k in ("mixin", "inputs", "outs"):
            if o.get(k):
                argv += ["--" + k, str(o[k])]
        for k, opt in (("add_extra", "--add-extra"), ("outs_subs", "--outs-subs")):
            if o.get(k):
                argv.append(opt)
        stdio = len(files) == 1 and rng.random() < 0.3
        suffix = "" if rng.random() < 0.5 else "_new"
        outd = os.path.join(d, "out")
        os.mkdir(outd)
        if stdio:
            way = rng.choice(["stdin", "stdin", "file"])
            if way == "file":
                got = [tool(argv + [files[0][0]])]
            elif rng.random() < 0.5:
                got = [tool(argv, files[0][2])]
            else:
                c.eq(tool(argv + ["--output", outd], files[0][2]), b"", "printed although a directory was given")
                c.eq(os.listdir(outd), ["output.bin"], "files written")
                with open(os.path.join(outd, "output.bin"), "rb") as fh:
                    got = [fh.read()]
        else:
            if suffix:
                argv += ["--suffix", suffix]
            if rng.random() < 0.4:
                argv.append("--desc")
                o["desc"] = True
            text = tool(argv + ["--output", outd] + [p for p, _, _ in files]).decode()
            got = []
            c.eq(sorted(os.listdir(outd)), sorted("tx%d%s.bin" % (i, suffix) for i in range(len(files))), "files written", text=text[-300:])
            for i, (p, _, _) in enumerate(files):
                with open(os.path.join(outd, "tx%d%s.bin" % (i, suffix)), "rb") as fh:
                    got.append(fh.read())
            if o.get("desc"):
                c.eq(text.count("#txs: "), 2 * len(files), "descriptions")
        for p, _, f in files:
            with open(p, "rb") as fh:
                c.eq(fh.read(), f, "the input file changed")
        for (p, ss, _), raw in zip(files, got):
            if to is not w:
                c.refused(lambda: run(wallet.load_unsigned_tx(crypto.decodeint(ed.scenc(w.a)), raw)), "the old keys read the result")
            u = run(wallet.load_unsigned_tx(crypto.decodeint(ed.scenc(to.a)), raw))
            c.eq(len(u.txes), len(ss), "number of transactions")
            for s, tx in zip(ss, u.txes):
                S = judge(c, s, tx, w, to, o)
                c.count("transactions")
                if not shape and not o.get("mixin") and not o.get("nonce") and not o.get("long_nonce") and rng.random() < 0.6:
                    signed(c, S)
        c.distinct(tuple(sorted(k for k in o if o[k])), o["major"], tuple(o["minors"]), len(files), o.get("inputs"), o.get("outs"))
    finally:
        shutil.rmtree(d)


def f_refuse(c):
    """family 'refuse': other keys, altered files, payment ids and keys of another length"""
    from monero_glue.xmr import crypto, wallet

    rng = c.rng
    d = tempfile.mkdtemp(prefix="c40-")
    try:
        w, to, x = (gen.W(rng) for _ in range(3))
        f = run(wallet.dump_unsigned_tx(crypto.decodeint(ed.scenc(w.a)), setof(rng, [usable(rng, w)], 9)))
        p, outd = os.path.join(d, "a.bin"), os.path.join(d, "out")
        os.mkdir(outd)
        mix = gen.W(rng)
        mix.__dict__.update(a=w.a, A=w.A, b=x.b, B=x.B)
        cut = lambda b: b[: rng.randrange(len(b))]
        flip = bytearray(f)
        flip[rng.randrange(22, len(f))] ^= 1 << rng.randrange(8)
        base = lambda a, b: ["--current", creds_hex(a), "--dest", creds_hex(b)]
        for what, data, argv in (
            ("keys of another wallet", f, base(x, to)),
            ("another spend key", f, base(mix, to)),
            ("altered file", bytes(flip), base(w, to)),
            ("cut file", cut(f), base(w, to)),
            ("no file", b"", base(w, to)),
            ("short keys", f, ["--current", creds_hex(w), "--dest", creds_hex(to)[:126]]),
            ("long keys", f, ["--current", creds_hex(w) + "00", "--dest", creds_hex(to)]),
            ("payment id of 7 bytes", f, base(w, to) + ["--add-nonce", "00" * 7]),
            ("payment id of 9 bytes", f, base(w, to) + ["--add-nonce", "00" * 9]),
            ("long payment id of 31 bytes", f, base(w, to) + ["--add-long-nonce", "00" * 31]),
        ):
            with open(p, "wb") as fh:
                fh.write(data)
            c.refused(lambda: tool(argv + ["--output", outd, p]), "a set was made out of: %s" % what)
            c.eq(os.listdir(outd), [], "something was written in spite of: %s" % what)
            c.count("refused")
            c.distinct("refuse", what)
        with open(p, "wb") as fh:
            fh.write(f)
        tool(base(w, to) + ["--output", outd, p])
        c.eq(os.listdir(outd), ["a.bin"], "files written")
    finally:
        shutil.rmtree(d)


def f_shape(c):
    hand_over(c, True, None)


FAMILIES = {
    "hand": dict(fn=f_hand, quick=20, thorough=300, backends=("tcry",)),
    "refuse": dict(fn=f_refuse, quick=3, thorough=40, backends=("tcry",)),
    "known": dict(fn=f_known, quick=8, thorough=40, backends=("tcry",)),
    "shape": dict(fn=f_shape, quick=30, thorough=400, backends=("tcry",)),
}
