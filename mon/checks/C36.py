"""The command line agent does what the user typed, and nothing before the user agreed."""

import contextlib
import datetime
import json
import os
import re
import shlex
import stat
import subprocess
import sys
from decimal import Decimal

from .. import cli, dev, gen, kis, refdev
from ..daemon import Daemon
from ..harness import Violation
from ..harness import run as hrun
from ..ref import b58m, cn, ed, symm
from ..ref import tx as rtx
from .C10 import expect_keys
from .C28 import cd_of, kv_strings, load_signed, open_file, slow_hash, transfers

RULE = (
    "the real command line agent with a scripted user, a recording wallet RPC server (digest authenticated, over loopback) and the real emulated device; transfers and sweeps of random shapes typed as command lines with amounts "
    "rendered in many decimal forms, stopped by the user at each prompt or refused by the device, every RPC request, device message and written file judged; random malformed lines against an independent grammar; key image "
    "synchronisation; restore heights asked as numbers, dates or the present of a stand-in daemon with chains of random pace; accounts created, stored, reopened, tampered with; starting of a stand-in wallet RPC program from hostile paths. distinct = (command, options, shape, stopping point) and (alteration)"
)
ASSUMPTIONS = [
    "the wallet RPC answers honestly in these workloads (a lying one is the matter of C04, C05, C07)",
    "amounts written with exponents, underscores or other extras the number parser takes are only judged for exactness when accepted",
    "exact spends have two outputs (the files hold an empty change entry then, which the device only takes for the filler of a two-output transaction)",
    "the alphabet of the RPC password's random generator is not judged",
]
PRIO = ["default", "unimportant", "normal", "elevated", "priority"]
STOPS = ["none", "none", "none", "user1", "user2", "device", "user3", "quit1", "quit2"]


def dst_addr(d):
    return cli.address(d.spend, d.view, sub=d.is_sub, pid=d.pid if d.kind == "int" else None).decode()


def render(rng, atomic):
    """a decimal form of the amount"""
    i, f = divmod(atomic, 10**12)
    fs = "%012d" % f
    k = rng.randrange(5)
    if k == 0:
        return "%d.%s" % (i, fs)
    fs = fs.rstrip("0")
    if k == 1 and i == 0 and fs:
        return "." + fs
    if k == 2:
        return "0%d.%s" % (i, fs or "0")
    if k == 3 and not fs:
        return "%d." % i
    return "%d.%s" % (i, fs) if fs else "%d" % i


class Ctx:
    pass


@contextlib.contextmanager
def setup(c, w, script, answers=(), answer_dev=True, extra=(), account=0, creds=True, opts=(), ready=True):
    x = Ctx()
    rng = c.rng
    pw = "".join(rng.choice("abcXYZ019-_.!") for _ in range(12))
    x.rpc = cli.Rpc("user%d" % rng.randrange(9), pw)
    x.dev = dev.device(w, answer=answer_dev)
    x.wire = cli.DevWire(x.dev, w)
    x.wire.rng = rng
    x.w = w
    argv = ["--testnet", "--rpc-addr", "127.0.0.1:%d" % x.rpc.port, "--rpc-wallet", "127.0.0.1:%d" % x.rpc.port, "--rpc-wallet-creds", "%s:%s" % x.rpc.auth]
    if creds:
        argv += ["--view-key", ed.scenc(w.a).hex(), "--address", cli.address(*w.addr()).decode()]
    argv += list(opts)

    def sc(h):
        if ready is not None:
            h.rpc_ready = ready
        if account:
            h.set_account(account)
        x.before = len(x.wire.log)
        script(h)

    x.cli = cli.Cli(x.wire, argv, sc)
    x.cli.user.answers = list(answers)
    with cli.scratch() as d, slow_hash() as slow:
        x.dir, x.slow = d, slow
        try:
            yield x
        finally:
            x.rpc.close()


def go(x):
    try:
        x.cli.run()
    finally:
        failed(x)


def failed(x):
    if x.rpc.failed is not None:
        raise x.rpc.failed


def files(d):
    return sorted(os.listdir(d))


def no_secrets(c, x, w):
    """none of the wallet's secrets is written or sent in the clear"""
    sec = [ed.scenc(w.a), ed.scenc(w.b), ed.scenc(w.a).hex().encode(), ed.scenc(w.b).hex().encode()]
    for f in files(x.dir):
        b = open(os.path.join(x.dir, f), "rb").read()
        c.ok(not any(s in b for s in sec), "a file holds a wallet secret in the clear", file=f)
    b = json.dumps([list(r[1:]) for r in x.rpc.log], default=repr).encode()
    c.ok(not any(s in b for s in sec[2:]), "a wallet secret was sent to the wallet RPC")


def make_set(c, s_list, priv, with_transfers):
    """unsigned set of the scenarios; positions of the inputs among the transfers"""
    from monero_glue.xmr import wallet
    from monero_serialize import xmrtypes as X

    rng = c.rng
    n_in = sum(len(s.sources) for s in s_list)
    total = n_in + rng.randrange(0, 4)
    pos = list(range(total))
    rng.shuffle(pos)
    tds = transfers(rng, s_list[0].w, total, 10) if with_transfers else []
    txes, sel, k = [], [], 0
    for s in s_list:
        cd = cd_of(rng, s)
        p = pos[k : k + len(s.sources)]
        k += len(s.sources)
        cd.selected_transfers = list(p)
        sel.append(list(p))
        txes.append(cd)
    data = bytes(hrun(wallet.dump_unsigned_tx(priv, X.UnsignedTxSet(txes=txes, transfers=tds), 10)))
    return data, sel, [bytes(t.m_key_image) for t in tds]


def judge_signed(c, x, s_list, sel, old_kis, data):
    """the signed set the agent produced"""
    from monero_glue.xmr import crypto

    w = x.w
    open_file(c, data, x.slow, w.a, b"Monero signed tx set\x04")
    st = hrun(load_signed(crypto.decodeint(ed.scenc(w.a)), data))
    c.eq(len(st.ptx), len(s_list), "number of signed transactions")
    exp = list(old_kis) if old_kis else [ed.enc(ed.ID)] * (max(max(p) for p in sel) + 1)
    blobs = []
    for s, p in zip(s_list, sel):
        for o, i in zip(s.owned, p):
            exp[i] = o.ki
    for i, (s, q, p) in enumerate(zip(s_list, st.ptx, sel)):
        from .C28 import ser

        blob = bytes(hrun(ser(q.tx)))
        t = dev.check_consensus(c, s, blob, (1, 10))
        dev.check_recipients(c, s, t)
        blobs.append((blob, t))
        c.eq(list(q.selected_transfers), p, "selected transfers of the pending transaction")
        c.eq(bytes(q.tx_key), ed.enc(ed.ID), "a transaction key goes to the hot wallet")
        c.eq(list(q.additional_tx_keys), [], "additional transaction keys go to the hot wallet")
    c.eq([bytes(k) for k in st.key_images], exp, "key images handed to the hot wallet")
    return blobs


def amounts_shown(c, out, pairs):
    """the user was shown the exact amount and fee of every prepared transaction"""
    lines = [[Decimal(m) * 10**12 for m in re.findall(r"(?<![\w.])\d+(?:\.\d+)?(?:[eE][+-]?\d+)?(?![\w.])", ln)] for ln in out.split("\n")]
    for a, f in pairs:
        hit = next((ln for ln in lines if a in ln and f in ln), None)
        c.ok(hit is not None, "amount and fee of a prepared transaction are not shown exactly", amount=a, fee=f, out=out[-800:])
        lines.remove(hit)


def judge_files(c, x, s_list, sel, blobs, data):
    exp = {"signed_monero_tx"} | {"transaction_%02d" % i for i in range(len(s_list))}
    exp |= {"transaction_%s.json" % rtx.prefix_hash(t)[:12].hex() for _, t in blobs}
    c.eq(set(files(x.dir)), exp, "files the agent wrote")
    c.eq(open("signed_monero_tx", "rb").read(), data, "signed set on disk")
    w = x.w
    for i, (s, (blob, t)) in enumerate(zip(s_list, blobs)):
        c.eq(open("transaction_%02d" % i, "rb").read(), blob, "transaction on disk")
        ph = rtx.prefix_hash(t)
        js = json.load(open("transaction_%s.json" % ph[:12].hex()))
        c.eq(js["hash"], ph.hex(), "hash in the transaction record")
        s1, s2, ek = (bytes.fromhex(js[k]) for k in ("enc_salt1", "enc_salt2", "tx_keys"))
        plain = refdev.unpack(refdev.device_key(w.b, ph, s1, s2), ek)
        c.ok(plain is not None, "transaction keys in the record cannot be recovered by the owner")
        expect_keys(c, s, t, plain)
        salt = bytes.fromhex(js["tx_salt"])
        base = pbkdf(ph + ed.scenc(w.a), salt, 2048)
        un = refdev.unpack(refdev.k2(b"unsigned;" + base), bytes.fromhex(js["unsigned_data"]))
        c.ok(un is not None, "construction data in the record cannot be opened with the view key")
        c.ok(all(bytes(src.mask) in un and bytes(src.real_out_tx_key) in un for src in s.sources), "construction data in the record are those of the transaction")
        sg = bytes.fromhex(js["tx_signed"])
        c.ok(blob in sg, "record holds another transaction")
        c.eq(js["tx_signed_hmac"], hmac_of(refdev.k2(b"hmac;" + base), sg).hex(), "authentication of the record")
        c.count("records_opened")


def pbkdf(p, salt, n):
    from monero_glue.xmr import crypto

    return bytes(crypto.pbkdf2(p, salt, n))  # n is the length here; judged against its definition in C17


def hmac_of(k, m):
    return refdev.hmac(k, m)


def stop_answers(stop, prompts):
    """answers to the prompts of a command and the index of the refusing one"""
    a = ["y"] * prompts
    if stop.startswith("user") or stop.startswith("quit"):
        k = int(stop[4:]) - 1
        if k < prompts:
            a[k] = "n" if stop[0] == "u" else "q"
            a = a[: k + 1]
    return a


def pick_scenarios(c, w, dup=False):
    rng = c.rng
    acc = rng.choice([0, 0, 0, 1, 5])
    n_out = rng.choice([2, 2, 3])
    s = gen.scenario(rng, wallet=w, cheap=True, account=acc, n_in=rng.choice([1, 2, 3, 4]), n_out=n_out, ring=rng.choice([2, 3, 5]), change=rng.choice([True, True, False if n_out == 2 else True, "sweep"]))
    return s, acc


def fam_transfer(c):
    from monero_glue.xmr import crypto

    rng = c.rng
    w = gen.W(rng)
    s, acc = pick_scenarios(c, w)
    lst = [s]
    if not s.pid and rng.random() < 0.5:
        lst.append(gen.scenario(rng, wallet=w, cheap=True, account=acc, n_in=rng.choice([1, 2]), n_out=2, ring=2, pid=b"", change=True))
    stop = rng.choice(STOPS)
    answers = stop_answers(stop, 2 if stop == "device" else 3)
    priv = crypto.decodeint(ed.scenc(w.a))
    dests = [d for q in lst for d in q.dests]
    idx = rng.choice([None, [0], [1, 2], [0, 7, 300]])
    prio = rng.choice([None, None] + PRIO)
    ring = rng.choice([None, s.ring, 11])
    parts = (["index=" + ",".join(map(str, idx))] if idx else []) + ([prio] if prio else []) + ([str(ring)] if ring else [])
    for d in dests:
        parts += [dst_addr(d), render(rng, d.amount)]
    pid = s.pid if s.pid and not s.integrated else b""
    if pid:
        parts.append(pid.hex())
    line = "".join(p + " " * rng.choice([1, 1, 1, 2]) for p in parts)
    if rng.random() < 0.5:
        line = line.strip()
    st = {}

    def on_transfer(p):
        st["params"] = p
        c.eq(p.pop("destinations", None), [{"amount": d.amount, "address": dst_addr(d)} for d in dests], "destinations asked of the wallet", line=line)
        c.eq(p.get("do_not_relay"), True, "the wallet is told not to relay")
        c.eq(p.get("account_index"), acc, "account of the transfer")
        c.eq(p.get("subaddr_indices"), idx or [], "subaddress indices", line=line)
        c.eq(p.get("unlock_time", 0), 0, "unlock time")
        c.eq(p.get("priority"), PRIO.index(prio) if prio else None, "priority", line=line)
        c.eq(p.get("ring_size"), ring, "ring size", line=line)
        c.ok("mixin" not in p, "a number of decoys is given besides the ring size")
        c.eq(p.get("payment_id"), pid.hex() if pid else None, "payment id", line=line)
        c.ok(not set(p) - {"do_not_relay", "account_index", "subaddr_indices", "unlock_time", "priority", "ring_size", "payment_id", "get_tx_keys", "get_tx_key", "get_tx_hex", "get_tx_metadata"}, "unknown parameters", params=p)
        data, st["sel"], st["kis"] = make_set(c, lst, priv, with_tds)
        return {"result": {"amount_list": [sum(d.amount for d in q.dests) for q in lst], "fee_list": [q.fee for q in lst], "tx_hash_list": [], "unsigned_txset": data.hex()}}

    with_tds = rng.random() < (0.75 if len(lst) == 1 else 0.5)

    def on_submit(p):
        st["submitted"] = p
        return {"result": {"tx_hash_list": ["00" * 32] * len(lst)}} if submit_ok else {"error": {"code": -1}}

    submit_ok = rng.random() < 0.8

    def script(h):
        c.eq(bytes(h.address), cli.address(*w.addr(acc, 0), sub=acc != 0), "address of the account", account=acc)
        h.do_transfer(line)

    with setup(c, w, script, answers, stop != "device", account=acc) as x:
        x.rpc.handlers = {"transfer_split": on_transfer, "submit_transfer": on_submit}
        go(x)
        c.ok(x.cli.err is None, "agent asked more than it should or ended", error=repr(x.cli.err), asked=x.cli.user.asked)
        out = x.cli.out.getvalue()
        n = [m for m, _ in x.rpc.calls()]
        signed = "tsx_sign" in x.wire.methods()
        c.eq(x.cli.user.answers, [], "prompts left out", asked=x.cli.user.asked, stop=stop, out=out[-600:], case=[gen.describe(q) for q in lst])
        c.eq(x.rpc.bad_auth, 0, "wrong credentials sent to the wallet RPC")
        no_secrets(c, x, w)
        if stop in ("user1", "quit1"):
            c.eq((n, signed, files(x.dir)), ([], False, []), "something happened though the user refused the transfer")
        elif stop in ("user2", "quit2"):
            c.eq((n, signed, files(x.dir)), (["transfer_split"], False, []), "something happened though the user refused the prepared transfer")
        elif stop == "device":
            c.eq((n, files(x.dir)), (["transfer_split"], []), "something happened though the device refused")
        else:
            c.eq(n, ["transfer_split"] + ([] if stop == "user3" else ["submit_transfer"]), "requests to the wallet", stop=stop)
            data = open("signed_monero_tx", "rb").read()
            if stop != "user3":
                c.eq(set(st["submitted"]), {"tx_data_hex"}, "parameters of the submission")
                c.eq(st["submitted"]["tx_data_hex"], data.hex(), "submitted data")
                c.eq("SUCCESS" in out, submit_ok, "reported outcome of the submission")
            blobs = judge_signed(c, x, lst, st["sel"], st["kis"], data)
            judge_files(c, x, lst, st["sel"], blobs, data)
            c.count("transfers_signed")
            for q in lst:
                c.distinct(gen.shape_key(q), with_tds)
        for d in dests:
            c.ok(dst_addr(d) in out, "a destination was not shown to the user before asking")
        if "transfer_split" in n:
            amounts_shown(c, out, [(sum(d.amount for d in q.dests), q.fee) for q in lst])
        c.distinct("transfer", stop, bool(idx), prio, bool(ring), len(pid), len(lst), len(dests), acc)
        c.count("stop:" + stop)


def fam_sweep(c):
    from monero_glue.xmr import crypto

    rng = c.rng
    w = gen.W(rng)
    acc = rng.choice([0, 0, 1])
    kind = rng.choice(["all", "below", "single", "dust"])
    s = gen.scenario(rng, wallet=w, cheap=True, account=acc, n_in=rng.choice([1, 2]), n_out=2, ring=2, change="sweep", shape=["std"] if rng.random() < 0.6 else ["sub"], pid=rng.choice([b"", b"", None]))
    d = s.dests[0]
    stop = rng.choice(STOPS)
    if kind == "dust":
        stop = rng.choice(["none", "user1", "device"])
    answers = stop_answers(stop, 1 if kind == "dust" else 2)
    if stop in ("user3",):
        stop = "none"
    priv = crypto.decodeint(ed.scenc(w.a))
    idx = rng.choice([None, [0], [3, 1]]) if kind in ("all", "below") else None
    prio = rng.choice([None] + PRIO)
    ring = rng.choice([None, 11, 2])
    thr = rng.randrange(1, 1 << 62)
    ki = gen.rb(rng, 32)
    pid = s.pid if s.pid and not s.integrated else b""
    parts = [render(rng, thr)] if kind == "below" else []
    parts += (["index=" + ",".join(map(str, idx))] if idx else []) + ([prio] if prio else []) + ([str(ring)] if ring else [])
    if kind == "single":
        parts.append(ki.hex())
    parts.append(dst_addr(d))
    if pid:
        parts.append(pid.hex())
    line = " ".join(parts) if kind != "dust" else ""
    if s.integrated and kind != "dust":
        # sweeping to an integrated address: the agent has no destination list to tell the device, judge the request only
        answers = stop_answers("user1", 1)
        stop = "user1"
    elif s.integrated:
        answers = stop_answers("user1", 1)
        stop = "skip"
    st = {}

    def on_sweep(p):
        st["n"] = st.get("n", 0) + 1
        p = dict(p)
        c.eq(p.get("do_not_relay"), True, "the wallet is told not to relay")
        if kind != "dust":
            exp = {"do_not_relay": True, "address": dst_addr(d)}
            if prio:
                exp["priority"] = PRIO.index(prio)
            if ring:
                exp["ring_size"] = ring
            if pid:
                exp["payment_id"] = pid.hex()
            if kind == "below":
                exp["below_amount"] = thr
            if kind == "single":
                exp["key_image"] = ki.hex()
            else:
                exp["account_index"] = acc
                exp["subaddr_indices"] = idx or []
            c.eq(p, exp, "what the wallet was asked to sweep", line=line, kind=kind)
        data, st["sel"], st["kis"] = make_set(c, [s], priv, True)
        r = {"amount": d.amount, "fee": s.fee} if kind == "single" else {"amount_list": [d.amount], "fee_list": [s.fee]}
        r["unsigned_txset"] = data.hex()
        return {"result": r}

    def on_submit(p):
        st["submitted"] = p
        return {"result": {"tx_hash_list": ["00" * 32]}}

    def script(h):
        getattr(h, "do_sweep_" + kind)(line)

    if stop == "skip":
        return
    method = {"all": "sweep_all", "below": "sweep_all", "single": "sweep_single", "dust": "sweep_dust"}[kind]
    with setup(c, w, script, answers, stop != "device", account=acc) as x:
        x.rpc.handlers = {method: on_sweep, "submit_transfer": on_submit}
        go(x)
        c.ok(x.cli.err is None, "agent asked more than it should or ended", error=repr(x.cli.err), asked=x.cli.user.asked)
        n = [m for m, _ in x.rpc.calls()]
        signed = "tsx_sign" in x.wire.methods()
        no_secrets(c, x, w)
        if kind != "dust" and method in n:
            amounts_shown(c, x.cli.out.getvalue(), [(d.amount, s.fee)])
        if kind != "dust" and stop in ("user1", "quit1"):
            c.eq((n, signed, files(x.dir)), ([method], False, []), "something happened though the user refused the sweep")
        elif stop == "device":
            c.eq((n, files(x.dir)), ([method], []), "something happened though the device refused")
        else:
            no_submit = stop in ("user2", "quit2") or (kind == "dust" and stop == "user1")
            c.eq(n, [method] + ([] if no_submit else ["submit_transfer"]), "requests to the wallet", stop=stop, kind=kind)
            data = open("signed_monero_tx", "rb").read()
            if not no_submit:
                c.eq(st["submitted"], {"tx_data_hex": data.hex()}, "submitted data")
            blobs = judge_signed(c, x, [s], st["sel"], st["kis"], data)
            judge_files(c, x, [s], st["sel"], blobs, data)
            c.count("sweeps_signed")
        c.distinct("sweep", kind, stop, bool(idx), prio, bool(ring), len(pid), acc)
        c.count("stop:" + stop)


# -- command grammar --------------------------------------------------------------------------------


def ref_amount(t):
    """atomic units, or None when it is no amount a wallet can send exactly"""
    try:
        v = Decimal(t) if len(t) < 60 else None
    except Exception:
        return None
    if v is None or not v.is_finite() or v < 0 or v.adjusted() > 30:
        return None
    n, dgt = 0, v.as_tuple()
    n = int("".join(map(str, dgt.digits)))
    e = dgt.exponent + 12
    if e >= 0:
        n *= 10**e
    elif n % 10 ** (-e):
        return None
    else:
        n //= 10 ** (-e)
    return n if n < 1 << 64 else None


def valid_addr(a):
    r = b58m.addr_decode(a.encode()) if a.isascii() else None
    return r


BAD_AMOUNTS = ["-1", "nan", "inf", "1e-13", "0.0000000000001", "18446744.073709551616", "18446744.1", "1e30", "abc", "0x10", "1,5", "-0.000000000001", "1.0000000000005", "99999999999999", "Infinity", "--1"]


def fam_grammar(c):
    """one agent, many lines: what reaches the wallet is what the line says, or nothing"""
    rng = c.rng
    w = gen.W(rng)
    others = [gen.W(rng) for _ in range(2)]
    got = []

    def spy(p):
        got.append(p)
        return {"error": {"code": -4, "message": "not enough money"}}

    def addr():
        o = rng.choice(others)
        k = rng.randrange(4)
        if k == 0:
            return cli.address(*o.addr(0, rng.randrange(1, 9)), sub=True).decode(), None
        if k == 1:
            p = gen.rb(rng, 8)
            return cli.address(*o.addr(), pid=p).decode(), p
        return cli.address(*o.addr()).decode(), None

    def amount():
        k = rng.randrange(6)
        if k == 0:
            return rng.choice(BAD_AMOUNTS)
        if k == 1:
            return "%d.%0*d" % (rng.choice([0, 1, 12, 18446744]), rng.randrange(1, 15), rng.randrange(100))
        a = rng.choice([rng.getrandbits(64), rng.randrange(10**13), rng.randrange(1, 1000) * 10**10, (1 << 64) - 1, 1, (1 << 53) + 1])
        return render(rng, a)

    cases = []
    for _ in range(40):
        idx = rng.choice([None, None, [0], [5, 6]])
        prio = rng.choice([None, None] + PRIO)
        ring = rng.choice([None, None, 3, 16])
        n = rng.choice([1, 1, 2, 3, 16])
        ds = [(addr(), amount()) for _ in range(n)]
        pid = rng.choice([None, None, None, gen.rb(rng, 8), gen.rb(rng, 32)])
        head = (["index=" + ",".join(map(str, idx))] if idx else []) + ([prio] if prio else []) + ([str(ring)] if ring else [])
        body = [t for (a, _), v in ds for t in (a, v)]
        tail = [pid.hex()] if pid else []
        bad = None
        k = rng.randrange(10)
        if any(ref_amount(v) is None for _, v in ds):
            bad = "amount"
        if pid and any(p for (_, p), _ in ds):
            bad = "integrated and payment id"
        if k == 0:
            tail += [rng.choice(["x", "1", others[0].a and dst_addr(gen.Dst("std", others[0], 0, 0, 1)), "priority", pid.hex() if pid else "y"])]
            bad = "extra"
        elif k == 1:
            i = rng.randrange(len(body))
            del body[i]
            bad = "missing"
        elif k == 2:
            i = rng.randrange(n) * 2
            a = list(body[i])
            j = rng.randrange(len(a))
            a[j] = rng.choice([ch for ch in "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz0OIl" if ch != a[j]])
            body[i] = "".join(a)
            bad = "address"
        elif k == 3 and pid:
            tail = [rng.choice([pid.hex()[:-1], pid.hex() + "0", "zz" + pid.hex()[2:], pid.hex()[:-2]])]
            bad = "payment id"
        elif k == 4:
            # a payment id in front of another destination
            body = body[:2] + [gen.rb(rng, rng.choice([8, 32])).hex()] + body[2:]
            tail = []
            if n == 1:
                continue
            bad = "misplaced payment id"
        if any(t == "" for t in body):
            bad = "missing"
        cases.append((" ".join(t for t in head + body + tail), idx, prio, ring, ds, pid, bad))

    def script(h):
        for line, idx, prio, ring, ds, pid, bad in cases:
            del got[:]
            x.cli.user.answers = ["y", "y"]
            err = None
            try:
                h.do_transfer(line)
            except Violation:
                raise
            except Exception as e:
                err = e
            failed(x)
            c.observed += 1
            c.distinct("line", bad, bool(idx), prio, bool(ring), min(len(ds), 3), len(pid or b""))
            if bad:
                c.ok(not got, "a line that cannot be understood reached the wallet", line=line, defect=bad, request=got)
                c.ok(err is not None, "a line that cannot be understood was passed over silently", line=line, defect=bad)
                c.count("refused:" + bad)
                continue
            c.eq(len(got), 1, "a well-formed line did not reach the wallet", line=line, error=repr(err))
            p = got[0]
            c.eq(p["destinations"], [{"amount": ref_amount(v), "address": a} for (a, _), v in ds], "destinations", line=line)
            c.eq((p.get("subaddr_indices"), p.get("priority"), p.get("ring_size"), p.get("payment_id")), (idx or [], PRIO.index(prio) if prio else None, ring, pid.hex() if pid else None), "options", line=line)
            c.count("accepted")
        c.ok("tsx_sign" not in x.wire.methods(), "a refused transfer reached the device")

    with setup(c, w, script) as x:
        x.rpc.handlers = {"transfer_split": spy}
        go(x)
        c.ok(x.cli.err is None, "agent ended", error=repr(x.cli.err))
        c.eq(files(x.dir), [], "files written by refused transfers")


def fam_device(c):
    """the wrong device, no device, a device that fails"""
    rng = c.rng
    w = gen.W(rng)
    other = gen.W(rng)
    mode = rng.choice(["other device", "no device", "good", "failure"])
    cmds = ["do_check_trezor", "do_transfer", "do_sign", "do_key_image_sync"]
    line = "%s 1" % cli.address(*other.addr()).decode()
    seen = []

    def script(h):
        if mode == "other device":
            x.wire.addr_of = rng.choice([lambda a, m: cli.address(*other.addr()), lambda a, m: cli.address(*w.addr(0, 1), sub=True), lambda a, m: cli.address(*w.addr(), net="main"), lambda a, m: None])
        elif mode == "failure":
            async def call(msg):
                from monero_glue import messages as M

                return M.Failure(code=99, message="no")

            x.wire.peer["call"] = call
        elif mode == "no device":
            async def gone(*a, **k):
                raise IOError("unplugged")

            x.wire.ping = gone
            x.wire.peer = {k: gone for k in list(x.wire.METHODS) + ["call", "call_in_session"]}
        open("unsigned", "wb").write(b"Monero unsigned tx set\x04" + bytes(200))
        for cmd in cmds:
            x.cli.user.answers = ["y", "y", "y"]
            try:
                getattr(h, cmd)(line if cmd == "do_transfer" else "unsigned")
                seen.append((cmd, None))
            except Exception as e:
                seen.append((cmd, e))
        c.count("mode:" + mode)

    with setup(c, w, script) as x:
        x.rpc.handlers = {}
        go(x)
        if mode == "good":
            c.ok(dict(seen)["do_check_trezor"] is None, "the right device is refused", error=repr(seen[0][1]))
            c.eq([m for m, _ in x.rpc.calls()][:1], ["transfer_split"], "the right device is used")
        else:
            for cmd, e in seen:
                c.ok(e is not None, "command went on without the right device", command=cmd, mode=mode)
            c.eq(x.rpc.calls(), [], "requests to the wallet without the right device", mode=mode)
        c.ok("tsx_sign" not in x.wire.methods() and "key_image_sync" not in x.wire.methods(), "device asked for signatures", mode=mode)
        c.distinct("device", mode)


def fam_kisync(c):
    from monero_glue.xmr import crypto, wallet

    rng = c.rng
    w, other = gen.W(rng), gen.W(rng)
    k = kis.KI(c, w, rng.choice([1, 1, 2, 5, 11, 23]))
    mode = rng.choice(["own", "own", "foreign keys", "foreign spend", "foreign view", "device refuses", "corrupt"])
    a, b = crypto.decodeint(ed.scenc(w.a)), crypto.decodeint(ed.scenc(w.b))
    tds = transfers(rng, w, len(k.outs), 10)
    for td, o in zip(tds, k.outs):
        fresh = kis.transfer(rng, o)
        td.m_tx, td.m_internal_output_index, td.m_subaddr_index = fresh.m_tx, fresh.m_internal_output_index, fresh.m_subaddr_index
        td.m_pk_index, td.m_amount, td.m_rct = 0, o.amount, True
    if mode == "foreign keys":
        f = export_as(w, other.B, other.A, tds)
    elif mode == "foreign spend":
        f = export_as(w, other.B, w.A, tds)
    elif mode == "foreign view":
        f = export_as(w, w.B, other.A, tds)
    else:
        f = bytes(hrun(wallet.save_exported_outputs(b, a, tds)))
    if mode == "corrupt":
        i = rng.randrange(40, len(f))
        f = f[:i] + bytes([f[i] ^ 4]) + f[i + 1 :]
    st = {}
    spent = rng.getrandbits(60)

    def on_import(p):
        st["imp"] = p
        return {"result": {"height": 123, "spent": spent, "unspent": 5}}

    err = []

    def script(h):
        try:
            h.do_key_image_sync("")
        except Exception as e:
            err.append(e)

    with setup(c, w, script, [], mode != "device refuses") as x:
        x.rpc.handlers = {"export_outputs": lambda p: {"result": {"outputs_data_hex": f.hex()}}, "import_key_images": on_import}
        go(x)
        c.ok(x.cli.err is None, "agent ended", error=repr(x.cli.err))
        n = [m for m, _ in x.rpc.calls()]
        c.distinct("kisync", mode, len(k.outs))
        c.count("kisync:" + mode)
        if mode == "own":
            c.ok(not err, "key image sync failed", error=repr(err))
            c.eq(n, ["export_outputs", "import_key_images"], "requests to the wallet")
            res = []
            for e in st["imp"]["signed_key_images"]:
                c.eq(set(e), {"key_image", "signature"}, "entry of the import request")
                sg = bytes.fromhex(e["signature"])
                res.append((bytes.fromhex(e["key_image"]), sg[:32], sg[32:]))
            k.check(c, res)
        else:
            c.eq(n, ["export_outputs"], "key images were imported though they should not", mode=mode)
            if mode != "device refuses":
                c.ok("key_image_sync" not in x.wire.methods(), "device asked for key images of another wallet's outputs", mode=mode)


def export_as(w, B, A, tds):
    """exported outputs under w's view key, naming other public keys"""
    from monero_glue.xmr import crypto, wallet
    from monero_glue.xmr.enc import chacha

    a = crypto.decodeint(ed.scenc(w.a))
    f = bytes(hrun(wallet.save_exported_outputs(crypto.decodeint(ed.scenc(w.b)), a, tds)))
    m = len(wallet.OUTPUTS_PREFIX)
    plain = bytes(chacha.decrypt_xmr(a, f[m:], authenticated=True))
    return f[:m] + bytes(chacha.encrypt_xmr(a, ed.enc(B) + ed.enc(A) + plain[64:], authenticated=True))


# -- accounts ---------------------------------------------------------------------------------------


def bin_dir(d):
    """a directory with a stand-in monero-wallet-rpc"""
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "monero-wallet-rpc")
    with open(p, "w") as fh:
        fh.write("#!/bin/sh\nexit 0\n")
    os.chmod(p, 0o700)
    return d


def strings_in(b):
    return b


def daemon_chain(rng):
    """a chain without time going backwards, and the height of its first block at or after a time"""
    n = rng.choice([2000, 5000, 100000, 2500000, rng.randrange(1500, 3000000)])
    t0 = rng.randrange(1397818193, 1600000000)
    kind = rng.choice(["even", "slow start", "stalled", "equal"])
    step = rng.choice([1, 60, 120, 120])
    cut, gap = rng.randrange(n), rng.randrange(86400 * 40)

    def time(h):
        if kind == "slow start":
            return t0 + step * h + 60 * min(h, cut)
        if kind == "stalled":
            return t0 + step * h + (gap if h >= cut else 0)
        if kind == "equal":
            return t0 + step * (h // 7 * 7)
        return t0 + step * h

    def first(ts):
        lo, hi = 0, n
        while lo < hi:
            m = (lo + hi) // 2
            if time(m) >= ts:
                hi = m
            else:
                lo = m + 1
        return lo

    return Daemon(n, time), first


def some_day(rng, d):
    """a date the chain covers"""
    a, b = d.time(0), d.time(d.count - 1)
    t = rng.choice([a, a + 86400 * rng.randrange(1, 4), b, b - 86400, rng.randrange(a, b + 1), rng.randrange(a, b + 1)])
    return datetime.datetime.fromtimestamp(min(max(t, a), b), datetime.timezone.utc)


def restore_range(d, first, day):
    """heights a wallet used since that day may be scanned from: nothing of it left out, not (almost) everything scanned"""
    ts = int(datetime.datetime(day.year, day.month, day.day, tzinfo=datetime.timezone.utc).timestamp())
    f = first(ts)
    return min(f, max(0, f - 1500), first(ts - 86400 * 2 - 1)), f


def fam_restore(c):
    """restore height from a date"""
    from monero_glue.xmr import daemon_rpc, wallet

    rng = c.rng
    d, first = daemon_chain(rng)
    with d:
        wl = wallet.Wallet(daemon_rpc.DaemonRpc(d.port))
        c.eq(hrun(wl.get_height()), d.count, "height of the chain")
        for _ in range(4):
            day = some_day(rng, d)
            low, high = restore_range(d, first, day)
            h = hrun(wl.get_blockchain_height_by_date(day.year, day.month, day.day))
            c.ok(h <= high, "blocks of the day are left out of the scan", day=str(day), got=h, first=high, count=d.count)
            c.ok(h >= low, "restore height is far before the day", day=str(day), got=h, allowed=low, count=d.count)
            c.count("restore_heights")
        last = datetime.datetime.fromtimestamp(d.time(d.count - 1), datetime.timezone.utc) + datetime.timedelta(days=rng.choice([1, 2, 400]))
        c.refused(lambda: hrun(wl.get_blockchain_height_by_date(last.year, last.month, last.day)), "a date after the last block accepted")
        c.eq(d.bad, [], "malformed requests to the daemon")
        c.distinct("restore", d.count > 2e6, len(d.asked) // 8)


def fam_account(c):
    from monero_glue.xmr import wallet

    rng = c.rng
    w, other = gen.W(rng), gen.W(rng)
    pw = "".join(rng.choice(["a", "Z", "0", "é", " ", '"', "\\", "$", "ž"]) for _ in range(rng.choice([0, 1, 8, 20])))
    height = rng.choice(["0", "", str(rng.randrange(1 << 30)), "-", "date"])
    src = rng.choice(["device", "device", "args"])
    d, first = daemon_chain(rng)
    with d:
        _account(c, w, other, pw, height, src, d, first)


def _account(c, w, other, pw, height, src, d, first):
    from monero_glue.xmr import wallet

    rng = c.rng
    opts = ["--account-file", "acc.json", "--watch-wallet", "ww", "--monero-bin", "bin", "--rpc-addr", "127.0.0.1:%d" % d.port]
    low = high = None
    if height == "date":
        day = some_day(rng, d)
        height = "%d-%s-%s" % (day.year, rng.choice(["%d", "%02d"]) % day.month, rng.choice(["%d", "%02d"]) % day.day)
        low, high = restore_range(d, first, day)
    elif height == "-":
        low = high = d.count
    else:
        low = high = int(height or 0)
    with setup(c, w, lambda h: None, [height, "y"], creds=src == "args", opts=opts) as x:
        if height != "" and rng.random() < 0.3:
            x.cli.user.answers = ["junk", str(rng.randrange(99)), "n"] + [height, "y"]
        bin_dir("bin")
        x.cli.user.passwords = [pw + "x", pw, pw, pw] if rng.random() < 0.3 else [pw, pw]
        go(x)
        c.ok(x.cli.err is None, "account could not be created", error=repr(x.cli.err), asked=x.cli.user.asked)
        c.eq(set(files(".")), {"acc.json", "bin", "ww.keys"}, "files of a new account")
        c.eq((x.cli.user.passwords, x.cli.user.answers), ([], []), "questions left out", asked=x.cli.user.asked)
        raw = open("acc.json", "rb").read()
        js = json.loads(raw)
        sec = [ed.scenc(w.a), ed.scenc(w.a).hex().encode()]
        kf = open("ww.keys", "rb").read()
        c.ok(not any(q in raw or q in kf for q in sec), "view key stored in the clear")
        if pw and len(pw) > 6:
            c.ok(pw.encode() not in raw and pw.encode() not in kf, "password stored in the clear")
        c.eq(js["address"], cli.address(*w.addr()).decode(), "address in the account file")
        from monero_glue.xmr import crypto

        key = bytes(crypto.pbkdf2(pw.encode(), bytes.fromhex(js["wallet_salt"]), count=2048))
        c.eq(refdev.unpack(key, bytes.fromhex(js["view_key_enc"])), ed.scenc(w.a), "view key in the account file")
        c.ok(len(bytes.fromhex(js["wallet_salt"])) >= 16, "salt of the account file")
        kd = hrun(wallet.load_keys_file("ww.keys", pw.encode()))
        mk = kd["key_data"]["m_keys"]
        c.eq(bytes(mk["m_view_secret_key"]), ed.scenc(w.a), "view key in the watch wallet")
        c.eq(bytes(mk["m_spend_secret_key"]), bytes(32), "a watch wallet holds no spend key")
        c.eq((bytes(mk["m_account_address"]["m_spend_public_key"]), bytes(mk["m_account_address"]["m_view_public_key"])), w.addr(), "address in the watch wallet")
        c.eq(kd["watch_only"], 1, "flags of the watch wallet")
        c.ok(low <= kd["refresh_height"] <= high, "restore height of the watch wallet", typed=height, got=kd["refresh_height"], allowed=(low, high))
        c.count("accounts_created")
        c.distinct("account", src, len(pw), height in ("", "0", "-") and height, "-" in height)

        # opening it again
        def again(pw2, edit=None, script=None, keep=True):
            f = dict(js)
            if edit:
                edit(f)
            json.dump(f, open("acc2.json", "w"))
            k = cli.Cli(x.wire, ["--rpc-addr", "127.0.0.1:1", "--rpc-wallet", "127.0.0.1:1", "--account-file", "acc2.json"], script)
            k.user.passwords = [pw2]
            try:
                k.run()
            except Exception as e:
                k.err = e
            c.ok(not k.user.passwords or k.err is not None, "the password was not asked")
            return k

        seen = {}

        def look(h):
            seen["addr"] = bytes(h.address)
            seen["view"] = h.priv_view
            seen["net"] = h.network_type
            seen["spend"] = h.pub_spend

        k = again(pw, None, look)
        c.ok(k.err is None, "account cannot be opened again", error=repr(k.err))
        c.eq((seen.get("addr"), bytes(crypto.encodeint(seen["view"])), bytes(crypto.encodepoint(seen["spend"]))), (cli.address(*w.addr()), ed.scenc(w.a), w.addr()[0]), "account opened again")
        c.eq(seen["net"], 1, "network of the account opened again")
        c.eq(open("ww.keys", "rb").read(), kf, "watch wallet was rewritten")

        def refused(what, pw2, edit=None):
            seen.clear()
            k = again(pw2, edit, look)
            c.ok(k.err is not None and not seen, "account opened though it should be refused", what=what)
            c.eq(open("ww.keys", "rb").read(), kf, "watch wallet was rewritten", what=what)
            c.count("refused")
            c.distinct("refuse", what)

        refused("password", pw + "1")
        refused("password", pw[:-1] if pw else "q")
        flip = lambda h, i: h[:i] + "%x" % (int(h[i], 16) ^ 1 << rng.randrange(4)) + h[i + 1 :]
        n = len(js["view_key_enc"])
        for i in (0, 25, rng.randrange(n), n - 1):
            refused("view key", pw, lambda f: f.update(view_key_enc=flip(f["view_key_enc"], i)))
        refused("salt", pw, lambda f: f.update(wallet_salt=flip(f["wallet_salt"], rng.randrange(64))))
        refused("address", pw, lambda f: f.update(address=cli.address(*other.addr()).decode()))
        refused("address view", pw, lambda f: f.update(address=cli.address(w.addr()[0], other.addr()[1]).decode()))
        a = js["address"]
        i = rng.randrange(3, len(a))
        refused("address checksum", pw, lambda f: f.update(address=a[:i] + ("2" if a[i] != "2" else "3") + a[i + 1 :]))


def fam_foreign(c):
    """a device or arguments whose view key and address do not belong together: nothing is created"""
    rng = c.rng
    w, other = gen.W(rng), gen.W(rng)
    mode = rng.choice(["device key", "device address", "device garbage", "device failure", "device gone", "args key", "args address", "keys file of another wallet"])
    opts = ["--account-file", "acc.json", "--watch-wallet", "ww", "--monero-bin", "bin"]
    if mode == "args key":
        opts += ["--view-key", ed.scenc(other.a).hex(), "--address", cli.address(*w.addr()).decode()]
    elif mode == "args address":
        opts += ["--view-key", ed.scenc(w.a).hex(), "--address", cli.address(w.addr()[0], other.addr()[1]).decode()]
    ran = []
    with setup(c, w, lambda h: ran.append(1), ["0", "y"], creds=False, opts=opts) as x:
        bin_dir("bin")

        async def watch(msg):
            from monero_glue import messages as M

            if mode == "device gone":
                raise IOError("unplugged")
            if mode == "device failure":
                return M.Failure(code=99, message="refused by the user")
            k, a = (other.a if mode == "device key" else w.a), (cli.address(w.addr()[0], other.addr()[1]) if mode == "device address" else cli.address(*w.addr()))
            if mode == "device garbage":
                a = a[:-1] + (b"2" if a[-1:] != b"2" else b"3")
            return M.MoneroWatchKey(watch_key=ed.scenc(k), address=a)

        x.wire.peer["get_view_key"] = watch
        if mode == "keys file of another wallet":
            from monero_glue.xmr import wallet
            from monero_serialize import xmrtypes as X
            import time

            kd = wallet.WalletKeyData()
            wd = wallet.WalletKeyFile()
            wd.key_data, wd.watch_only, wd.testnet, wd.refresh_height = kd, 1, True, 0
            kd.m_creation_timestamp = int(time.time())
            kd.m_keys = X.AccountKeys()
            kd.m_keys.m_account_address = X.AccountPublicAddress(m_spend_public_key=other.addr()[0], m_view_public_key=other.addr()[1])
            kd.m_keys.m_spend_secret_key, kd.m_keys.m_view_secret_key = bytes(32), ed.scenc(other.a)
            hrun(wallet.save_keys_file("ww.keys", b"pw", wd))
        before = {f: open(f, "rb").read() for f in files(".") if os.path.isfile(f)}
        x.cli.user.passwords = ["pw", "pw"]
        err = None
        try:
            x.cli.run()
            err = x.cli.err
        except Exception as e:
            err = e
        c.ok(err is not None, "agent went on with credentials that do not belong together", mode=mode)
        c.ok(not ran, "agent went on with credentials that do not belong together", mode=mode)
        c.eq({f: open(f, "rb").read() for f in files(".") if os.path.isfile(f)}, before, "files were created or changed", mode=mode)
        c.count("mode:" + mode)
        c.distinct("foreign", mode)


# -- starting the wallet RPC program ------------------------------------------------------------------

FAKE = """#!%s
import json, sys, os
json.dump(dict(argv=sys.argv, cwd=os.getcwd()), open(%r, "w"))
lines = []
for _ in range(2):
    lines.append(sys.stdin.readline())
json.dump(lines, open(%r, "w"))
print("2026-01-01 00:00:00.000 [x] INFO  Starting wallet RPC server", flush=True)
"""
ODD = [" ", "'", '"', "$(touch pwned)", "`touch pwned`", ";touch pwned;", "&", "|", ">out", "*", "~", "#", "!", "\\", "$HOME", "é", "-x", "(", "{a,b}", "?", "[0]", "%s"]


def fam_spawn(c):
    import time

    from monero_poc.utils import misc

    rng = c.rng
    for _ in range(60):
        t = "".join(rng.choice(ODD + ["a", "/", "b", "\n", "\t"]) for _ in range(rng.randrange(0, 7)))
        for v in (t, t.encode("utf8")):
            e = misc.escape_shell(v)
            c.ok(isinstance(e, str), "escaping gave nothing", text=t)
            c.eq(shlex.split(e), [t], "escaped text is not one word with the same content", text=t, escaped=e)
    # the shell itself, on text that can do no harm
    for _ in range(4):
        t = "".join(rng.choice(ODD + ["a", "b"]) for _ in range(4))
        with cli.scratch():
            p = subprocess.run("printf %s " + misc.escape_shell("x" + t), shell=True, stdout=subprocess.PIPE, env={"PATH": "/usr/bin:/bin", "HOME": "/nonexistent"})
            c.eq(p.stdout.decode(), "x" + t, "the shell saw another word", text=t)
            c.eq(files("."), [], "the shell ran something", text=t)
    w = gen.W(rng)
    name = lambda: "d" + "".join(rng.choice(ODD) for _ in range(rng.randrange(0, 4)))
    wf, bd = name(), name()
    pw = "".join(rng.choice("abc $'\"é") for _ in range(8))
    with cli.scratch() as d:
        os.makedirs(bd, exist_ok=True)
        p = os.path.join(bd, "monero-wallet-rpc")
        rec, inp = os.path.join(d, "rec.json"), os.path.join(d, "inp.json")
        with open(p, "w") as fh:
            fh.write(FAKE % (sys.executable, rec, inp))
        os.chmod(p, 0o700)
        before = set(files("."))
        up = []

        def script(h):
            t0 = time.time()
            while h.wallet_thread.is_alive() and time.time() - t0 < 60:
                time.sleep(0.02)
            h.wallet_thread.join(1)
            up.append((h.rpc_ready, h.rpc_running, h.wallet_proxy.creds, h.wallet_proxy.url))

        x = cli.Cli(cli.DevWire(dev.device(w), w), ["--testnet", "--view-key", ed.scenc(w.a).hex(), "--address", cli.address(*w.addr()).decode(), "--rpc-addr", "127.0.0.1:1", "--watch-wallet", wf, "--monero-bin", bd, "--account-file", "acc"], script)
        x.user.answers, x.user.passwords = ["0", "y"], [pw, pw]
        with slow_hash():
            x.run()
        c.ok(x.err is None, "agent did not start", error=repr(x.err), asked=x.user.asked)
        c.ok(os.path.exists(rec), "the wallet RPC program was not started", path=bd, out=x.out.getvalue()[-400:])
        c.eq(set(files(".")), before | {"rec.json", "inp.json", "acc", wf + ".keys"}, "files after the start", wallet=wf, path=bd)
        r = json.load(open(rec))
        c.eq(os.path.realpath(r["argv"][0]), os.path.realpath(p), "program started")
        av = r["argv"][1:]
        opt = {}
        i = 0
        while i < len(av):
            k, eq, v = av[i].partition("=")
            if not eq and i + 1 < len(av) and not av[i + 1].startswith("--"):
                i += 1
                v = av[i]
            opt[k] = v
            i += 1
        c.eq(opt.get("--wallet-file"), wf, "wallet the program opens", argv=av)
        c.eq(opt.get("--daemon-address"), "127.0.0.1:1", "daemon the program uses", argv=av)
        c.ok("--testnet" in opt, "network of the program", argv=av)
        c.ok("--disable-rpc-login" not in opt and opt.get("--rpc-login"), "RPC without login", argv=av)
        creds = up[0][2]
        c.eq(opt["--rpc-login"].split(":")[0], creds[0], "RPC user")
        flat = "\0".join(av)
        for q in (pw, creds[1], ed.scenc(w.a).hex()):
            c.ok(q not in flat, "a secret is visible on the command line")
        c.eq(json.load(open(inp)), [pw + "\n", creds[1] + "\n"], "passwords given to the program")
        c.ok(len(creds[1]) >= 12, "RPC password is short")
        c.ok("127.0.0.1:%s/" % opt.get("--rpc-bind-port") in up[0][3], "port of the RPC", url=up[0][3], argv=av)
        c.count("programs_started")
        c.distinct("spawn", wf, bd)


def fam_entropy(c):
    rng = c.rng
    w = gen.W(rng)
    size = rng.choice([1, 31, 32, 1000, 20000])

    def script(h):
        h.do_get_entropy("%d ent.bin" % size)
        for i in (1, 5, 0):
            h.set_account(i)
            c.eq(bytes(h.address), cli.address(*w.addr(i, 0), sub=i != 0), "address of an account", account=i)

    with setup(c, w, script) as x:
        x.cli.run()
        c.ok(x.cli.err is None, "agent ended")
        b = open("ent.bin", "rb").read()
        c.eq(b, b"".join(x.wire.entropy), "entropy written is what the device gave")
        c.ok(len(b) >= size, "less entropy than asked for")
        c.distinct("entropy", size)
        c.count("entropy_bytes", len(b))


def cli_address(w, acc=0):
    return cli.address(*w.addr(acc, 0), sub=acc != 0).decode()


def fam_console(c):
    """the commands that only look, with the wallet in every state"""
    rng = c.rng
    w = gen.W(rng)
    acc = rng.choice([0, 0, 1, 7])
    state = ["as started", "ready", "not ready", "not running", "stopped"][c.idx % 5]
    up = state in ("as started", "ready")
    pick = lambda: rng.choice([0, 1, rng.randrange(10**6), 4999999, 5000000, 10**12, 10**12 - 1, rng.randrange(1 << 50), rng.randrange(1 << 64), (1 << 64) - 1])
    bal, unl, height = pick(), pick(), rng.randrange(1 << 40)
    trs = {k: [{"txid": gen.rb(rng, 32).hex(), "amount": pick(), "payment_id": "0" * 16, "note": rng.choice(["", 'a "b"', "\u00e9\u4e2d"])} for _ in range(rng.randrange(3))] for k in ("in", "out", "pool")}
    res = {
        "getbalance": {"balance": bal, "unlocked_balance": unl},
        "getheight": {"height": height},
        "get_transfers": trs,
        "rescan_blockchain": {},
        "refresh": {"blocks_fetched": rng.randrange(99), "received_money": True},
    }
    cmds = [("balance", "getbalance"), ("height", "getheight"), ("get_transfers", "get_transfers"), ("rescan_bc", "rescan_blockchain"), ("refresh", "refresh")]
    sp = [d for d in (gen.W(rng).addr(),)][0]
    to = cli.address(*sp).decode()
    spend = [("transfer", "%s 1" % to), ("sweep_all", to), ("sweep_below", "1 %s" % to), ("sweep_single", "%s %s" % (gen.rb(rng, 32).hex(), to)), ("sweep_dust", ""), ("sign", "unsigned"), ("key_image_sync", "")]
    broken = set(m for _, m in cmds if rng.random() < 0.2)
    rng.shuffle(cmds)
    seen = []

    def handler(m):
        return lambda p: {"error": {"code": -1, "message": "busy"}} if m in broken else {"result": res[m]}

    def run(h, name, line=""):
        n_rpc, n_dev, n_out = len(x.rpc.log), len(x.wire.log), len(x.cli.out.getvalue())
        err = None
        try:
            getattr(h, "do_" + name)(line)
        except Exception as e:
            err = e
        seen.append((name, err, [(m, p) for _, m, p in x.rpc.log[n_rpc:]], x.wire.methods()[n_dev:], x.cli.out.getvalue()[n_out:]))
        return seen[-1]

    def script(h):
        if state != "as started":
            h.rpc_running, h.rpc_ready = state not in ("not running", "stopped"), state in ("ready", "stopped")
        h.set_account(acc)
        for name, m in cmds:
            _, err, rpc, dv, out = run(h, name)
            if not up:
                c.eq((rpc, dv), ([], []), "a command went through though the wallet is not there", command=name, state=state)
                continue
            c.eq([q for q, _ in rpc], [m], "requests of the command", command=name, state=state)
            c.eq(dv, [], "messages to the device", command=name)
            if name == "get_transfers":
                c.eq(rpc[0][1], {"in": True, "out": True, "pool": True}, "transfers asked for")
            else:
                c.ok(not rpc[0][1], "parameters of the request", command=name, params=rpc[0][1])
            nums = [Decimal(t) for t in re.findall(r"(?<![\w.])\d+(?:\.\d+)?(?![\w.])", out)]
            if m in broken:
                c.ok(name in ("get_transfers", "rescan_bc", "refresh") or not nums, "numbers shown though the wallet gave none", command=name, out=out)
            elif name == "balance":
                c.ok(len(nums) == 2, "balances shown", out=out)
                for got, exp in zip(nums, (bal, unl)):
                    e = Decimal(exp) / 10**12
                    c.ok(abs(got - e) <= Decimal("0.000006") + e / 10**15, "balance shown is not the wallet's", shown=str(got), wallet=exp)
            elif name == "height":
                c.eq(nums, [Decimal(height)], "height shown")
            else:
                c.eq(json.loads(out[out.index("{") :]).get("result"), res[m], "answer shown", command=name)
            c.count("answers_shown")
        # the address of the account and what only the device knows
        _, err, rpc, dv, out = run(h, "address")
        c.eq((out.strip(), rpc, dv), (cli_address(w, acc), [], []), "address shown")
        _, err, rpc, dv, out = run(h, "get_address")
        c.ok(err is None and cli_address(w, acc) in out.split() and rpc == [], "address of the device", error=repr(err), out=out)
        p = x.wire.pings
        _, err, rpc, dv, out = run(h, "ping")
        c.ok(err is None and x.wire.pings == p + 1 and rpc == [] and "pong" in out, "ping", error=repr(err), out=out)
        _, err, rpc, dv, out = run(h, "get_watch_only")
        c.ok(err is None and {ed.scenc(w.a).hex(), cli_address(w)} <= set(out.split()) and rpc == [], "view key and address of the device", error=repr(err))
        _, err, rpc, dv, out = run(h, "state")
        c.eq((rpc, dv), ([], []), "messages of the state command")
        out = out.lower()
        gone = state in ("not running", "stopped")
        c.eq(("not running" in out, "wallet: running" in out), (gone, not gone), "state shown", state=state, out=out)
        if not gone:
            c.eq("wallet: ready" in out, up, "readiness shown", state=state, out=out)
        if not up:
            open("unsigned", "wb").write(b"Monero unsigned tx set\x04" + bytes(200))
            for name, line in spend:
                x.cli.user.answers = ["y", "y", "y"]
                _, err, rpc, dv, out = run(h, name, line)
                c.eq((rpc, dv), ([], []), "a spending command went through though the wallet is not there", command=name, state=state)
                c.eq(len(x.cli.user.answers), 3, "the user was asked though the wallet is not there", command=name)
        else:
            for name, line in [(n, "") for n in ("sweep_all", "sweep_below", "sweep_single", "transfer")]:
                _, err, rpc, dv, out = run(h, name, line)
                c.eq((rpc, "tsx_sign" in dv), ([], False), "an empty command did something", command=name)

    with setup(c, w, script, account=acc, ready=None) as x:
        x.rpc.handlers = {m: handler(m) for m in res}
        go(x)
        c.ok(x.cli.err is None, "agent ended", error=repr(x.cli.err))
        c.eq([f for f in files(x.dir) if f != "unsigned"], [], "files written by commands that only look")
        no_secrets(c, x, w)
        c.distinct("console", state, acc, tuple(sorted(broken)))
        c.count("state:" + state)


def fam_faults(c):
    """a wallet that fails, or a device that refuses one of several transactions"""
    from monero_glue.xmr import crypto

    rng = c.rng
    w = gen.W(rng)
    cmd = ["transfer", "transfer", "sweep_all", "sweep_below", "sweep_single", "sweep_dust"][(c.idx + c.idx // 3 + c.idx // 16) % 6]
    fault = (["error", "no set", "empty set", "not hex", "garbage", "truncated", "flipped", "foreign", "refuse later", "refuse later", "no hashes", "no hashes", "no list", "null", "null result", "submit error"])[c.idx % 16]
    after = fault in ("no hashes", "no list", "null", "null result", "submit error")
    n_tx = rng.choice([2, 3]) if fault == "refuse later" else 1
    priv = crypto.decodeint(ed.scenc((w if fault != "foreign" else gen.W(rng)).a))
    one = lambda: gen.scenario(rng, wallet=w, cheap=True, account=0, n_in=1, n_out=2, ring=2, pid=b"", change=True if cmd == "transfer" else "sweep", shape=["std"])
    lst = [one() for _ in range(n_tx)]
    data, sel, kis_ = make_set(c, lst, priv, rng.random() < 0.7)
    if fault == "garbage":
        data = rng.randbytes(rng.choice([1, 30, 400]))
    elif fault == "truncated":
        data = data[: rng.randrange(1, len(data))]
    elif fault == "flipped":
        i = rng.randrange(len(data))
        data = data[:i] + bytes([data[i] ^ (1 << rng.randrange(8))]) + data[i + 1 :]
    hx = {"empty set": "", "not hex": "zz" * 40}.get(fault, data.hex())
    tot = [sum(d.amount for d in q.dests) for q in lst]
    r = {"amount": tot[0], "fee": lst[0].fee} if cmd == "sweep_single" else {"amount_list": tot, "fee_list": [q.fee for q in lst]}
    if fault != "no set":
        r["unsigned_txset"] = hx
    ans = {"error": {"code": -4, "message": "not enough money"}} if fault == "error" else {"result": r}
    sub = {"no hashes": {"result": {"tx_hash_list": []}}, "no list": {"result": {}}, "null": {"result": {"tx_hash_list": None}}, "null result": {"result": None}}.get(fault, {"error": {"code": -1, "message": "rejected"}})
    dests = [d for q in lst for d in q.dests]
    line = {
        "transfer": " ".join("%s %s" % (dst_addr(d), render(rng, d.amount)) for d in dests),
        "sweep_dust": "",
        "sweep_all": dst_addr(dests[0]),
        "sweep_below": "5 " + dst_addr(dests[0]),
        "sweep_single": gen.rb(rng, 32).hex() + " " + dst_addr(dests[0]),
    }[cmd]
    method = {"transfer": "transfer_split", "sweep_below": "sweep_all"}.get(cmd, cmd)
    k = rng.randrange(1, n_tx) if n_tx > 1 else -1
    asked, err = [], []

    def on(name, a, kw):
        if name == "confirm_transaction":
            x.dev.iface.answer = len(asked) != k
            asked.append(name)

    def script(h):
        x.dev.iface.on = on
        try:
            getattr(h, "do_" + cmd)(line)
        except Exception as e:
            err.append(e)

    with setup(c, w, script, ["y"] * 4) as x:
        # what an earlier run left behind
        old = {f: gen.rb(rng, 40) for f in ("signed_monero_tx", "transaction_00")} if c.idx % 2 else {}
        for f, b in old.items():
            open(f, "wb").write(b)
        kept = lambda: all(open(f, "rb").read() == b for f, b in old.items())
        x.rpc.handlers = {method: lambda p: ans, "submit_transfer": lambda p: sub}
        go(x)
        c.ok(x.cli.err is None, "agent ended", error=repr(x.cli.err))
        out = x.cli.out.getvalue()
        n = [m for m, _ in x.rpc.calls()]
        c.ok("SUCCESS" not in out, "success reported", fault=fault, command=cmd)
        no_secrets(c, x, w)
        if after:
            c.eq(n, [method, "submit_transfer"], "requests to the wallet", fault=fault, command=cmd, error=repr(err))
            got = open("signed_monero_tx", "rb").read()
            c.eq(x.rpc.calls()[1][1], {"tx_data_hex": got.hex()}, "submitted data")
            judge_files(c, x, lst, sel, judge_signed(c, x, lst, sel, kis_, got), got)
        else:
            c.eq(n, [method], "something was submitted", fault=fault, command=cmd)
            new = [f for f in files(x.dir) if f not in old]
            c.ok(kept() and "signed_monero_tx" not in new and not [f for f in new if re.fullmatch(r"transaction_\d\d", f)], "signed data written", fault=fault, command=cmd, files=files(x.dir))
            if fault == "refuse later":
                c.eq(len(asked), k + 1, "transactions asked of the device after a refusal")
                c.count("refused_later")
            else:
                c.eq((asked, new), ([], []), "device asked to sign though the wallet gave nothing to sign", fault=fault, command=cmd)
        c.distinct("fault", fault, cmd, n_tx, k)
        c.count("fault:" + fault)


def fam_signfile(c):
    """--sign FILE, and options the agent must refuse"""
    from monero_glue.xmr import crypto

    rng = c.rng
    w = gen.W(rng)
    mode = ["good", "refused", "missing", "foreign", "good", "flipped", "garbage", "option"][c.idx % 8]
    s, acc = pick_scenarios(c, w)
    lst = [s]
    priv = crypto.decodeint(ed.scenc((w if mode != "foreign" else gen.W(rng)).a))
    data, sel, kis_ = make_set(c, lst, priv, rng.random() < 0.7)
    if mode == "flipped":
        i = rng.randrange(len(data))
        data = data[:i] + bytes([data[i] ^ (1 << rng.randrange(8))]) + data[i + 1 :]
    elif mode == "garbage":
        data = rng.randbytes(rng.choice([0, 1, 30, 400]))
    name = rng.choice(["unsigned_monero_tx", "./a b.bin", "-x"][:2])
    opts = ["--sign", name]
    if mode == "option":
        opts += ["--rpc-addr", rng.choice(["127.0.0.1:18081;touch x", "$(touch x)", "a b", "127.0.0.1:port", "`id`", "::1 --x"])]
    started = []
    with setup(c, w, lambda h: started.append(1), answer_dev=mode != "refused", opts=opts) as x:
        if mode != "missing":
            open(name, "wb").write(data)
        old = gen.rb(rng, 40) if (c.idx // 8) % 2 or mode in ("refused", "foreign", "garbage") else None
        if old:
            open("signed_monero_tx", "wb").write(old)
        had = set(files(x.dir))
        try:
            rc = x.cli.run()
        except Exception as e:
            rc = e
        failed(x)
        new = set(files(x.dir)) - had
        c.eq((x.rpc.calls(), started), ([], []), "wallet or console used when only a file was to be signed", mode=mode)
        no_secrets(c, x, w)
        if mode == "good":
            c.ok(rc in (0, None), "a good file was not signed", result=repr(rc))
            os.unlink(name)
            got = open("signed_monero_tx", "rb").read()
            judge_files(c, x, lst, sel, judge_signed(c, x, lst, sel, kis_, got), got)
            c.count("files_signed")
        else:
            c.ok(rc not in (0, None), "failure reported as success", mode=mode, result=repr(rc))
            c.eq(new, set(), "files written", mode=mode)
            c.ok(not old or open("signed_monero_tx", "rb").read() == old, "the file of an earlier run changed", mode=mode)
            if mode != "refused":
                c.ok("tsx_sign" not in x.wire.methods(), "device asked to sign", mode=mode)
            if mode == "option":
                c.eq(x.wire.methods(), [], "device used with an option refused")
        c.distinct("signfile", mode, acc, name)
        c.count("signfile:" + mode)


FAMILIES = {
    "transfer": dict(fn=fam_transfer, quick={"tcry": 40, "py": 3}, thorough={"tcry": 400, "py": 12}, weight=4),
    "sweep": dict(fn=fam_sweep, quick={"tcry": 24, "py": 0}, thorough={"tcry": 240, "py": 8}, weight=3),
    "grammar": dict(fn=fam_grammar, quick=12, thorough=120, backends=("tcry",), weight=3),
    "device": dict(fn=fam_device, quick=12, thorough=60, backends=("tcry",), weight=1),
    "kisync": dict(fn=fam_kisync, quick={"tcry": 24, "py": 3}, thorough={"tcry": 200, "py": 8}, weight=2),
    "account": dict(fn=fam_account, quick=10, thorough=80, backends=("tcry",), weight=4),
    "restore": dict(fn=fam_restore, quick=12, thorough=200, backends=("tcry",), weight=1),
    "foreign": dict(fn=fam_foreign, quick=16, thorough=80, backends=("tcry",), weight=2),
    "spawn": dict(fn=fam_spawn, quick=8, thorough=60, backends=("tcry",), weight=3),
    "console": dict(fn=fam_console, quick=12, thorough=120, backends=("tcry",), weight=1),
    "faults": dict(fn=fam_faults, quick={"tcry": 48, "py": 0}, thorough={"tcry": 320, "py": 8}, weight=2),
    "signfile": dict(fn=fam_signfile, quick={"tcry": 16, "py": 0}, thorough={"tcry": 120, "py": 4}, weight=2),
    "entropy": dict(fn=fam_entropy, quick=4, thorough=20, backends=("tcry",), weight=1),
}
