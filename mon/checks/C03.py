"""Change goes only to the signing account."""

from .. import dev, gen, host

RULE = (
    "sessions of the real device with honest, odd and hostile change declarations (address of another wallet, another account, a subaddress, "
    "mixed keys; present in or missing from the outputs; zero, equal or different amounts; 1-4 outputs; several accounts). The verdict of the "
    "device is compared with the rule in the property; every completed transaction is checked with reference recipient wallets. "
    "distinct = different (change kind, presence, amount kind, outputs, account, version) tuples"
)
ASSUMPTIONS = ["independent reference implementation in mon/ref"]

KINDS = ["own", "own_other_account", "own_sub", "foreign", "own_spend_foreign_view", "foreign_spend_own_view", "main_of_account", "recipient"]


class Mixed:
    """Half-own address as a wallet-like object for Dst."""

    def __init__(self, spend, view):
        self.s, self.v = spend, view

    def addr(self, *a):
        return self.s, self.v


def change_wallet(c, s, kind):
    """(wallet-like, major, minor) of the declared change address"""
    w, acc = s.w, s.account
    f = gen.W(c.rng)
    if kind == "own":
        return w, acc, 0
    if kind == "own_other_account":
        return w, acc + 1, 0
    if kind == "own_sub":
        return w, acc, 1 + c.rng.randrange(4)
    if kind == "foreign":
        return f, 0, 0
    if kind == "own_spend_foreign_view":
        return Mixed(w.addr(acc, 0)[0], f.addr()[1]), 0, 0
    if kind == "foreign_spend_own_view":
        return Mixed(f.addr()[0], w.addr(acc, 0)[1]), 0, 0
    if kind == "main_of_account":
        return (w, 0, 0) if acc else (w, 1, 0)
    if kind == "recipient":
        d = s.dests[0]
        return d.wallet, d.major, d.minor
    raise ValueError(kind)


def f_declared(c):
    kind = KINDS[c.idx % len(KINDS)]
    acc = [0, 2, 0, 5][(c.idx // len(KINDS)) % 4]
    n_out = c.rng.choice([1, 2, 2, 2, 3, 3])
    present = c.rng.choice(["full", "full", "full", "zero", "missing", "twice", "other_amount"])
    amount = c.rng.choice(["match", "match", "zero", "nonzero"])
    s = gen.scenario(c.rng, n_in=1, ring=2, account=acc, change=True, n_out=max(2, n_out), pid=b"", shape=None, cheap=True)
    wal, ma, mi = change_wallet(c, s, kind)
    chg = s.change_dst
    chg.wallet, chg.major, chg.minor = wal, ma, mi
    tot = sum(d.amount for d in s.outs)
    declared = gen.Dst("change", wal, ma, mi, chg.amount)
    if present == "missing":
        s.outs.remove(chg)
        s.outs[0].amount += chg.amount
        if n_out > 1 and len(s.outs) == 1:
            s.outs.append(gen.Dst("std", gen.W(c.rng), 0, 0, 0))
    elif present == "zero":
        s.dests[0].amount += chg.amount
        chg.amount = 0
    elif present == "twice":
        a = chg.amount // 2
        chg.amount -= a
        s.outs.append(gen.Dst("change", wal, ma, mi, a))
    elif n_out == 1:
        # the only output is the change itself
        chg.amount = tot
        s.outs[:] = [chg]
        s.dests = []
    if present != "other_amount":
        declared.amount = chg.amount
    if amount == "zero":
        declared.amount = 0
    elif amount == "nonzero":
        declared.amount = max(1, declared.amount)
    elif present == "other_amount":
        declared.amount = chg.amount + c.rng.choice([1, 1000])
    assert sum(d.amount for d in s.outs) == tot
    s.change_dst = declared
    cfg = dev.pick_cfg(c.rng, len(s.outs))
    # reference rule
    coord = (declared.spend, declared.view)
    own = coord == s.w.addr(acc, 0)
    hits = [d for d in s.outs if (d.spend, d.view) == coord]
    sweep = declared.amount == 0 and len(s.outs) == 2 and not any(d.amount for d in hits)
    allowed = (own and bool(hits)) or sweep
    h = host.RawHost(s, cfg)
    done = True
    try:
        h.go()
    except host.Refused as e:
        done = False
        c.ok(not (own and hits), "honest change refused", why=str(e), case=gen.describe(s))
    key = (kind, present, amount, len(s.outs), acc, cfg)
    if done:
        c.ok(allowed, "transaction completed although the declared change is not the account's own or is missing",
             kind=kind, present=present, amount=amount, case=gen.describe(s))
        t = dev.check_consensus(c, s, h.blob(), cfg) if len(s.outs) > 1 else dev.rtx.parse(h.blob())
        # every value-carrying output to the declared change address must be the signer's
        if own:
            found = dev.scan(t, s.w, [(acc, 0), (0, 0)])
            for i, d in enumerate(s.outs):
                if (d.spend, d.view) == coord:
                    c.ok(i in found, "change output cannot be found by the signing wallet", output=i)
                    op = dev.open_output(t, i, found[i][1])
                    c.ok(op is not None and op[0] == d.amount, "change output does not open", output=i)
        c.count("completed")
    else:
        c.ok(not h.sigs and h.final is None, "refused session released a signature")
        c.eq(h.trace[-1][0][0] if not allowed and not sweep else "init", "init", "bad change was not refused at the start")
        c.count("refused")
    c.distinct(key, done)
    c.sample(dict(kind=kind, present=present, amount=amount, completed=done, case=gen.describe(s)))


def f_honest(c):
    """honest change, sweeps and change-less transfers are never refused"""
    s = gen.scenario(c.rng, n_in=c.rng.choice([1, 2]), ring=2, n_out=c.rng.choice([2, 2, 3]), change=[True, "sweep", False, True][c.idx % 4])
    cfg = dev.pick_cfg(c.rng, len(s.outs))
    h = host.RawHost(s, cfg)
    try:
        h.go()
    except host.Refused as e:
        c.fail("honest transfer refused: %s" % e, case=gen.describe(s))
    t = dev.check_consensus(c, s, h.blob(), cfg)
    dev.check_recipients(c, s, t)
    c.count("honest")
    c.distinct("honest", gen.shape_key(s), cfg)
    c.sample(gen.describe(s))


def f_address(c):
    """the device's idea of its own change address, for many accounts: only the opening message"""
    w = gen.W(c.rng)
    for _ in range(4):
        acc = c.rng.choice([0, 1, 2, c.rng.randrange(1 << 8), c.rng.randrange(1 << 31), (1 << 32) - 1])
        s = gen.scenario(c.rng, n_in=1, ring=2, n_out=2, account=acc, change=True, pid=b"", shape=["std"], wallet=w)
        for delta in (0, 1):
            s.change_dst.major = acc ^ delta
            h = host.RawHost(s, (1, 10))
            ok = h.step(("init",))
            c.eq(ok, not delta, "change at account %d offered for account %d" % (acc ^ delta, acc))
        c.distinct("addr", acc)
    c.sample(dict(accounts="up to 2^32-1"))


FAMILIES = {
    "declared": dict(fn=f_declared, quick={"tcry": 130, "py": 0}, thorough={"tcry": 2500, "py": 0}, weight=2),
    "honest": dict(fn=f_honest, quick={"tcry": 16, "py": 2}, thorough={"tcry": 200, "py": 30}, weight=4),
    "address": dict(fn=f_address, quick=6, thorough=60),
}
