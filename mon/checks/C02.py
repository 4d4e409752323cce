"""Recipients: every requested output is found, opened and spendable by its wallet."""

from .. import dev, gen
from ..ref import ed

RULE = (
    "random honest transfers signed by the real agent and device; every recipient wallet (reference implementation) scans the "
    "serialized transaction with its view key only, opens the commitment, derives the one-time secret, and decrypts the payment id. "
    "recipients sharing a key with the sender or its change address. distinct = different (destination kinds, zero amounts, subaddress/account/payment-id shape, version) tuples"
)
ASSUMPTIONS = ["independent reference implementation in mon/ref"]


def one(c, **kw):
    s = gen.scenario(c.rng, **kw)
    cfg = dev.pick_cfg(c.rng, len(s.outs))
    r = dev.sign(s, cfg)
    t = dev.rtx.parse(r.blob)
    dev.check_recipients(c, s, t)
    c.count("signed")
    c.count("payment_id_%d" % len(s.pid))
    c.count("additional_keys", int(any(k == 4 for k, _ in dev.rtx.parse_extra(t.extra))))
    c.distinct(gen.shape_key(s), cfg, [(d.kind, d.is_sub, d.major != 0) for d in s.outs])
    c.sample(dict(case=gen.describe(s), cfg=cfg, extra=t.extra))
    return s, t


def f_random(c):
    one(c, n_in=c.rng.choice([1, 1, 2]), ring=2)


SHAPES = [
    ["std"],
    ["sub"],
    ["self"],
    ["own_sub"],
    ["own_main"],
    ["std", "sub"],
    ["sub", "sub"],
    ["std", "std"],
    ["std", "self"],
    ["sub", "self"],
    ["own_sub", "own_main"],
    ["sub", "own_main"],
    ["sub", "sub", "sub"],
    ["std", "sub", "self"],
]


def f_shapes(c):
    """every destination mix x account x change mode, cyclically"""
    i = c.idx
    sh = SHAPES[i % len(SHAPES)]
    acc = [0, 3][(i // len(SHAPES)) % 2]
    change = [True, True, False][(i // 5) % 3]
    if len(sh) == 1:
        change = True if i % 2 or sh == ["self"] else "sweep"
    if len(sh) == 1 and change is False:
        change = True
    n_out = len(sh) + (1 if change else 0)
    pid = [b"", None, gen.rb(c.rng, 8), gen.rb(c.rng, 32)][i % 4]
    one(c, n_in=1, ring=2, shape=sh, account=acc, change=change, n_out=n_out, pid=pid)


def f_pid(c):
    """payment ids with every kind of single recipient"""
    k = [["std"], ["sub"], ["own_sub"], ["std"]][c.idx % 4]
    pid = [gen.rb(c.rng, 8), gen.rb(c.rng, 8), gen.rb(c.rng, 32), b"\0" * 8, b"\xff" * 8][c.idx % 5]
    one(c, n_in=1, ring=2, shape=k, n_out=2, change=[True, "sweep"][(c.idx // 4) % 2], pid=pid)


def f_same(c):
    """several outputs to one and the same address"""
    s = gen.scenario(c.rng, n_in=1, ring=2, n_out=c.rng.choice([3, 4]), change=True, pid=c.rng.choice([b"", gen.rb(c.rng, 32)]))
    d0 = s.dests[0]
    for d in s.dests[1:]:
        d.wallet, d.major, d.minor, d.kind = d0.wallet, d0.major, d0.minor, d0.kind
    cfg = dev.pick_cfg(c.rng, len(s.outs))
    r = dev.sign(s, cfg)
    dev.check_recipients(c, s, dev.rtx.parse(r.blob))
    c.distinct("same", gen.shape_key(s), cfg)
    c.sample(gen.describe(s))


def f_twin(c):
    """recipients that share one key with the sender, the change address or each other"""
    n = c.rng.choice([1, 1, 2, 3])
    acc = c.rng.choice([0, 0, 1])
    s = gen.scenario(
        c.rng, n_in=1, ring=2, n_out=n + 1, shape=[c.rng.choice(["std", "std", "sub"]) for _ in range(n)], account=acc, change=True, pid=c.rng.choice([b"", gen.rb(c.rng, 32)])
    )
    kinds = []
    d = s.dests[0]
    for k, d in enumerate(s.dests):
        how = ["spend", "view", "main-spend", "view-is-spend"][(c.idx + k) % 4]
        t = gen.W(c.rng)
        chg = s.change_dst
        if how == "spend" and acc == 0:
            t.b, t.B = s.w.b, s.w.B
        elif how == "main-spend":
            t.b, t.B = s.w.b, s.w.B
        elif how == "view":
            t.a, t.A = s.w.a, s.w.A
        elif how == "view-is-spend":
            t.a, t.A = s.w.b, s.w.B
        else:
            # spend key of the change subaddress as another wallet's main spend key
            t.b = s.w.sub_secret(chg.major, chg.minor)
            t.B = ed.mulb(t.b)
        d.wallet = t
        if d.kind == "int":
            d.kind = "std"
        kinds.append((how, d.is_sub))
    s.integrated = None
    if len(s.pid) == 8:
        s.pid = b""
    cfg = dev.pick_cfg(c.rng, len(s.outs))
    r = dev.sign(s, cfg)
    dev.check_recipients(c, s, dev.rtx.parse(r.blob))
    c.count("twins", n)
    c.distinct("twin", tuple(kinds), acc, cfg)


FAMILIES = {
    "random": dict(fn=f_random, quick=40, thorough=800, backends=("tcry",), weight=2),
    "shapes": dict(fn=f_shapes, quick={"tcry": 42, "py": 2}, thorough={"tcry": 420, "py": 42}, weight=3),
    "pid": dict(fn=f_pid, quick=20, thorough=300, backends=("tcry",), weight=2),
    "twin": dict(fn=f_twin, quick=12, thorough=150, backends=("tcry",), weight=3),
    "same": dict(fn=f_same, quick=6, thorough=80, backends=("tcry",), weight=4),
}
