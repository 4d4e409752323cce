"""Driving the real host agent against the real emulated device over a byte-exact wire."""

from . import gen
from .harness import Violation, run
from .ref import cn, ed, tx as rtx
from .ref.ed import L


def mods():
    from monero_glue.agent import agent_lite
    from monero_glue.hwtoken import iface, misc, token
    from monero_glue.xmr import crypto
    from monero_glue.xmr.sub.creds import AccountCreds
    from monero_glue.xmr.sub.xmr_net import NetworkTypes

    return agent_lite, token, iface, misc, crypto, AccountCreds, NetworkTypes


def creds_of(w, net=None):
    _, _, _, _, crypto, AccountCreds, NT = mods()
    return AccountCreds.new_wallet(
        crypto.decodeint(ed.scenc(w.a)), crypto.decodeint(ed.scenc(w.b)), NT.TESTNET if net is None else net
    )


def pb_dump(msg):
    from monero_glue.hwtoken import misc

    return run(misc.dump_pb_msg(msg))


def pb_load(raw, cls):
    from monero_glue.hwtoken import misc

    return run(misc.parse_pb_msg(bytes(raw), cls))


def is_failure(res):
    from monero_glue.messages import Failure

    return isinstance(res, Failure)


class Iface:
    """Recording user interface of the device."""

    def __new__(cls, *a, **k):
        from monero_glue.hwtoken import iface

        class Rec(iface.TokenInterface):
            def __init__(self, answer=True):
                super().__init__()
                self.answer = answer
                self.log = []
                self.on = None

            async def _ev(self, name, *a, **k):
                self.log.append((name, a, k))
                if self.on:
                    self.on(name, a, k)

            async def confirm_transaction(self, tsx_data, creds=None, ctx=None):
                await self._ev("confirm_transaction", pb_dump(tsx_data), tsx_data.__class__, creds)
                r = self.answer
                if isinstance(r, BaseException):
                    raise r
                return r

            async def confirm_ki_sync(self, init_msg, ctx=None):
                await self._ev("confirm_ki_sync", pb_dump(init_msg), init_msg.__class__)
                r = self.answer
                if isinstance(r, BaseException):
                    raise r
                return r

            async def transaction_error(self, *a, **k):
                await self._ev("transaction_error", *a)

            async def transaction_signed(self, ctx=None):
                await self._ev("transaction_signed")

            async def transaction_finished(self, ctx=None):
                await self._ev("transaction_finished")

            async def transaction_step(self, step, sub_step=None, sub_step_total=None):
                await self._ev("transaction_step", step, sub_step, sub_step_total)

            async def ki_error(self, e, ctx=None):
                await self._ev("ki_error", e)

            async def ki_step(self, i, ctx=None):
                await self._ev("ki_step", i)

            async def ki_finished(self, ctx=None):
                await self._ev("ki_finished")

        return Rec(*a, **k)


def device(w, answer=True, net=None):
    _, token, _, _, _, _, _ = mods()
    t = token.TokenLite()
    t.creds = creds_of(w, net)
    t.debug = False
    t.iface = Iface(answer)
    return t


class Pause:
    def __await__(self):
        yield "pause"


class Wire:
    """What the agent sees as the device: every message crosses as bytes."""

    METHODS = ("tsx_sign", "key_image_sync", "get_view_key", "get_tx_key", "live_refresh", "get_address")

    def __init__(self, dev):
        self.dev = dev
        self.log = []  # (method, request class, request bytes, response class, response bytes)
        self.req_hook = None  # f(i, method, msg) -> msg
        self.res_hook = None  # f(i, method, req, res) -> res
        self.pause = False
        self.peer = {}  # method -> async f(msg)
        self.n = 0
        self.cur = None  # exchange whose reply is on its way (with pause)

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)

        async def call(msg, *a, **k):
            return await self.exchange(name, msg)

        return call

    async def exchange(self, method, msg):
        i = self.n
        self.n += 1
        if self.pause:
            await Pause()
        if self.req_hook:
            msg = self.req_hook(i, method, msg)
        raw = pb_dump(msg)
        dmsg = pb_load(raw, msg.__class__)
        if method in self.peer:
            res = await self.peer[method](dmsg)
        else:
            res = await getattr(self.dev, method)(dmsg)
        rraw = pb_dump(res)
        out = pb_load(rraw, res.__class__)
        self.log.append((method, msg.__class__, raw, res.__class__, rraw))
        self.cur = (i, method, msg, out)
        if self.pause:
            await Pause()  # the driver may set res_hook here
        self.cur = None
        if self.res_hook:
            out = self.res_hook(i, method, msg, out)
        return out


CFGS = [(1, 10), (1, 9), (0, 9)]


def pick_cfg(rng, n_out):

    return rng.choice([(1, 10), (1, 10), (1, 10), (1, 9), (0, 9)])


def agent(wire, cfg=(1, 10), net=None):
    agent_lite, _, _, _, _, _, NT = mods()
    a = agent_lite.Agent(wire, network_type=NT.TESTNET if net is None else net)
    a.client_version, a.hf = cfg
    return a


def aux_for(s):
    """aux data naming the integrated destinations"""
    if not s.integrated:
        return None
    from monero_glue.agent import agent_lite
    from monero_glue.xmr.sub import addr

    aux = agent_lite.SignAuxData()
    aux.destinations = []
    for d in s.dests:
        ai = addr.AddrInfo()
        ai.spend_key, ai.view_key = d.spend, d.view
        ai.is_integrated = d.kind == "int"
        ai.is_sub_address = d.is_sub
        ai.payment_id = d.pid
        aux.destinations.append((ai, d.amount))
    return aux


class Signed:
    pass


def sign_coro(s, a):
    async def go():
        con = gen.construction(s)
        await a.sign_transaction_data(con, aux_data=aux_for(s))
        return await a.serialized_tx()

    return go()


def sign(s, cfg=(1, 10), dev=None, wire=None):
    """Signs the scenario with the real agent and device; returns Signed."""
    r = Signed()
    r.dev = dev or device(s.w)
    r.wire = wire or Wire(r.dev)
    r.agent = agent(r.wire, cfg)
    r.cfg = cfg
    r.blob = run(sign_coro(s, r.agent))
    r.ct = r.agent.last_transaction_data()
    return r


# ---------------------------------------------------------------------------------------------
# oracles


def check_consensus(c, s, blob, cfg):
    """Consensus-style verification against the toy chain. Returns the parsed transaction."""
    try:
        t = rtx.parse(blob)
    except rtx.Bad as e:
        raise Violation("serialized transaction does not parse: %s" % e, blob=blob)
    rings = []
    for v in t.vin:
        ring = s.chain.ring(v.key_offsets)
        c.ok(all(x is not None for x in ring), "ring offset does not resolve to the chosen outputs", offsets=v.key_offsets)
        rings.append(ring)
    rct = s.owned[0].rct
    if not rct:
        # pre-RingCT inputs carry their amount in the clear
        amts = {o.ki: o.amount for o in s.owned}
        for v in t.vin:
            c.eq(v.amount, amts.get(v.k_image), "clear input amount")
            v.amount = 0
    bad = rtx.verify(t, rings)
    c.ok(not bad, "transaction not consensus-valid: %s" % "; ".join(bad), cfg=cfg, case=gen.describe(s))
    c.eq(t.rct_type, 4 if cfg[1] >= 10 else 3, "signature type does not match the protocol version")
    c.eq(t.fee, s.fee, "fee in the transaction")
    c.eq(t.unlock_time, s.unlock, "unlock time in the transaction")
    c.eq(t.version, 2, "transaction version")
    # exactly the requested inputs, each ring exactly the requested one
    c.eq(
        sorted(v.k_image for v in t.vin),
        sorted(o.ki for o in s.owned),
        "key images are not those of the requested inputs",
    )
    by_ki = {o.ki: src for o, src in zip(s.owned, s.sources)}
    for v in t.vin:
        src = by_ki[v.k_image]
        ab, x = [], 0
        for o in v.key_offsets:
            x += o
            ab.append(x)
        c.eq(ab, [o[0] for o in src.outputs], "ring of an input differs from the requested one")
    return t


def scan(t, w, subs, add_ok=True):
    """Wallet-style scan of a parsed transaction: {output index: (subaddr index, shared scalar int,
    one-time secret)} using only the transaction and the wallet keys. subs: iterable of (major, minor)."""
    pubs = [v for k, v in rtx.parse_extra(t.extra) if k == 1]
    adds = [v for k, v in rtx.parse_extra(t.extra) if k == 4]
    table = {w.addr(*m)[0]: m for m in subs}
    derivs = [cn.derivation(ed.dec(p), w.a) for p in pubs]
    found = {}
    for i, o in enumerate(t.vout):
        P = ed.dec(o.key)
        cand = list(derivs)
        if adds and i < len(adds[0]):
            cand.append(cn.derivation(ed.dec(adds[0][i]), w.a))
        for d in cand:
            h = cn.deriv_scalar(d, i)
            D = ed.enc(ed.sub(P, ed.mulb(h)))
            if D in table:
                m = table[D]
                found[i] = (m, h, (h + w.sub_secret(*m)) % L)
                break
    return found


def open_output(t, i, h):
    """(amount, mask) as the recipient decodes them, or None when they do not open the commitment."""
    ss = ed.scenc(h)
    if t.rct_type >= 4:
        mask = cn.commitment_mask(ss)
        amount = int.from_bytes(cn.xor8(t.ecdh[i].amount, cn.amount_key(ss)), "little")
    else:
        k1 = cn.hs(ss)
        k2 = cn.hs(ed.scenc(k1))
        mask = (int.from_bytes(t.ecdh[i].mask, "little") - k1) % L
        amount = (int.from_bytes(t.ecdh[i].amount, "little") - k2) % L
    if amount >= 1 << 64:
        return None
    if ed.enc(cn.commit(mask, amount)) != t.out_pk[i]:
        return None
    return amount, mask


def check_recipients(c, s, t):
    """Every destination is found, opened and spendable by its wallet, in the requested order."""
    wallets = {}
    for d in s.outs:
        wallets.setdefault(id(d.wallet), (d.wallet, set()))[1].add((d.major, d.minor))
    c.eq(len(t.vout), len(s.outs), "number of outputs")
    found = {}
    for w, subs in wallets.values():
        # a realistic wallet looks at more than the one subaddress
        subs = set(subs) | {(0, 0), (s.account, 0), (0, 1)}
        for i, r in scan(t, w, subs).items():
            found.setdefault(i, []).append((w, r))
    for i, d in enumerate(s.outs):
        if d.kind == "dummy":
            op = None
            # zero-amount filler: nobody needs to find it, but it must carry nothing
            c.ok(i not in found or d.amount == 0, "dummy output carries value")
            continue
        hits = [(r, w) for w, r in found.get(i, []) if w is d.wallet]
        c.ok(hits, "recipient cannot find its output", output=i, dst=repr(d), case=gen.describe(s))
        c.ok(len(found[i]) == 1, "output is claimed by another wallet", output=i)
        (m, h, x), w = hits[0]
        c.eq(m, (d.major, d.minor), "output is attributed to another subaddress", output=i, dst=repr(d))
        op = open_output(t, i, h)
        c.ok(op is not None, "recipient cannot open its output", output=i, dst=repr(d), case=gen.describe(s))
        c.eq(op[0], d.amount, "amount received differs from the requested one", output=i)
        c.eq(ed.enc(ed.mulb(x)), t.vout[i].key, "recipient cannot derive the spend key of its output")
        c.count("outputs_scanned")
    # transaction extra
    fields = rtx.parse_extra(t.extra)
    kinds = [k for k, _ in fields]
    c.eq(kinds.count(1), 1, "number of transaction public keys in extra")
    c.ok(kinds.count(4) <= 1, "several additional-key fields")
    c.ok(kinds.count(2) <= 1, "several nonce fields")
    c.ok(set(kinds) <= {1, 2, 4}, "foreign field in extra", kinds=kinds)
    chg = (s.change_dst.spend, s.change_dst.view) if s.change_dst else None
    need = gen.needs_additional(s.outs, chg)
    c.eq(kinds.count(4), int(need), "additional keys present exactly when needed")
    if need:
        c.eq(len([v for k, v in fields if k == 4][0]), len(t.vout), "one additional key per output")
    # payment id
    R = ed.dec([v for k, v in fields if k == 1][0])
    nonce = [v for k, v in fields if k == 2]
    real = [d for d in s.outs if d.amount and (d.spend, d.view) != chg]
    if s.pid and len(s.pid) == 32:
        c.eq(nonce, [b"\x00" + s.pid], "long payment id")
    elif s.pid and len(s.pid) == 8:
        c.ok(len(nonce) == 1 and len(nonce[0]) == 9 and nonce[0][0] == 1, "encrypted payment id field", nonce=nonce)
        d = real[0]
        k = cn.pid8_key(cn.derivation(R, d.wallet.a))
        c.eq(cn.xor8(nonce[0][1:], k), s.pid, "payment id the recipient decrypts", dst=repr(d))
    else:
        if len({(d.spend, d.view) for d in real}) <= 1:
            c.ok(
                len(nonce) == 1 and len(nonce[0]) == 9 and nonce[0][0] == 1,
                "single-recipient transaction without the dummy payment id",
                nonce=nonce,
            )
            if len(real) >= 1 and not (need and real[0].is_sub):
                d = real[0]
                k = cn.pid8_key(cn.derivation(R, d.wallet.a))
                c.eq(cn.xor8(nonce[0][1:], k), bytes(8), "dummy payment id does not decrypt to zero", dst=repr(d))
        else:
            c.ok(
                len(nonce) == 0 or (len(nonce[0]) == 9 and nonce[0][0] == 1), "unrequested payment id", nonce=nonce
            )
    return found
