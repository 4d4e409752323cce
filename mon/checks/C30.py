"""Message codec: lossless, conforming to the wire format, strict on malformed input."""

import copy
import inspect
import json
import os
import tracemalloc
from io import BytesIO

from .. import gen
from ..harness import run
from ..ref import pb

RULE = (
    "random values for all message classes (boundary integers, empty and large byte strings, nested and repeated fields), encoded by the code and by an independent codec, decoded from both, with permuted and interleaved fields and "
    "inserted unknown fields; every truncation offset and random byte edits of valid encodings judged by the independent decoder; hostile sizes with the allocated memory watched; message ids, Monero field numbers, conversion "
    "helpers, the HTTP proxy and the hand-written range-proof encoding; distinct = (message class, situation)"
)
ASSUMPTIONS = [
    "accepted or refused freely, but never misread: overlong varints, values above 64 bits, tag 0, fixed-size wire types, wire types that differ from the schema, enum values outside the enumeration, a non-repeated message field given twice",
    "required fields are not enforced by this codec and not judged",
    "the Monero message schema and the message ids are pinned to those of the protocol (mon/ref/monero_schema.json)",
]


def P():
    from monero_glue import messages, protobuf

    return messages, protobuf


_cls = None


def classes():
    global _cls
    if _cls is None:
        m, p = P()
        _cls = sorted(
            {x for n in dir(m) for x in [getattr(m, n)] if inspect.isclass(x) and issubclass(x, p.MessageType) and x is not p.MessageType},
            key=lambda x: x.__name__,
        )
    return _cls


_sch = {}


def schema(cls):
    return pb.schema_of(cls, P()[1], _sch)


INTS = [0, 1, 127, 128, 255, 256, 16383, 16384, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]


def value(rng, kind, depth, big):
    if kind == "u":
        return rng.choice([rng.choice(INTS), rng.randrange(1 << rng.choice([7, 14, 32, 64]))])
    if kind == "s":
        return rng.choice([0, 1, -1, 63, 64, -64, -65, (1 << 31) - 1, -(1 << 31), (1 << 63) - 1, -(1 << 63), rng.randrange(-(1 << 40), 1 << 40)])
    if kind == "b":
        return rng.random() < 0.5
    if kind == "y":
        return gen.rb(rng, rng.choice([0, 1, 8, 32, 32, 64, 127, 128, 300] + ([5000, 70000] if big else [])))
    if kind == "t":
        return "".join(rng.choice(["a", "Z", "0", " ", "\u00e9", "\u20ac", "\U0001f600", "\x00"]) for _ in range(rng.choice([0, 1, 5, 40, 130])))
    if isinstance(kind, tuple):
        return rng.choice(kind[1])
    return message(rng, kind, depth + 1, big)


def message(rng, sch, depth=0, big=False, full=None):
    out = {}
    mode = full if full is not None else rng.choice([0.0, 0.3, 0.7, 1.0, 1.0])
    for name, kind, rep in sch.values():
        if rep:
            n = 0 if rng.random() > mode else rng.choice([1, 2, 3, 5, 20 if depth == 0 else 2])
            if isinstance(kind, dict) and depth > 2:
                n = min(n, 1)
            out[name] = [value(rng, kind, depth, big) for _ in range(n)]
        elif rng.random() < mode:
            out[name] = value(rng, kind, depth, big)
    return out


def build(cls, d, rng=None):
    """message object from the neutral form; byte strings as any bytes-like type"""
    m, p = P()
    o = cls()
    sub = {f[0]: f[1] for f in cls.get_fields().values()}
    for k, v in d.items():
        t = sub[k]
        isrep = isinstance(v, list)

        def one(x):
            if isinstance(x, dict):
                return build(t, x, rng)
            if isinstance(x, bytes) and rng is not None:
                return rng.choice([bytes, bytearray, memoryview])(x)
            return x

        setattr(o, k, [one(x) for x in v] if isrep else one(v))
    return o


def neutral(o, sch):
    out = {}
    for name, kind, rep in sch.values():
        v = getattr(o, name)
        conv = (lambda x: neutral(x, kind)) if isinstance(kind, dict) else (lambda x: bytes(x)) if kind == "y" else (lambda x: x)
        if rep:
            out[name] = [conv(x) for x in (v or [])]
        elif v is not None:
            out[name] = conv(v)
    return out


def typed(v):
    """distinguishes True from 1"""
    if isinstance(v, dict):
        return {k: typed(x) for k, x in v.items()}
    if isinstance(v, list):
        return [typed(x) for x in v]
    return type(v).__name__, v


def norm(d, sch):
    """neutral form with all repeated fields present, recursively"""
    out = {}
    for name, kind, rep in sch.values():
        v = d.get(name)
        f = (lambda x: norm(x, kind)) if isinstance(kind, dict) else (lambda x: x)
        if rep:
            out[name] = [f(x) for x in (v or [])]
        elif v is not None:
            out[name] = f(v)
    return out


def dump(o):
    _, p = P()
    w = BytesIO()
    run(p.dump_message(w, o))
    return w.getvalue()


class Rd:
    """reader that watches how much is asked for"""

    def __init__(self, b, mode=0):
        self.b, self.o, self.mode, self.asked = bytes(b), 0, mode, 0

    def readinto(self, buf):
        n = len(buf)
        self.asked += n
        if self.mode == 0 and self.o + n > len(self.b):
            raise EOFError  # documented behaviour of a Reader
        d = self.b[self.o : self.o + n]
        buf[: len(d)] = d
        self.o += len(d)
        return len(d)


def load(b, cls, rd=None):
    _, p = P()
    return run(p.load_message(rd or Rd(b), cls))


def load2(b, cls):
    from monero_glue.hwtoken import misc

    return run(misc.parse_pb_msg(bytes(b), cls))


def pick(c):
    cl = classes()
    if c.rng.random() < 0.35:
        cl = [x for x in cl if "Monero" in x.__name__]
    elif c.rng.random() < 0.2:
        cl = [x for x in cl if any(isinstance(k, dict) for _, k, _ in schema(x).values())]
    return c.rng.choice(cl)


def f_roundtrip(c):
    """family 'roundtrip'"""
    from monero_glue.hwtoken import misc

    rng = c.rng
    m, p = P()
    cl = classes()
    lot = [cl[(c.idx * 13 + i) % len(cl)] for i in range(13)]
    for cls in lot:
        sch = schema(cls)
        d = message(rng, sch, big=rng.random() < 0.2, full=1.0 if rng.random() < 0.4 else None)
        o = build(cls, d, rng)
        before = norm(d, sch)
        e = dump(o)
        ref = pb.encode(sch, d)
        c.eq(e, ref, "encoding of %s" % cls.__name__)
        c.eq(typed(norm(neutral(o, sch), sch)), typed(before), "encoding changed the message")
        c.eq(bytes(run(misc.dump_pb_msg(o))), ref, "dump_pb_msg")
        c.eq(o.ByteSize(), len(ref), "size of the encoding")
        cw = p.CountingWriter()
        run(p.dump_message(cw, o))
        c.eq(cw.size, len(ref), "counted size")
        for back in (load(ref, cls), load(ref, cls, Rd(ref, 1)), load2(ref, cls)):
            c.ok(type(back) is cls, "class of the decoded message")
            c.eq(typed(norm(neutral(back, sch), sch)), typed(norm(pb.decode(sch, ref)[0], sch)), "decoded %s" % cls.__name__)
            c.eq(typed(norm(neutral(back, sch), sch)), typed(before), "decoded %s differs from the encoded one" % cls.__name__)
            c.ok(back == build(cls, d), "decoded message equals the original by ==", cls=cls.__name__)
        txt = p.format_message(o)
        c.ok(txt.startswith(cls.__name__) and "(%d bytes)" % len(ref) in txt, "format_message header", txt=txt[:80])
        c.count("messages_round_tripped")
        c.count("bytes_encoded", len(ref))
        c.distinct("rt", cls.__name__, len(ref) > 127, len(ref) > 16383)


def f_again(c):
    """family 'again': messages that differ in one field, of classes that look alike, written and read again and again"""
    rng = c.rng
    cl = classes()
    cls = pick(c)
    sch = schema(cls)
    twin = [x for x in cl if x is not cls and schema(x) == sch]
    pool = []
    base = message(rng, sch, full=1.0)
    for i in range(4):
        d = {k: v for k, v in base.items()}
        if i and d:
            k = rng.choice(sorted(d))
            name, kind, rep = next(f for f in sch.values() if f[0] == k)
            d[k] = [value(rng, kind, 1, False)] if rep else value(rng, kind, 1, False)
            if i == 3:
                del d[k]
        pool.append(d)
    enc_ = [pb.encode(sch, d) for d in pool]
    exp = [typed(norm(d, sch)) for d in pool]
    objs = [build(cls, d, rng) for d in pool]

    def spoil(o, sc):
        for name, kind, rep in sc.values():
            v = getattr(o, name)
            if rep and isinstance(v, list):
                if isinstance(kind, dict) and v:
                    spoil(v[0], kind)
                v.append(v[0] if v else 0)
            elif isinstance(kind, dict) and v is not None:
                spoil(v, kind)
            elif isinstance(v, bytearray) and v:
                v[0] ^= 255
            else:
                setattr(o, name, None)

    kept = []
    for step in range(24):
        i = rng.randrange(4)
        what = rng.randrange(4)
        if what == 0:
            c.eq(dump(objs[i]), enc_[i], "encoding depends on earlier ones", cls=cls.__name__)
        elif what == 1:
            o = build(cls, pool[i], rng)
            c.eq(dump(o), enc_[i], "encoding of an equal message", cls=cls.__name__)
            spoil(o, sch)
        elif what == 2 and twin:
            t = rng.choice(twin)
            o = load(enc_[i], t)
            c.ok(type(o) is t, "class of the decoded message", cls=t.__name__, got=type(o).__name__)
            c.eq(typed(norm(neutral(o, sch), sch)), exp[i], "decoded as a class that looks alike", cls=t.__name__)
        else:
            o = (load if rng.random() < 0.7 else load2)(enc_[i], cls)
            c.ok(type(o) is cls, "class of the decoded message", cls=cls.__name__, got=type(o).__name__)
            c.eq(typed(norm(neutral(o, sch), sch)), exp[i], "decoding depends on earlier ones", cls=cls.__name__)
            if rng.random() < 0.5:
                spoil(o, sch)
            else:
                kept.append((i, o))
        e = cls()
        c.eq(typed(norm(neutral(e, sch), sch)), typed(norm({}, sch)), "a new message is not empty", cls=cls.__name__)
        c.count("again")
    for i, o in kept:
        c.eq(typed(norm(neutral(o, sch), sch)), exp[i], "a decoded message changed later", cls=cls.__name__)
    for i, o in enumerate(objs):
        c.eq(typed(norm(neutral(o, sch), sch)), exp[i], "a message changed", cls=cls.__name__)
    c.distinct("again", cls.__name__, len(twin))


def f_google(c):
    """family 'google': the reference codec itself against the protobuf library, and the code"""
    os.environ.setdefault("PROTOCOL_BUFFERS_PYTHON_IMPLEMENTATION", "python")
    from google.protobuf import descriptor_pb2, descriptor_pool, message_factory

    rng = c.rng
    pool = descriptor_pool.DescriptorPool()
    fac = message_factory.MessageFactory(pool)
    fd = descriptor_pb2.FileDescriptorProto(name="x%d.proto" % c.idx, package="x", syntax="proto2")
    cl = [pick(c) for _ in range(6)]
    names = {}

    def add(sch, nm):
        if id(sch) in names:
            return names[id(sch)]
        names[id(sch)] = nm
        md = descriptor_pb2.DescriptorProto(name=nm)
        for tag, (name, kind, rep) in sch.items():
            f = md.field.add(name=name, number=tag, label=3 if rep else 1)
            if isinstance(kind, dict):
                f.type, f.type_name = 11, ".x." + add(kind, "%s_%d" % (nm, tag))
            else:
                f.type = {"u": 4, "s": 18, "b": 8, "y": 12, "t": 9}.get(kind if isinstance(kind, str) else "u", 4)
        fd.message_type.append(md)
        return nm

    for cls in cl:
        add(schema(cls), cls.__name__)
    pool.Add(fd)

    def fill(g, d, sch):
        for name, kind, rep in sch.values():
            v = d.get(name)
            if v is None:
                continue
            if isinstance(kind, dict):
                for x in v if rep else [v]:
                    t = getattr(g, name).add() if rep else getattr(g, name)
                    t.SetInParent()
                    fill(t, x, kind)
            elif rep:
                getattr(g, name).extend(v)
            else:
                setattr(g, name, v)

    for cls in cl:
        sch = schema(cls)
        d = message(rng, sch)
        G = fac.GetPrototype(pool.FindMessageTypeByName("x." + names[id(sch)]))
        g = G()
        fill(g, d, sch)
        e = dump(build(cls, d))
        srt = sorted(sch) == list(sch)
        if srt and all(sorted(k) == list(k) for _, k, _ in sch.values() if isinstance(k, dict)):
            c.eq(e, g.SerializeToString(deterministic=True), "encoding vs the protobuf library of %s" % cls.__name__)
        g2 = G()
        g2.ParseFromString(e)
        c.ok(g2 == g, "the protobuf library reads another message", cls=cls.__name__)
        back = load(g.SerializeToString(), cls)
        c.eq(typed(norm(neutral(back, sch), sch)), typed(norm(d, sch)), "reading what the protobuf library wrote")
        c.count("library_comparisons")
        c.distinct("google", cls.__name__)


def f_foreign(c):
    """family 'foreign': encodings another writer may produce"""
    rng = c.rng
    for _ in range(10):
        cls = pick(c)
        sch = schema(cls)
        d = message(rng, sch, full=1.0 if rng.random() < 0.5 else None)
        parts = pb.fields(sch, d)
        what = rng.choice(["permute", "unknown", "overlong", "twice", "mixed"])
        if what in ("permute", "mixed"):
            # fields in any order, values of one repeated field in their order
            by = {}
            for t, f in parts:
                by.setdefault(t, []).append(f)
            order = [t for t, _ in parts]
            rng.shuffle(order)
            parts = [(t, by[t].pop(0)) for t in order]
        if what in ("unknown", "mixed"):
            new = []
            free = [t for t in [1, 2, 15, 16, 100, 2047, 5000, (1 << 29) - 1] if t not in sch]
            for x in parts + [None]:
                while rng.random() < 0.4:
                    t = rng.choice(free)
                    if rng.random() < 0.5:
                        new.append((t, pb.varint(t << 3) + pb.varint(rng.choice(INTS))))
                    else:
                        b = gen.rb(rng, rng.choice([0, 1, 5, 130, 5000]))
                        new.append((t, pb.varint(t << 3 | 2) + pb.varint(len(b)) + b))
                if x:
                    new.append(x)
            parts = new
        if what == "twice":
            once = [(t, x) for t, x in parts if not sch[t][2] and not isinstance(sch[t][1], dict)]
            if once:
                t, _ = rng.choice(once)
                name, kind, _ = sch[t]
                d[name] = value(rng, kind, 1, False)
                parts = parts + [(t, pb.varint(t << 3 | pb.wt(kind)) + pb.enc_value(kind, d[name]))]
        raw = b"".join(f for _, f in parts)
        if what == "overlong":
            u = [(i, t) for i, (t, _) in enumerate(parts) if sch[t][1] == "u" and not sch[t][2]]
            if u:
                i, t = rng.choice(u)
                parts[i] = (t, pb.varint(t << 3, rng.choice([0, 1])) + pb.varint(d[sch[t][0]], rng.choice([1, 2])))
            raw = b"".join(f for _, f in parts)
            try:
                back = load(raw, cls)
            except Exception:
                c.count("overlong_refused")
                continue
        else:
            back = load(raw, cls)
        c.eq(typed(norm(neutral(back, sch), sch)), typed(norm(d, sch)), "%s fields of %s" % (what, cls.__name__))
        c.count("foreign_" + what)
        c.distinct("foreign", what, cls.__name__)


def judge(c, cls, raw, what):
    sch = schema(cls)
    try:
        ref, odd = pb.decode(sch, raw)
    except pb.Bad as e:
        ref = None
        why = str(e)
    lim = Rd(raw, c.rng.choice([0, 1]))
    try:
        got = load(raw, cls, lim)
    except (Exception,) as e:
        got = None
        c.ok(not isinstance(e, (MemoryError, RecursionError)), "decoding ends in %s" % type(e).__name__)
    c.ok(lim.asked <= 2 * len(raw) + 9000, "decoder asks for more than the input can hold", asked=lim.asked, size=len(raw))
    if ref is None:
        c.ok(got is None, "malformed message accepted (%s): %s" % (what, why), cls=cls.__name__, raw=raw[:200])
        c.count("malformed_refused")
    elif got is None:
        c.ok(bool(odd), "well-formed message refused (%s)" % what, cls=cls.__name__, raw=raw[:200])
        c.count("odd_refused")
    else:
        c.count("odd_accepted" if odd else "altered_accepted")
        if odd & {"varint above 64 bits", "enum value outside the enumeration", "repeated single message"}:
            return
        c.eq(typed(norm(neutral(got, sch), sch)), typed(norm(ref, sch)), "altered message is misread (%s)" % what)
    c.distinct("hostile", what, cls.__name__, ref is None)


def f_hostile(c):
    """family 'hostile'"""
    rng = c.rng
    cls = pick(c)
    for _ in range(20):
        sch = schema(cls)
        d = message(rng, sch, full=0.8)
        raw = pb.encode(sch, d)
        if 2 < len(raw) < 6000:
            break
        cls = pick(c)
    for n in range(len(raw)) if len(raw) < 200 else sorted(rng.sample(range(len(raw)), 150)):
        judge(c, cls, raw[:n], "truncated")
    for _ in range(60):
        b = bytearray(raw)
        what = rng.choice(["flip", "set", "insert", "delete", "dup", "splice"])
        i = rng.randrange(len(b)) if b else 0
        if what == "flip" and b:
            b[i] ^= 1 << rng.randrange(8)
        elif what == "set" and b:
            b[i] = rng.choice([0, 0x7F, 0x80, 0xFF, 0x0B, 0x0C])
        elif what == "insert":
            b[i:i] = gen.rb(rng, rng.choice([1, 2, 9]))
        elif what == "delete":
            del b[i : i + rng.choice([1, 2, 8])]
        elif what == "dup":
            b[i:i] = b[i : i + rng.randrange(1, 40)]
        else:
            j = rng.randrange(len(b) + 1)
            b = b[:i] + b[j:]
        judge(c, cls, bytes(b), what)
    for _ in range(6):
        judge(c, cls, gen.rb(rng, rng.choice([1, 2, 3, 10, 40])), "random")
    # a nested message whose last field reaches behind its end into the enclosing message
    outer = [x for x in classes() if any(isinstance(k, dict) for _, k, _ in schema(x).values())]
    cls = rng.choice(outer)
    sch = schema(cls)
    tag, (name, kind, rep) = rng.choice([(t, f) for t, f in sch.items() if isinstance(f[1], dict)])
    inner = pb.encode(kind, message(rng, kind, full=1.0))[:3000] + pb.varint(900 << 3 | 2) + pb.varint(10) + b"abc"
    judge(c, cls, pb.varint(tag << 3 | 2) + pb.varint(len(inner)) + inner + bytes(range(8, 60)), "nested overrun")


def f_bombs(c):
    """family 'bombs': declared sizes far above what is there"""
    rng = c.rng
    for _ in range(6):
        cls = pick(c)
        sch = schema(cls)
        tags = [t for t, f in sch.items() if pb.wt(f[1]) == 2] or [999]
        t = rng.choice(tags + [999])
        size = rng.choice([1 << 20, 1 << 28, 1 << 31, 1 << 40, (1 << 63) - 1, (1 << 64) - 1])
        raw = pb.varint(t << 3 | 2) + pb.varint(size) + gen.rb(rng, rng.choice([0, 3, 50]))
        load2(b"", classes()[0])  # imports happen outside the measurement
        tracemalloc.start()
        try:
            c.refused(lambda: load(raw, cls), "message declaring %d bytes it does not have" % size)
            c.refused(lambda: load2(raw, cls), "message declaring %d bytes it does not have (parse_pb_msg)" % size)
            peak = tracemalloc.get_traced_memory()[1]
        finally:
            tracemalloc.stop()
        c.ok(peak < 4 << 20, "decoder allocates by the declared size", peak=peak, size=size)
        c.count("size_bombs")
        c.distinct("bomb", size.bit_length(), t == 999)
    raw = b"\xff" * rng.choice([11, 100, 100000])
    c.refused(lambda: load(raw, classes()[0]), "endless varint")


def f_ids(c):
    """family 'ids': message numbers and the Monero message schema"""
    from monero_glue.protocol_base import messages as pm

    m, p = P()
    with open(os.path.join(os.path.dirname(pb.__file__), "monero_schema.json")) as f:
        pin = json.load(f)
    ids = {x: getattr(m.MessageType, x) for x in dir(m.MessageType) if not x.startswith("_")}
    for n, i in pin["ids"].items():
        c.eq(ids.get(n), i, "number of message %s" % n)
        c.eq(ids and pm.get_message_from_type(i).__name__, n, "message of number %d" % i)
        cls = getattr(m, n)
        c.eq(pm.get_message_type(cls()), i, "get_message_type")
        c.eq(pm.get_message_type(cls=cls), i, "get_message_type of the class")
        c.eq(getattr(cls, "MESSAGE_WIRE_TYPE", None), i, "wire type of %s" % n)
        c.distinct("id", i)
        c.count("message_ids")
    c.eq(len(set(ids.values())), len(ids), "message numbers are unique")
    for i in (-1, 65535, 1 << 40, None):
        c.refused(lambda: pm.get_message_from_type(i), "message of unknown number %r" % (i,))
    for n, fl in pin["messages"].items():
        cls = getattr(m, n)
        cur = {str(t): [f[0], f[1].enum_name if isinstance(f[1], p.EnumType) else f[1].__name__, f[2]] for t, f in cls.get_fields().items()}
        for t, f in fl.items():
            c.eq(cur.get(t), f, "field %s of %s" % (t, n))
            c.count("schema_fields")
        names = [f[0] for f in cur.values()]
        c.eq(len(set(names)), len(names), "field names of %s" % n)
        # constructor stores every argument in the field of its name
        import random as _r

        d = message(_r.Random(7), schema(cls), full=1.0)
        o = cls(**{k: build({f[0]: f[1] for f in cls.get_fields().values()}[k], v) if isinstance(v, dict) else v for k, v in d.items() if not (isinstance(v, list) and v and isinstance(v[0], dict))})
        for k, v in d.items():
            if not (isinstance(v, dict) or isinstance(v, list) and v and isinstance(v[0], dict)):
                c.eq(getattr(o, k), v, "constructor argument %s of %s" % (k, n))


def f_helpers(c):
    """family 'helpers': conversions between representations of one message"""
    from monero_glue.protocol_base import messages as pm

    rng = c.rng
    m, p = P()
    from trezorlib import messages as tm

    conv = {b: pm.MessageConverter(fix_bytes=b) for b in (False, True)}
    for _ in range(8):
        cls = pick(c)
        sch = schema(cls)
        d = message(rng, sch)
        o = build(cls, d)
        raw = pb.encode(sch, d)
        # dictionary form: byte strings also as hex
        def dic(d, sch):
            out = {}
            for name, kind, rep in sch.values():
                if name not in d:
                    continue
                f = (lambda x: dic(x, kind)) if isinstance(kind, dict) else (lambda x: x.hex() if rng.random() < 0.5 else x) if kind == "y" else (lambda x: x)
                out[name] = [f(x) for x in d[name]] if rep else f(d[name])
            return out

        c.eq(dump(p.dict_to_proto(cls, dic(d, sch))), raw, "dict_to_proto")
        o2 = build(cls, d, rng)
        fx = pm.bytes_fix(o2)
        c.eq(dump(fx), raw, "bytes_fix keeps the message")
        c.ok(fx == o, "bytes_fix gives plain bytes everywhere", cls=cls.__name__)
        cp = cls()
        cp.CopyFrom(o)
        c.eq(dump(cp), raw, "CopyFrom")
        c.ok(cp == o and not (cp == object()), "equality")
        # one changed field makes a message unequal
        ch = [f for f in sch.values() if not f[2] and isinstance(f[1], str) and f[0] in d]
        if ch:
            name, kind, _ = rng.choice(ch)
            o3 = build(cls, d)
            v = getattr(o3, name)
            setattr(o3, name, v + 1 if kind in "us" else (not v) if kind == "b" else v + (b"x" if kind == "y" else "x"))
            c.ok(not (o3 == o) and not (o == o3), "messages that differ in %s are equal" % name)
        # repeated bytes given as a list of chunks is one value
        yl = [f for f in sch.values() if f[1] == "y" and not f[2] and f[0] in d]
        if yl:
            o4 = build(cls, d)
            name = yl[0][0]
            v = getattr(o4, name)
            k = rng.randrange(len(v) + 1)
            setattr(o4, name, [v[:k], v[k:]])
            c.eq(dump(o4), raw, "byte string given as chunks")
        tcls = getattr(tm, cls.__name__, None)
        if tcls is not None:
            same = {t: f[0] for t, f in tcls.get_fields().items()} == {t: f[0] for t, f in cls.get_fields().items()}
            if same and all("Monero" in x.__name__ for x in [cls]):
                cv = conv[rng.random() < 0.5]
                t = cv.to_trezorlib(build(cls, d))
                walk(c, t, "trezorlib")
                back = cv.to_phlib(t)
                walk(c, back, "monero_glue")
                c.eq(dump(back), raw, "conversion to the device library and back")
                c.ok(back == o, "converted message equals the original", cls=cls.__name__)
                c.count("converted")
        c.count("helper_messages")
        c.distinct("help", cls.__name__)


def walk(c, o, pkg):
    _, p = P()
    from trezorlib import protobuf as tp

    if isinstance(o, (p.MessageType, tp.MessageType)):
        c.ok(type(o).__module__.startswith(pkg), "message of the wrong package", cls=type(o).__module__, want=pkg)
        for v in list(o.__dict__.values()):
            walk(c, v, pkg)
    elif isinstance(o, list):
        for x in o:
            walk(c, x, pkg)


def f_proxy(c):
    """family 'proxy': messages carried over HTTP to a remote device"""
    from monero_poc.utils import trezor_server_proxy as tsp

    rng = c.rng
    m, p = P()
    seen = []
    reply = {}

    class Resp:
        def __init__(self, j):
            self.j = j

        def raise_for_status(self):
            pass

        def json(self):
            return json.loads(json.dumps(self.j))

    def post(url, json=None, **k):
        seen.append((url, json))
        return Resp({"payload": {"msg_type": reply["id"], "msg": reply["raw"].hex()}})

    old = tsp.requests.post
    tsp.requests.post = post
    try:
        prox = tsp.TokenProxy("http://127.0.0.1:9")
        for meth, path in (("tsx_sign", "tx_sign"), ("key_image_sync", "ki_sync"), ("get_view_key", "watch_only"), ("call", "call")):
            ids = [x for x in classes() if getattr(x, "MESSAGE_WIRE_TYPE", None) is not None and "Monero" in x.__name__]
            a, b = rng.choice(ids), rng.choice(ids)
            da, db = message(rng, schema(a)), message(rng, schema(b))
            reply.update(id=b.MESSAGE_WIRE_TYPE, raw=pb.encode(schema(b), db))
            res = run(getattr(prox, meth)(build(a, da)))
            url, js = seen.pop()
            c.ok(url.endswith("/" + path), "address of the request", url=url)
            c.eq(js["payload"]["msg_type"], a.MESSAGE_WIRE_TYPE, "announced message number")
            c.eq(bytes.fromhex(js["payload"]["msg"]), pb.encode(schema(a), da), "request bytes")
            c.ok(type(res) is b, "class of the reply")
            c.eq(typed(norm(neutral(res, schema(b)), schema(b))), typed(norm(db, schema(b))), "reply")
            c.count("proxied")
            c.distinct("proxy", meth, a.__name__)
    finally:
        tsp.requests.post = old


def f_rsig(c):
    """family 'rsig': the hand-written range-proof encoding and dump_msg"""
    from monero_glue.hwtoken import misc
    from monero_serialize import xmrtypes as X

    rng = c.rng
    for n in (6, 7, 8, 10, rng.randrange(1, 32), 127):
        q = X.Bulletproof(**{k: gen.rb(rng, 32) for k in ("A", "S", "T1", "T2", "taux", "mu", "a", "b", "t")})
        q.V = [gen.rb(rng, 32)]
        q.L, q.R = [gen.rb(rng, 32) for _ in range(n)], [gen.rb(rng, 32) for _ in range(n)]
        want = q.A + q.S + q.T1 + q.T2 + q.taux + q.mu + bytes([n]) + b"".join(q.L) + bytes([n]) + b"".join(q.R) + q.a + q.b + q.t
        c.eq(bytes(misc.dump_rsig_bp(q)), want, "dump_rsig_bp with %d rounds" % n)
        c.eq(bytes(run(misc.dump_msg(q))), want, "generic encoding of the range proof")
        back = run(misc.parse_msg(want, X.Bulletproof()))
        for k in ("A", "S", "T1", "T2", "taux", "mu", "a", "b", "t"):
            c.eq(bytes(getattr(back, k)), getattr(q, k), "field %s read back" % k)
        c.eq([bytes(x) for x in back.L] + [bytes(x) for x in back.R], q.L + q.R, "rounds read back")
        pre = gen.rb(rng, 3)
        c.eq(bytes(run(misc.dump_msg(q, prefix=pre, preallocate=rng.choice([None, 1, 64, 5000])))), pre + want, "prefix and preallocation")
        c.count("range_proofs_encoded")
        c.distinct("rsig", n)
    q.L = q.R = [bytes(32)] * 128
    c.refused(lambda: misc.dump_rsig_bp(q), "range proof with 128 rounds")


FAMILIES = {
    "roundtrip": dict(fn=f_roundtrip, quick=42, thorough=420, backends=("tcry",)),
    "again": dict(fn=f_again, quick=40, thorough=400, backends=("tcry",)),
    "google": dict(fn=f_google, quick=20, thorough=200, backends=("tcry",)),
    "foreign": dict(fn=f_foreign, quick=40, thorough=500, backends=("tcry",)),
    "hostile": dict(fn=f_hostile, quick=60, thorough=1500, backends=("tcry",)),
    "bombs": dict(fn=f_bombs, quick=12, thorough=100, backends=("tcry",)),
    "ids": dict(fn=f_ids, quick=1, thorough=1, backends=("tcry",)),
    "helpers": dict(fn=f_helpers, quick=30, thorough=300, backends=("tcry",)),
    "proxy": dict(fn=f_proxy, quick=8, thorough=60, backends=("tcry",)),
    "rsig": dict(fn=f_rsig, quick=4, thorough=30, backends=("tcry",)),
}
