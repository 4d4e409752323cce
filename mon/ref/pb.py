"""Independent protocol-buffers wire codec working on neutral schemas.

Schema: {tag: (name, kind, repeated)}; kind is 'u' (unsigned), 's' (zigzag), 'b' (bool), 'y' (bytes),
't' (text), ('e', values) (enum) or a nested schema (dict). Messages are dicts name -> value.
"""


class Bad(Exception):
    """not an encoding of a message of the schema"""


class Odd(Exception):
    """encodings whose treatment the wire format or the subset leaves open"""


def schema_of(cls, p, memo=None):
    memo = {} if memo is None else memo
    if cls in memo:
        return memo[cls]
    memo[cls] = out = {}
    for tag, (name, ft, fl) in cls.get_fields().items():
        if isinstance(ft, p.EnumType):
            k = ("e", tuple(sorted(ft.enum_values)))
        elif issubclass(ft, p.MessageType):
            k = schema_of(ft, p, memo)
        else:
            k = {p.UVarintType: "u", p.SVarintType: "s", p.BoolType: "b", p.BytesType: "y", p.UnicodeType: "t"}[ft]
        out[tag] = (name, k, bool(fl & 1))
    return out


def wt(kind):
    return 0 if kind in ("u", "s", "b") or isinstance(kind, tuple) else 2


def varint(n, pad=0):
    out = bytearray()
    while True:
        b = n & 0x7F
        n >>= 7
        if n or pad > 0:
            out.append(b | 0x80)
            if not n:
                pad -= 1
                if pad <= 0:
                    out.append(0)
                    return bytes(out)
        else:
            out.append(b)
            return bytes(out)


def enc_value(kind, v):
    if kind == "u" or isinstance(kind, tuple):
        return varint(v)
    if kind == "s":
        return varint(2 * v if v >= 0 else -2 * v - 1)
    if kind == "b":
        return varint(1 if v else 0)
    if kind == "y":
        return varint(len(v)) + bytes(v)
    if kind == "t":
        b = v.encode("utf-8")
        return varint(len(b)) + b
    b = encode(kind, v)
    return varint(len(b)) + b


def fields(schema, msg):
    """[(tag, encoded field)] in schema order"""
    out = []
    for tag, (name, kind, rep) in schema.items():
        v = msg.get(name)
        if v is None:
            continue
        for x in v if rep else [v]:
            out.append((tag, varint(tag << 3 | wt(kind)) + enc_value(kind, x)))
    return out


def encode(schema, msg):
    return b"".join(f for _, f in fields(schema, msg))


class R:
    def __init__(self, b):
        self.b, self.o, self.odd = bytes(b), 0, set()

    def varint(self):
        n, s = 0, 0
        while True:
            if self.o >= len(self.b):
                raise Bad("truncated varint")
            c = self.b[self.o]
            self.o += 1
            n |= (c & 0x7F) << s
            s += 7
            if not c & 0x80:
                if c == 0 and s > 7:
                    self.odd.add("overlong varint")
                if n >> 64:
                    self.odd.add("varint above 64 bits")
                return n
            if s >= 70:
                raise Bad("varint too long")

    def take(self, n):
        if self.o + n > len(self.b):
            raise Bad("truncated bytes")
        r = self.b[self.o : self.o + n]
        self.o += n
        return r


def decode(schema, b):
    """(message, set of oddities); raises Bad"""
    r = R(b)
    msg = {name: [] for name, _, rep in schema.values() if rep}
    single = set()
    while r.o < len(r.b):
        key = r.varint()
        tag, w = key >> 3, key & 7
        if tag == 0:
            r.odd.add("tag zero")
        f = schema.get(tag)
        if w not in (0, 1, 2, 5):
            raise Bad("wire type %d" % w)
        if f is None or wt(f[1]) != w:
            if f is not None:
                r.odd.add("wire type differs from the schema")
            if w == 0:
                r.varint()
            elif w == 2:
                r.take(r.varint())
            else:
                r.odd.add("fixed-size field")
                r.take(8 if w == 1 else 4)
            continue
        name, kind, rep = f
        v = r.varint()
        if kind == "s":
            v = -(v >> 1) - 1 if v & 1 else v >> 1
        elif kind == "b":
            v = bool(v)
        elif isinstance(kind, tuple):
            if v not in kind[1]:
                r.odd.add("enum value outside the enumeration")
        elif w == 2:
            d = r.take(v)
            if kind == "y":
                v = d
            elif kind == "t":
                try:
                    v = d.decode("utf-8")
                except UnicodeDecodeError:
                    raise Bad("invalid text")
            else:
                v, odd = decode(kind, d)
                r.odd |= odd
                if name in single:
                    r.odd.add("repeated single message")
        if rep:
            msg[name].append(v)
        else:
            single.add(name)
            msg[name] = v
    return msg, r.odd
