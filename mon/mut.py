"""Generic single-field mutations of protocol messages."""

import copy


def is_msg(x):
    return hasattr(x.__class__, "get_fields")


def paths(msg, pre=()):
    """[(path, value)] of every set field, recursively (path elements: field names and list indices)"""
    out = []
    for tag, f in msg.__class__.get_fields().items():
        name = f[0]
        v = getattr(msg, name, None)
        if v is None:
            continue
        out.append((pre + (name,), v))
        if isinstance(v, list):
            for i, x in enumerate(v):
                out.append((pre + (name, i), x))
                if is_msg(x):
                    out += paths(x, pre + (name, i))
        elif is_msg(v):
            out += paths(v, pre + (name,))
    return out


def get(msg, path):
    for p in path:
        msg = msg[p] if isinstance(p, int) else getattr(msg, p)
    return msg


def put(msg, path, v):
    o = get(msg, path[:-1])
    if isinstance(path[-1], int):
        o[path[-1]] = v
    else:
        setattr(o, path[-1], v)


def mutations(rng, msg, others=()):
    """[(description, mutator)]: a mutator returns an altered deep copy. others: same-class messages whose
    fields are used for swaps (label, message)."""
    res = []

    def add(desc, path, fn):
        def mutator(m, path=path, fn=fn):
            m = copy.deepcopy(m)
            put(m, path, fn(get(m, path)))
            return m

        res.append((desc, mutator))

    for path, v in paths(msg):
        name = ".".join(str(p) for p in path)
        if isinstance(v, bool):
            add(name + ":toggle", path, lambda x: not x)
        elif isinstance(v, int):
            for d, fn in (
                ("+1", lambda x: x + 1),
                ("bit", lambda x, b=1 << rng.randrange(40): x ^ b),
                ("zero", lambda x: 0 if x else 1),
                ("huge", lambda x: (1 << 64) - 1),
            ):
                add(name + ":" + d, path, fn)
            if not isinstance(path[-1], int):
                add(name + ":drop", path, lambda x: None)
        elif isinstance(v, (bytes, bytearray)):
            if len(v):
                i, b = rng.randrange(len(v)), 1 << rng.randrange(8)
                add(name + ":flip", path, lambda x, i=i, b=b: bytes(x[:i]) + bytes([x[i] ^ b]) + bytes(x[i + 1 :]))
                add(name + ":first", path, lambda x: bytes([x[0] ^ 1]) + bytes(x[1:]))
                add(name + ":last", path, lambda x: bytes(x[:-1]) + bytes([x[-1] ^ 0x80]))
                add(name + ":trunc", path, lambda x: bytes(x[:-1]))
                if len(v) > 16:
                    add(name + ":half", path, lambda x: bytes(x[: len(x) // 2]))
                add(name + ":zeros", path, lambda x: bytes(len(x)))
                add(name + ":empty", path, lambda x: b"")
            add(name + ":ext", path, lambda x: bytes(x) + b"\0")
            if not isinstance(path[-1], int):
                add(name + ":drop", path, lambda x: None)
        elif isinstance(v, list):
            if len(v):
                add(name + ":pop", path, lambda x: x[:-1])
                add(name + ":dup", path, lambda x: x + [x[-1]])
                add(name + ":clear", path, lambda x: [])
            if len(v) > 1:
                add(name + ":rev", path, lambda x: x[::-1])
        elif is_msg(v):
            if not isinstance(path[-1], int):
                add(name + ":drop", path, lambda x: None)
    for label, o in others:
        for path, v in paths(msg):
            try:
                ov = get(o, path)
            except (AttributeError, IndexError, TypeError):
                continue
            if ov is None or same(ov, v):
                continue
            add(".".join(str(p) for p in path) + ":from-" + label, path, lambda x, ov=ov: copy.deepcopy(ov))
        res.append(("*:whole-from-" + label, lambda m, o=o: copy.deepcopy(o)))
    return res


def same(a, b):
    if is_msg(a) and is_msg(b):
        return a.__class__ is b.__class__ and all(
            same(getattr(a, f[0], None), getattr(b, f[0], None)) for f in a.__class__.get_fields().values()
        )
    if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
        return bytes(a) == bytes(b)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b
