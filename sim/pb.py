"""Independent protobuf encoder/decoder over the repository's message descriptions"""


class Cut(Exception):
    """the bytes end inside a field"""


def varint(n):
    out = bytearray()
    while True:
        b = n & 0x7F
        n >>= 7
        out.append(b | (0x80 if n else 0))
        if not n:
            return bytes(out)


def kind(ftype):
    from monero_glue import protobuf as p
    if ftype is p.UVarintType:
        return "u"
    if ftype is p.SVarintType:
        return "s"
    if ftype is p.BoolType:
        return "b"
    if ftype is p.BytesType:
        return "y"
    if ftype is p.UnicodeType:
        return "t"
    if isinstance(ftype, p.EnumType):
        return "e"
    return "m"


def fields(cls):
    """[(tag, name, kind, type, repeated)]"""
    from monero_glue import protobuf as p
    return [(t, f[0], kind(f[1]), f[1], bool(f[2] & p.FLAG_REPEATED)) for t, f in cls.get_fields().items()]


def gen(rng, cls, depth=0):
    """random message as a plain value {name: value}"""
    res = {}
    for tag, name, k, ft, rep in fields(cls):
        if rep:
            n = rng.choice([0, 0, 1, 2, 3, 5]) if depth < 3 else 0
            res[name] = [val(rng, k, ft, depth) for _ in range(n)]
        else:
            if rng.random() < (0.3 if depth < 3 else 0.8):
                res[name] = None
            elif k == "m" and depth >= 4:
                res[name] = None
            else:
                res[name] = val(rng, k, ft, depth)
    return res


def val(rng, k, ft, depth):
    if k == "u":
        return rng.choice([0, 1, 127, 128, 16383, 16384, (1 << 32) - 1, (1 << 63), (1 << 64) - 1, rng.getrandbits(64),
                           rng.getrandbits(rng.randint(1, 64))])
    if k == "s":
        return rng.choice([0, -1, 1, -64, 63, 64, -65, (1 << 31) - 1, -(1 << 31), rng.getrandbits(31), -rng.getrandbits(40)])
    if k == "b":
        return rng.random() < 0.5
    if k == "e":
        vs = sorted(ft.enum_values)
        return rng.choice(vs)
    if k == "y":
        n = rng.choice([0, 1, 2, 31, 32, 63, 64, 127, 128, 129, 300])
        return bytes(rng.getrandbits(8) for _ in range(n))
    if k == "t":
        n = rng.choice([0, 1, 5, 40, 130])
        return "".join(rng.choice("abz09 \u00e9\u4e2d\U0001f600\x00") for _ in range(n))
    return gen(rng, ft, depth + 1)


def build(cls, v):
    kw = {}
    for tag, name, k, ft, rep in fields(cls):
        x = v[name]
        if k == "m" and x is not None:
            x = [build(ft, y) for y in x] if rep else build(ft, x)
        elif rep:
            x = list(x)
        kw[name] = x
    return cls(**kw)


def plain(cls, m):
    """message object -> plain value"""
    res = {}
    for tag, name, k, ft, rep in fields(cls):
        x = getattr(m, name)
        if k == "m":
            if rep:
                x = [plain(ft, y) for y in x]
            elif x is not None:
                x = plain(ft, x)
        elif k == "y":
            if rep:
                x = [bytes(y) for y in x]
            elif x is not None:
                x = bytes(x)
        elif rep:
            x = list(x)
        if k == "b" and x is not None and not rep:
            assert isinstance(x, bool)
        res[name] = x
    return res


def enc_one(k, ft, x):
    if k in ("u", "e"):
        return 0, varint(x)
    if k == "b":
        return 0, varint(1 if x else 0)
    if k == "s":
        return 0, varint(((-x) << 1) - 1 if x < 0 else x << 1)
    if k == "t":
        x = x.encode("utf8")
    elif k == "m":
        x = encode(ft, x)
    return 2, varint(len(x)) + x


def encode(cls, v):
    return b"".join(b for _, b in parts(cls, v))


def parts(cls, v):
    """[(name, bytes)] in the order of the tags"""
    out = []
    for tag, name, k, ft, rep in fields(cls):
        x = v[name]
        if x is None:
            continue
        for y in (x if rep else [x]):
            w, b = enc_one(k, ft, y)
            out.append((name, varint(tag << 3 | w) + b))
    return out


def rd_varint(b, o, end):
    r = s = 0
    while True:
        if o >= end:
            raise Cut()
        c = b[o]
        o += 1
        r |= (c & 0x7F) << s
        s += 7
        if not c & 0x80:
            return r, o


def decode(cls, b, o=0, end=None):
    """plain value; raises Cut on bytes ending inside a field, ValueError on malformed ones"""
    end = len(b) if end is None else end
    fs = {t: (n, k, ft, rep) for t, n, k, ft, rep in fields(cls)}
    res = {n: ([] if rep else None) for _, n, _, _, rep in fields(cls)}
    while o < end:
        key, o = rd_varint(b, o, end)
        tag, w = key >> 3, key & 7
        if tag not in fs:
            if w == 0:
                _, o = rd_varint(b, o, end)
            elif w == 2:
                n, o = rd_varint(b, o, end)
                if o + n > end:
                    raise Cut()
                o += n
            else:
                raise ValueError("wire type")
            continue
        name, k, ft, rep = fs[tag]
        if w != (0 if k in "usbe" else 2):
            raise ValueError("wire type")
        n, o = rd_varint(b, o, end)
        if k in "usbe":
            x = n
            if k == "s":
                x = -((n + 1) >> 1) if n & 1 else n >> 1
            elif k == "b":
                x = bool(n)
            elif k == "e":
                if n not in ft.enum_values:
                    raise ValueError("enum")
        else:
            if o + n > end:
                raise Cut()
            if k == "m":
                x = decode(ft, b, o, o + n)
            else:
                x = bytes(b[o:o + n])
                if k == "t":
                    x = x.decode("utf8")
            o += n
        if rep:
            res[name].append(x)
        else:
            res[name] = x
    return res
