"""
Independent reference for the Monero transaction format and cryptography used as oracle.

Nothing of /repo is used here: curve arithmetic and keccak come from the installed trezor-crypto C library,
scalars are python integers, everything else (wire format, MLSAG, bulletproof verification, stealth addresses,
ECDH, key images, ring signatures) is written from the Monero specification.
"""
import hmac as _hmac
from trezor_crypto import trezor_cfunc as tc

tc.open_lib()

L = 2 ** 252 + 27742317777372353535851937790883648493
P25519 = 2 ** 255 - 19


class RefError(Exception):
    pass


# ---------------------------------------------------------------- primitives
def keccak(b):
    return tc.xmr_fast_hash_r(bytes(b))


def sc(i):
    return tc.expand256_modm_r(tc.KEY_BUFF(*((i % L).to_bytes(32, "little"))), 32)


def b2i(b):
    return int.from_bytes(b, "little")


def i2b(i):
    return (i % L).to_bytes(32, "little")


def hs(b):
    return b2i(keccak(b)) % L


def dec(b):
    b = bytes(b)
    if len(b) != 32:
        raise RefError("point length")
    try:
        return tc.ge25519_unpack_vartime_r(tc.KEY_BUFF(*b))
    except ValueError:
        raise RefError("point decoding")


def enc(p):
    return bytes(tc.ge25519_pack_r(p))


def G(i):
    return tc.ge25519_scalarmult_base_wrapper_r(sc(i))


def mul(p, i):
    return tc.ge25519_scalarmult_r(p, sc(i))


def add(a, b):
    return tc.ge25519_add_r(a, b, 0)


def sub(a, b):
    return tc.ge25519_add_r(a, b, 1)


def eq(a, b):
    return enc(a) == enc(b)


def ident():
    return tc.ge25519_set_neutral_r()


IDENT = b"\x01" + b"\x00" * 31
H = tc.ge25519_set_xmr_h_r()
HB = enc(H)
INV8 = pow(8, L - 2, L)


def hp(b):
    return tc.xmr_hash_to_ec_r(bytes(b))


def two(p, a, q, b):
    """a*p + b*q"""
    return tc.xmr_add_keys3_vartime_r(sc(a), p, sc(b), q)


def gpq(a, b, q):
    """a*G + b*q"""
    return tc.xmr_add_keys2_vartime_r(sc(a), sc(b), q)


def commit(mask, amount):
    return gpq(mask, amount, H)


def valid_point(b):
    try:
        p = dec(b)
    except RefError:
        return False
    return tc.ge25519_check(p) == 1


def in_subgroup(b):
    p = dec(b)
    # (L-1)*P + P == identity, scalars are reduced mod L
    return enc(add(mul(p, L - 1), p)) == IDENT


def varint(n):
    out = bytearray()
    while n >= 0x80:
        out.append(n & 0x7F | 0x80)
        n >>= 7
    out.append(n)
    return bytes(out)


# ---------------------------------------------------------------- addresses
class Wallet(object):
    """Key material of one simulated user"""

    def __init__(self, spend, view):
        self.b, self.a = spend % L, view % L
        self.B, self.A = enc(G(self.b)), enc(G(self.a))
        self._subs = {}

    def sub_secret(self, major, minor):
        if major == 0 and minor == 0:
            return 0
        data = b"SubAddr\x00" + i2b(self.a) + major.to_bytes(4, "little") + minor.to_bytes(4, "little")
        return hs(data)

    def addr(self, major=0, minor=0):
        """(spend pub, view pub) encoded"""
        if (major, minor) == (0, 0):
            return self.B, self.A
        D = add(dec(self.B), G(self.sub_secret(major, minor)))
        return enc(D), enc(mul(D, self.a))

    def spend_secret(self, major, minor):
        return (self.b + self.sub_secret(major, minor)) % L

    def table(self, pairs):
        for p in pairs:
            if p not in self._subs:
                self._subs[p] = self.addr(*p)[0]
        return {self._subs[p]: p for p in pairs}


B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
_B58L = [0, 2, 3, 5, 6, 7, 9, 10, 11]


def b58(data):
    out = ""
    for i in range(0, len(data), 8):
        blk = data[i:i + 8]
        n = int.from_bytes(blk, "big")
        s = ""
        for _ in range(_B58L[len(blk)]):
            n, r = divmod(n, 58)
            s = B58[r] + s
        out += s
    return out.encode()


NET = {0: (18, 19, 42), 1: (53, 54, 63), 2: (24, 25, 36)}


def address_str(spend, view, is_sub=False, pid=None, net=1):
    tags = NET[net]
    tag = tags[2] if is_sub else (tags[1] if pid else tags[0])
    d = bytes([tag]) + bytes(spend) + bytes(view) + (bytes(pid) if pid else b"")
    return b58(d + keccak(d)[:4])


def derivation(pub, sec):
    """8 * sec * pub"""
    return enc(mul(mul(dec(pub), sec), 8))


def der_scalar(der, idx):
    return hs(der + varint(idx))


def key_image(pub, sec):
    return enc(mul(hp(pub), sec))


# ---------------------------------------------------------------- parsing
class Rd(object):
    def __init__(self, b):
        self.b, self.o = bytes(b), 0

    def take(self, n):
        if self.o + n > len(self.b):
            raise RefError("short tx")
        r = self.b[self.o:self.o + n]
        self.o += n
        return r

    def u8(self):
        return self.take(1)[0]

    def varint(self):
        r = s = 0
        while True:
            x = self.u8()
            r |= (x & 0x7F) << s
            s += 7
            if not x & 0x80:
                return r
            if s > 70:
                raise RefError("varint")

    def keys(self, n):
        return [self.take(32) for _ in range(n)]


class Tx(object):
    pass


def parse_tx(blob):
    r = Rd(blob)
    t = Tx()
    t.version = r.varint()
    t.unlock_time = r.varint()
    t.vin = []
    for _ in range(r.varint()):
        if r.u8() != 2:
            raise RefError("vin type")
        amount = r.varint()
        offs = [r.varint() for _ in range(r.varint())]
        t.vin.append((amount, offs, r.take(32)))
    t.vout = []
    for _ in range(r.varint()):
        amount = r.varint()
        if r.u8() != 2:
            raise RefError("vout type")
        t.vout.append((amount, r.take(32)))
    t.extra = r.take(r.varint())
    t.prefix = r.b[:r.o]
    base = r.o
    t.type = r.u8()
    if t.type not in (3, 4):
        raise RefError("rct type %s" % t.type)
    t.fee = r.varint()
    t.ecdh = [r.take(8 if t.type == 4 else 64) for _ in t.vout]
    t.outpk = r.keys(len(t.vout))
    t.base = r.b[base:r.o]
    nbp = r.varint() if t.type == 4 else int.from_bytes(r.take(4), "little")
    if nbp > 64:
        raise RefError("nbp")
    t.bps = [parse_bp(r) for _ in range(nbp)]
    t.mgs = []
    for v in t.vin:
        ss = [r.keys(2) for _ in range(len(v[1]))]
        t.mgs.append((ss, r.take(32)))
    t.pseudo = r.keys(len(t.vin))
    if r.o != len(r.b):
        raise RefError("trailing data")
    return t


def parse_bp(r):
    d = {}
    for k in ("A", "S", "T1", "T2", "taux", "mu"):
        d[k] = r.take(32)
    d["L"] = r.keys(r.varint())
    d["R"] = r.keys(r.varint())
    for k in ("a", "b", "t"):
        d[k] = r.take(32)
    return d


def parse_bp_blob(b):
    # bytes after the proof carry nothing: neither the transaction nor the signed message contains them
    return parse_bp(Rd(b))


def bp_kv(bp):
    return b"".join([bp["A"], bp["S"], bp["T1"], bp["T2"], bp["taux"], bp["mu"]] + bp["L"] + bp["R"]
                    + [bp["a"], bp["b"], bp["t"]])


def parse_extra(extra):
    r = Rd(extra)
    res = {"pub": [], "nonce": [], "additional": None}
    while r.o < len(r.b):
        tag = r.u8()
        if tag == 1:
            res["pub"].append(r.take(32))
        elif tag == 2:
            res["nonce"].append(r.take(r.varint()))
        elif tag == 4:
            res["additional"] = r.keys(r.varint())
        else:
            raise RefError("extra tag %s" % tag)
    return res


def full_message(t):
    return keccak(keccak(t.prefix) + keccak(t.base) + keccak(b"".join(bp_kv(x) for x in t.bps)))


# ---------------------------------------------------------------- MLSAG
def verify_mlsag(msg, ring, ki, mg, pseudo):
    """ring: list of (dest, commitment) encoded; two-row MLSAG (simple)"""
    ss, cc = mg
    if len(ss) != len(ring) or not ring:
        return False
    for s in ss:
        if any(b2i(x) >= L for x in s):
            return False
    if b2i(cc) >= L:
        return False
    if ki == IDENT or not valid_point(ki) or not in_subgroup(ki):
        return False
    I = dec(ki)
    po = dec(pseudo)
    c = b2i(cc)
    for i, (dest, com) in enumerate(ring):
        P = dec(dest)
        s0, s1 = b2i(ss[i][0]), b2i(ss[i][1])
        l0 = enc(gpq(s0, c, P))
        r0 = enc(two(hp(dest), s0, I, c))
        dif = sub(dec(com), po)
        l1 = enc(gpq(s1, c, dif))
        c = hs(msg + dest + l0 + r0 + enc(dif) + l1)
        if c == 0:
            return False
    return c == b2i(cc)


def verify_ki_sig(ki, pub, sig):
    """single-member ring signature proving the key image; sig = (c, r) encoded. prefix hash = key image"""
    c, r = b2i(sig[0]), b2i(sig[1])
    if c >= L or r >= L or not valid_point(ki) or not in_subgroup(ki) or ki == IDENT:
        return False
    P, I = dec(pub), dec(ki)
    a = enc(gpq(r, c, P))
    b = enc(two(hp(pub), r, I, c))
    return hs(ki + a + b) == c


# ---------------------------------------------------------------- bulletproof
_GENS = {}


def gens(n):
    for i in range(len(_GENS), n):
        h = hp(keccak(HB + b"bulletproof" + varint(2 * i)))
        g = hp(keccak(HB + b"bulletproof" + varint(2 * i + 1)))
        _GENS[i] = (g, h)
    return _GENS


def bp_rounds(bp, coms):
    """the challenges of the inner product rounds"""
    cache = hs(b"".join(enc(mul(dec(x), INV8)) for x in coms))
    y = hs(i2b(cache) + bp["A"] + bp["S"])
    z = hs(i2b(y))
    x = hs(i2b(z) + i2b(z) + bp["T1"] + bp["T2"])
    cache = hs(i2b(x) + i2b(x) + bp["taux"] + bp["mu"] + bp["t"])
    out = []
    for l, r in zip(bp["L"], bp["R"]):
        cache = hs(i2b(cache) + l + r)
        out.append(cache)
    return out


def verify_bp(bp, coms):
    """coms: encoded commitments (outPk masks) covered by this proof"""
    if not coms:
        return False
    rounds = len(bp["L"])
    if len(bp["R"]) != rounds or rounds < 6:
        return False
    M = 1
    while M < len(coms):
        M *= 2
    MN = M * 64
    if MN != 1 << rounds or M > 16:
        return False
    for k in ("taux", "mu", "a", "b", "t"):
        if b2i(bp[k]) >= L:
            return False
    try:
        pts = {k: mul(dec(bp[k]), 8) for k in ("A", "S", "T1", "T2")}
        Ls = [mul(dec(x), 8) for x in bp["L"]]
        Rs = [mul(dec(x), 8) for x in bp["R"]]
    except RefError:
        return False
    V = [enc(mul(dec(x), INV8)) for x in coms]

    cache = hs(b"".join(V))

    def mash(*xs):
        nonlocal cache
        cache = hs(i2b(cache) + b"".join(xs))
        return cache

    y = mash(bp["A"], bp["S"])
    z = hs(i2b(y))
    cache = z
    x = mash(i2b(z), bp["T1"], bp["T2"])
    xip = mash(i2b(x), bp["taux"], bp["mu"], bp["t"])
    w = [mash(bp["L"][i], bp["R"][i]) for i in range(rounds)]
    if 0 in (y, z, x, xip) or 0 in w:
        return False
    winv = [pow(k, L - 2, L) for k in w]
    t, taux, mu, a, b = (b2i(bp[k]) for k in ("t", "taux", "mu", "a", "b"))

    ypow = [1] * MN
    for i in range(1, MN):
        ypow[i] = ypow[i - 1] * y % L
    ip1y = sum(ypow) % L
    ip12 = (1 << 64) - 1
    zp = [1]
    for _ in range(M + 3):
        zp.append(zp[-1] * z % L)
    k = -(zp[2] * ip1y)
    for j in range(1, M + 1):
        k -= zp[j + 2] * ip12
    k %= L

    lhs = gpq(taux, (t - k - z * ip1y) % L, H)
    rhs = two(pts["T1"], x, pts["T2"], x * x % L)
    for j, v in enumerate(V):
        rhs = add(rhs, mul(mul(dec(v), 8), zp[j + 2]))
    if not eq(lhs, rhs):
        return False

    yinv = pow(y, L - 2, L)
    yi = 1
    gs = gens(MN)
    acc = ident()
    for i in range(MN):
        g = a
        h = b * yi % L
        for j in range(rounds):
            J = rounds - j - 1
            if i & (1 << j):
                g = g * w[J] % L
                h = h * winv[J] % L
            else:
                g = g * winv[J] % L
                h = h * w[J] % L
        g = (g + z) % L
        h = (h - (z * ypow[i] + zp[2 + i // 64] * pow(2, i % 64, L)) * yi) % L
        acc = add(acc, two(gs[i][0], g, gs[i][1], h))
        yi = yi * yinv % L
    # A + xS - mu G + sum(w^2 L + w^-2 R) + (t - ab) x_ip H - acc == 0
    s = add(pts["A"], mul(pts["S"], x))
    s = sub(s, G(mu))
    for i in range(rounds):
        s = add(s, two(Ls[i], w[i] * w[i] % L, Rs[i], winv[i] * winv[i] % L))
    s = add(s, mul(H, (t - a * b) % L * xip % L))
    return eq(s, acc)


# ---------------------------------------------------------------- output scanning
def open_output(t, i, wal, pairs, rpub, addit):
    """Tries to receive output i.  Returns (subaddr pair, amount, mask, der) or None"""
    tab = wal.table(pairs)
    key = t.vout[i][1]
    cands = [rpub]
    if addit is not None and i < len(addit):
        cands.append(addit[i])
    for R in cands:
        try:
            der = derivation(R, wal.a)
        except RefError:
            continue
        s = der_scalar(der, i)
        spend = enc(sub(dec(key), G(s)))
        if spend not in tab:
            continue
        amount, mask = decode_ecdh(t, i, s)
        return tab[spend], amount, mask, der
    return None


def decode_ecdh(t, i, s):
    ak = i2b(s)
    e = t.ecdh[i]
    if t.type == 4:
        mask = hs(b"commitment_mask" + ak)
        k = keccak(b"amount" + ak)[:8]
        amount = b2i(bytes(x ^ y for x, y in zip(e, k)))
        return amount, mask
    h1 = hs(ak)
    h2 = hs(i2b(h1))
    mask = (b2i(e[:32]) - h1) % L
    amount = (b2i(e[32:]) - h2) % L
    return amount, mask


def payment_id(extra, wal, rpub):
    """list of (kind, plain id) this receiver reads from the extra"""
    res = []
    for n in extra["nonce"]:
        if len(n) == 33 and n[0] == 0:
            res.append(("long", n[1:]))
        elif len(n) == 9 and n[0] == 1:
            der = derivation(rpub, wal.a)
            k = keccak(der + b"\x8d")[:8]
            res.append(("short", bytes(a ^ b for a, b in zip(n[1:], k))))
        else:
            res.append(("other", n))
    return res


def hmac256(key, msg, dig=None):
    import hashlib
    return _hmac.new(key, msg, hashlib.sha256).digest()
