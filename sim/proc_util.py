"""Monero's binary storage format and block format, as the daemon writes them"""
import hashlib
import struct

SIG = bytes.fromhex("011101010101020101")


def varint(n):
    """of the storage format: two low bits are the size"""
    for mark, size, top in ((0, 1, 6), (1, 2, 14), (2, 4, 30), (3, 8, 62)):
        if n < 1 << top:
            return (n << 2 | mark).to_bytes(size, "little")
    raise ValueError(n)


def uv(n):
    out = b""
    while n >= 0x80:
        out += bytes([n & 0x7F | 0x80])
        n >>= 7
    return out + bytes([n])


def section(fields):
    out = varint(len(fields))
    for k, v in fields:
        out += bytes([len(k)]) + k
        if isinstance(v, bool):
            out += b"\x0b" + bytes([v])
        elif isinstance(v, bytes):
            out += b"\x0a" + varint(len(v)) + v
        elif isinstance(v, int):
            out += b"\x05" + struct.pack("<Q", v)
        elif v and isinstance(v[0], list):
            out += b"\x8c" + varint(len(v)) + b"".join(section(x) for x in v)
        else:
            out += b"\x85" + varint(len(v)) + b"".join(struct.pack("<Q", x) for x in v)
    return out


def pack_section(fields):
    return SIG + section(fields)


def rd(b, i):
    mark = b[i] & 3
    size = 1 << mark
    return int.from_bytes(b[i:i + size], "little") >> 2, i + size


def unpack_heights(b):
    """the heights of a getblocks_by_height request"""
    assert b[:9] == SIG, b[:12].hex()
    n, i = rd(b, 9)
    assert n == 1
    k = b[i]
    assert b[i + 1:i + 1 + k] == b"heights"
    i += 1 + k
    t = b[i]
    size = {0x85: 8, 0x86: 4, 0x87: 2, 0x88: 1}[t]
    n, i = rd(b, i + 1)
    out = [int.from_bytes(b[i + j * size:i + (j + 1) * size], "little") for j in range(n)]
    assert i + n * size == len(b)
    return out


def block_blob(h, ts, seed):
    d = lambda s: hashlib.sha256(b"%d/%d/%s" % (seed, h, s)).digest()
    out = uv(7) + uv(7) + uv(ts) + d(b"prev") + d(b"n")[:4]
    out += uv(2) + uv(h + 60) + uv(1) + b"\xff" + uv(h)          # miner transaction
    out += uv(1) + uv(600000000000 + h) + b"\x02" + d(b"key")
    out += uv(33) + b"\x01" + d(b"pub")
    out += b"\x00"
    n = d(b"c")[0] % 4
    return out + uv(n) + b"".join(d(b"%d" % j) for j in range(n))
