"""C10: messages survive the wire exactly, and a cut or broken stream is never taken for a message"""
import copy
import random

from sim import core, pb
from sim.core import Violation
from sim.device import run

LEVEL = "exploration"
RUNS = {"quick": 4000, "thorough": 60000}
CAP = {"quick": 70, "thorough": 700}
WARM = ["monero_glue.messages", "monero_glue.protocol_base.messages", "monero_glue.protobuf", "sim.pb"]
RULE = ("A run sends drawn messages of drawn types through a simulated stream with drawn faults: the stream ends or the "
        "connection breaks at a drawn byte (reported as an error, as a short count or as nothing read), bits flip, "
        "fields of newer firmware are mixed in, fields arrive in another order, several messages are encoded while a "
        "write fails. Encoded bytes and decoded values are compared with a separate codec. Non-trivial: at least one "
        "fault fired; distinct by the digest of the streams.")
SHAPE = "(message type, fault, position class)"
REAL = ["protobuf codec (dump_message, load_message)", "message classes", "message type table"]
STUB = ["stream (simulated)"]
ASSUME = ["the message descriptions (tags and types of the fields) are the specification"]


def types():
    from monero_glue import messages as M, protobuf as p
    return sorted(n for n in dir(M) if isinstance(getattr(M, n), type) and issubclass(getattr(M, n), p.MessageType)
                  and n != "MessageType" and hasattr(getattr(M, n), "get_fields"))


_T = None


def all_types():
    global _T
    if _T is None:
        _T = types()
    return _T


FAULTS = ["none", "cut", "cut", "cut", "flip", "unknown", "order", "twice", "writefail", "garbage", "envelope", "bool"]


def plan(rng, tier, i):
    return {"msgs": [[rng.random(), rng.randint(0, 1 << 40), rng.choice(FAULTS), rng.randint(0, 1 << 30),
                      rng.choice(["eof", "short", "zero"])] for _ in range(8)]}


shrink = core.shrink_with_spec(("msgs",), ())


class Stream(object):
    """end of the stream: an error, or a short count as plain readers do"""

    def __init__(self, data, style):
        self.b, self.o, self.style = data, 0, style

    def readinto(self, buf):
        n = min(len(buf), len(self.b) - self.o)
        if n < len(buf) and self.style == "eof":
            raise EOFError
        if n == 0 and len(buf) > 0 and self.style == "short":
            raise EOFError
        buf[:n] = self.b[self.o:self.o + n]
        self.o += n
        return n


class Sink(object):
    def __init__(self, room):
        self.b, self.room = bytearray(), room

    def write(self, buf):
        if self.room is not None and len(self.b) + len(buf) > self.room:
            raise EOFError
        self.b += buf
        return len(buf)


def load(cls, data, style):
    from monero_glue import protobuf
    return run(protobuf.load_message(Stream(data, style), cls))


def same(a, b):
    return a == b


def execute(plan, st):
    from monero_glue import messages as M, protobuf
    from monero_glue.protocol_base import messages as pm
    ts = all_types()
    for which, seed, fault, r, style in plan["msgs"]:
        # the messages of the signing protocol are drawn half of the time
        mon = [t for t in ts if "Monero" in t] + ["Failure"]
        name = mon[int(which * 2 * len(mon))] if which < 0.5 else ts[int((which - 0.5) * 2 * len(ts))]
        cls = getattr(M, name)
        rng = random.Random(r)
        v = pb.gen(random.Random(seed), cls)
        msg = pb.build(cls, v)
        want = pb.encode(cls, v)
        if fault == "writefail":
            k = Sink(rng.randint(0, max(0, len(want) - 1)))
            try:
                run(protobuf.dump_message(k, msg))
            except EOFError:
                st.fault("write-failure")
            else:
                if want:
                    raise Violation("lost-write", "a failed write of %s was not reported" % name)
        k = Sink(None)
        run(protobuf.dump_message(k, msg))
        data = bytes(k.b)
        st.ev(name, fault, style, data)
        if pb.plain(cls, msg) != v:
            raise Violation("modified", "encoding changed the message %s" % name)
        if data != want:
            # another order of the fields is as good
            try:
                if pb.decode(cls, data) != v or len(data) != len(want):
                    raise Violation("encoding", "%s encoded wrongly" % name)
            except (pb.Cut, ValueError, UnicodeDecodeError):
                raise Violation("encoding", "%s encoded wrongly" % name)
        if fault in ("none", "writefail"):
            check(cls, data, v, style, name)
        elif fault == "envelope":
            tid = getattr(M.MessageType, name, None)
            if tid is not None:
                if pm.get_message_type(msg) != tid or pm.get_message_from_type(tid) is not cls:
                    raise Violation("type", "message type of %s" % name)
            check(cls, data, v, style, name)
        elif fault == "cut":
            if not data:
                continue
            at = rng.randrange(len(data))
            part = data[:at]
            try:
                exp = pb.decode(cls, part)
            except (pb.Cut, ValueError):
                exp = None
            st.fault("stream-cut-" + style)
            st.shape(name, "cut", style, exp is None)
            try:
                got = pb.plain(cls, load(cls, part, style))
            except Exception:
                if exp is not None:
                    raise Violation("refused", "complete fields of %s refused" % name)
                continue
            if exp is None:
                raise Violation("truncated", "%s cut after %d of %d bytes was accepted" % (name, at, len(data)))
            if got != exp:
                raise Violation("decoding", "%s decoded wrongly" % name)
        elif fault in ("flip", "garbage"):
            b = bytearray(data)
            if fault == "flip":
                if not b:
                    continue
                for _ in range(rng.choice([1, 1, 3])):
                    b[rng.randrange(len(b))] ^= 1 << rng.randint(0, 7)
            else:
                b += bytes(rng.getrandbits(8) for _ in range(rng.randint(1, 20)))
            b = bytes(b)
            st.fault("stream-" + fault)
            try:
                exp = pb.decode(cls, b)
            except (pb.Cut, ValueError, UnicodeDecodeError):
                exp = None
            st.shape(name, fault, exp is None)
            try:
                got = pb.plain(cls, load(cls, b, style))
            except Exception:
                if exp is not None:
                    raise Violation("refused", "decodable bytes of %s refused" % name)
                continue
            if exp is None:
                raise Violation("accepted", "malformed bytes accepted as %s" % name)
            if got != exp:
                raise Violation("decoding", "%s decoded wrongly" % name)
        elif fault == "unknown":
            ps = [b for _, b in pb.parts(cls, v)]
            tags = [t for t, _, _, _, _ in pb.fields(cls)]
            for _ in range(rng.randint(1, 3)):
                near = [x + (1 << b) for x in tags or [1] for b in range(3, 29)]
                c = (1, 2, 15, 16, 200, 5000, 70000) if rng.random() < 0.4 else near
                t = rng.choice([x for x in c if x not in tags and x < 1 << 29])
                if rng.random() < 0.5:
                    u = pb.varint(t << 3) + pb.varint(rng.getrandbits(rng.randint(1, 64)))
                else:
                    n = rng.choice([0, 1, 100, 200])
                    u = pb.varint(t << 3 | 2) + pb.varint(n) + bytes(rng.getrandbits(8) for _ in range(n))
                ps.insert(rng.randint(0, len(ps)), u)
            st.fault("unknown-field")
            st.shape(name, fault)
            check(cls, b"".join(ps), v, style, name)
        elif fault == "bool":
            # true is any number but zero
            bs = [(t, f) for t, f, k, _, rep in pb.fields(cls) if k == "b" and not rep and v[f] is not None]
            if not bs:
                continue
            rest = [b for n, b in pb.parts(cls, v) if n not in [f for _, f in bs]]
            for t, f in bs:
                v[f] = True
                rest.append(pb.varint(t << 3) + pb.varint(rng.choice([1, 2, 127, 128, 1 << 31, (1 << 64) - 1])))
            st.fault("bool-spelling")
            st.shape(name, fault)
            check(cls, b"".join(rest), v, style, name)
        elif fault == "order":
            ps = pb.parts(cls, v)
            names = sorted(set(n for n, _ in ps))
            rng.shuffle(names)
            ps = sorted(ps, key=lambda x: names.index(x[0]))
            st.fault("field-order")
            st.shape(name, fault)
            check(cls, b"".join(b for _, b in ps), v, style, name)
        elif fault == "twice":
            # a second message decoded afterwards is not influenced by the first one
            v2 = pb.gen(rng, cls)
            st.fault("two-messages")
            st.shape(name, fault)
            a = load(cls, data, style)
            b = load(cls, pb.encode(cls, v2), style)
            if pb.plain(cls, b) != v2 or pb.plain(cls, a) != v:
                raise Violation("mixed", "two messages of type %s influence each other" % name)
    st.sim_time += 0.01 * len(plan["msgs"])


def check(cls, data, v, style, name):
    try:
        got = pb.plain(cls, load(cls, data, style))
    except Exception as e:
        raise Violation("refused", "valid bytes of %s refused: %s" % (name, type(e).__name__))
    if got != v:
        raise Violation("decoding", "%s decoded wrongly" % name)
