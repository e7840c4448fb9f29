"""C11: what a device answers never contains, in any form, the secrets it is there to keep"""
import base64
import importlib
import logging

from sim import core, device, kiworld, oracle, ref, world
from sim.core import Violation
from sim.props import c21

LEVEL = "exploration"
RUNS = {"quick": 420, "thorough": 12000}
CAP = {"quick": 120, "thorough": 780}
RULE = ("A run is a drawn run of another check (honest, tampered, rejected, reordered, interrupted, interleaved or failing "
        "sessions of signing and key image export, on one device), all answers of which are searched for secrets: every 32 "
        "bytes of every answer, taken as a scalar, must not be the secret of any public point of the wallet, the transaction or "
        "a signature nonce; no text may spell a secret; session keys stay inside. Non-trivial: answers were searched; distinct "
        "as in the check the run is drawn from.")
SHAPE = "as in the check the run is drawn from"
REAL = ["device (TokenLite, signing, key image export)", "host agent (part of the runs)", "protobuf codec", "EC library"]
STUB = ["host (scripted) or its wallet", "user at the device (scripted)", "random source (seeded)"]
ASSUME = ["a secret is recognised when it appears verbatim, as a scalar or as text; no information flow is measured"]
MEM = 2 << 30
OF = ["c02", "c02", "c02", "c05", "c07", "c04", "c03", "c09", "c09", "c08", "c06", "c01", "c20"]
L = ref.L
TXKEY = "a secret key of the transaction"
KEYS = ("key_master", "key_hmac", "key_enc")


def mod(name):
    return importlib.import_module("sim.props." + name)


def plan(rng, tier, i):
    name = OF[i % len(OF)]
    return {"of": name, "plan": mod(name).plan(rng, tier, i)}


def shrink(plan):
    m = mod(plan["of"])
    if hasattr(m, "shrink"):
        inner = dict(plan["plan"], run_seed=plan.get("run_seed"))
        for c in m.shrink(inner):
            yield dict(plan, plan=c)


def warm():
    for n in set(OF):
        m = mod(n)
        if hasattr(m, "warm"):
            m.warm()


class Keep(logging.Handler):
    def __init__(self):
        super().__init__(logging.INFO)
        self.text = []

    def emit(self, record):
        self.text.append(record.getMessage())


def recording(cls, made):
    init = cls.__init__

    def __init__(self, *a, **kw):
        init(self, *a, **kw)
        made.append(self)
    cls.__init__ = __init__
    return lambda: setattr(cls, "__init__", init)


def leaves(msg, name=""):
    if hasattr(type(msg), "get_fields"):
        for k, v in vars(msg).items():
            yield from leaves(v, name + "." + k)
    elif isinstance(msg, (list, tuple)):
        for x in msg:
            yield from leaves(x, name)
    elif isinstance(msg, (bytes, bytearray, memoryview, str)):
        yield name, msg if isinstance(msg, str) else bytes(msg)
    elif isinstance(msg, int) and not isinstance(msg, bool) and msg >> 64:
        yield name, str(msg)


def session_keys(dev):
    """the keys of the session in progress, found in the device's memory"""
    res, seen, todo = {}, set(), [dev.token]
    while todo and len(seen) < 400:
        o = todo.pop()
        if id(o) in seen or not hasattr(o, "__dict__"):
            continue
        seen.add(id(o))
        for k, v in vars(o).items():
            if k in KEYS and isinstance(v, (bytes, bytearray)) and len(v) == 32:
                res[bytes(v)] = k
            elif type(v).__module__.startswith("monero_glue.protocol"):
                todo.append(v)
    return res


class Search(object):
    def __init__(self):
        self.points = {}        # public point -> name of its secret
        self.known = {}         # secret bytes -> name
        self.keys = {}
        self.tried = {}

    def secret(self, x, name):
        self.known.setdefault(ref.i2b(x % L), name)
        self.points.setdefault(ref.enc(ref.G(x % L)), name)

    def wallet(self, w):
        self.secret(w.b, "the spend key")
        self.secret(w.a, "the view key")

    def output(self, w, o):
        self.secret(o.secret, "the key of an output")
        if o.pair != (0, 0):
            self.secret(w.spend_secret(*o.pair), "the spend key of a subaddress")

    def scalar(self, b):
        """name of the secret these 32 bytes are, or None"""
        if b not in self.tried:
            r = None
            if any(b):
                r = self.known.get(b) or self.keys.get(b)
                if r is None:
                    x = int.from_bytes(b, "little") % L
                    r = self.points.get(ref.enc(ref.G(x)))
            self.tried[b] = r
        return self.tried[b]

    def text(self, t, where):
        low = t.lower()
        for b, name in list(self.known.items()) + list(self.keys.items()):
            for form in (b.hex(), b[::-1].hex(), str(int.from_bytes(b, "little")), repr(b)[2:-1].lower(),
                         base64.b64encode(b).decode().lower()[:40]):
                if len(form) > 20 and form in low:
                    raise Violation("leak", "%s is spelled in %s" % (name, where))

    def blob(self, b, where):
        n = len(b)
        at = range(n - 31) if n <= 200 else sorted(set(range(0, n - 31, 32)) | set(range(n % 32, n - 31, 32)))
        for i in at:
            name = self.scalar(b[i:i + 32])
            if name:
                raise Violation("leak", "%s is in %s" % (name, where))
        for b2, name in list(self.known.items()) + list(self.keys.items()):
            if b2 in b or b2[::-1] in b:
                raise Violation("leak", "%s is in %s" % (name, where))


def nonces(dev, conf, made, se):
    """points of the nonces of all released signatures which can be followed"""
    mine = {s.dest for w in made for s in getattr(w, "srcs", ())}
    found = 0
    for s, c in zip(oracle.sessions(dev.log), conf):
        try:
            acks = s.get("MoneroTransactionSignInputRequest")
            if not acks:
                continue
            s.confirmed = c
            t = oracle.rebuild(s)
            for i, (q, r) in enumerate(acks):
                ring = [(bytes(o.key.dest), bytes(o.key.commitment)) for o in q.src_entr.outputs]
                real = [n for n, x in enumerate(ring) if x[0] in mine]
                if not real:
                    continue
                ss, cc = oracle.parse_mg(bytes(r.signature), len(ring))
                po = bytes(r.pseudo_out) if r.pseudo_out else bytes(q.pseudo_out)
                for k, v in c21.mg_values(ss, cc, ring, real[0], po, (t.full_message_hash, t.vin[i][2])):
                    if "alpha" in k:
                        if v in se.points:
                            raise Violation("leak", "the nonce of a signature is %s" % se.points[v])
                        found += 1
                        se.points[v] = "the nonce of a signature"
        except Violation:
            raise
        except Exception:
            continue
    return found


def execute(plan, st):
    m = mod(plan["of"])
    inner = dict(plan["plan"], run_seed=plan["run_seed"])
    made, keep = [], Keep()
    root = logging.getLogger()
    undo = [recording(world.WTx, made), recording(kiworld.KiWorld, made)]
    device.TAP = tap = []
    call = device.SimDevice._call
    keys, conf = {}, {}

    async def watched(self, kind, fn, msg):
        res = await call(self, kind, fn, msg)
        keys.update(session_keys(self))
        if type(msg).__name__ == "MoneroTransactionInitRequest":
            conf.setdefault(id(self), []).append(self.user.confirmed)
        return res

    device.SimDevice._call = watched
    root.addHandler(keep)
    try:
        m.execute(inner, st)
    except (Violation, oracle.Bad):
        st.count("judged-elsewhere")
    finally:
        root.removeHandler(keep)
        device.SimDevice._call = call
        device.TAP = None
        for u in undo:
            u()
    se = Search()
    se.keys = {k: "the session's " + v for k, v in keys.items()}
    for w in made:
        se.wallet(w.me)
        for o in list(getattr(w, "srcs", ())) + list(getattr(w, "outs", ())):
            if hasattr(o, "secret"):
                try:
                    se.output(w.me, o)
                except TypeError:
                    pass
    devs = []
    for d, kind, q, r in tap:
        if d not in devs:
            devs.append(d)
    st.count("nonces", sum(nonces(d, conf.get(id(d), []), made, se) for d in devs))
    # public points the device itself made: transaction keys and the like
    from_host = set()
    for d, kind, q, r in tap:
        for n, v in leaves(q):
            if isinstance(v, bytes):
                from_host.add(v)
    for d, kind, q, r in tap:
        for n, v in leaves(r):
            if isinstance(v, bytes) and v not in from_host and "extra" in n.split(".")[-1]:
                try:
                    e = ref.parse_extra(v)
                except Exception:
                    continue
                for p in e["pub"] + list(e["additional"] or []):
                    se.points.setdefault(p, TXKEY)
        for n, a, name in (("pseudo_out", getattr(getattr(q, "src_entr", None), "amount", None), "a pseudo output's mask"),
                           ("out_pk", getattr(getattr(q, "dst_entr", None), "amount", None), "an output's mask")):
            v = getattr(r, n, None)
            if v and len(v) in (32, 64) and a is not None and not (a >> 64):
                try:
                    p = ref.enc(ref.sub(ref.dec(bytes(v)[-32:]), ref.mul(ref.H, a)))
                except Exception:
                    continue
                se.points.setdefault(p, name)
    for x in range(1, 9):
        b = ref.i2b(x)
        if se.points.get(ref.enc(ref.G(x))):
            raise Violation("leak", "%s is %d" % (se.points[ref.enc(ref.G(x))], x))
    if ref.enc(ref.ident()) in se.points:
        raise Violation("leak", "%s is zero" % se.points[ref.enc(ref.ident())])
    pubs = {p for p, name in se.points.items() if name == TXKEY}
    to = {bytes(o[2][0]) for w in made if isinstance(w, world.WTx) for o in w.outs if o[4]}
    n = 0
    for d, kind, q, r in tap:
        if type(r).__name__ == "MoneroWatchKey":
            continue            # the one message which is there to give the view key away
        where = type(r).__name__
        for name, v in leaves(r):
            if isinstance(v, str):
                se.text(v, where + name)
            elif not name.endswith("rsig_data.mask") and v not in from_host:
                se.blob(v, where + name)
                if where == "MoneroTransactionFinalAck":
                    for i in range(0, len(v) - 31):
                        for a in to if i % 32 in (0, len(v) % 32) else ():
                            if ref.enc(ref.mul(ref.dec(a), ref.b2i(v[i:i + 32]) % L)) in pubs:
                                raise Violation("leak", "%s is in %s" % (TXKEY, where + name))
            n += 1
    for t in keep.text:
        se.text(t, "the log")
    st.count("answers", len(tap))
    st.count("searched", n)
    st.count("scalars", len(se.tried))
    if not tap:
        st.count("no-answers")
