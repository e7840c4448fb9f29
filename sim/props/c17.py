"""C17: a range proof computed together with a host is valid, survives power cuts and never repeats its secrets"""
import copy
import random

from sim import boot, ref
from sim.core import Violation

LEVEL = "exploration"
RUNS = {"quick": 260, "thorough": 6000}
CAP = {"quick": 110, "thorough": 780}
RULE = ("A run lets one to three devices compute range proofs together with hosts in one process, message by message "
        "in a drawn order, with all outsourcing methods and thresholds. The device is rebuilt from its dumped state "
        "at drawn messages (thorough and default: all), loses power or its random source in the middle of a step and "
        "is resumed from the last dumped state, or forgets everything; messages are damaged, repeated, swapped with "
        "another session's or cut. Non-trivial: a proof came out; distinct by the digest of all messages.")
SHAPE = "(outputs, method, thresholds, faults, order of the sessions, outcome)"
REAL = ["device side of the outsourced Bulletproof prover", "host side (BulletproofClient)", "range proof verifier",
        "message coding of the proof", "EC library"]
STUB = ["transport (messages copied)", "device's storage (dumped state copied)", "random source (seeded)"]
ASSUME = ["curve arithmetic and keccak of the installed trezor-crypto C library are correct (shared with the oracle)",
          "the host's batch divides the vectors of every round it sends in pieces (other settings are a configuration "
          "error)"]

def conf(rng, m):
    MN = 64 * m
    meth = rng.choice([0, 1, 2, 3, 3])
    b = rng.choice([4, 8, 16, 16, 32, 32, 64])
    while b > MN // 4:
        b //= 2
    if meth == 0:
        th = rng.choice([16, 32, 64, 128])
        while th < b:
            th *= 2
    else:
        th = rng.choice([8, 16, 32, 64, 128])
    return {"method": meth, "nprime": th, "off2": rng.choice([x for x in (8, 16, 32, 64) if x <= th]), "batch": b}


FAULTS = ["flip-req", "flip-res", "dup", "stale", "foreign", "cut", "rng", "rng", "rng", "power", "power", "kill",
          "abandon"]


def plan(rng, tier, i):
    n = rng.choice([1, 1, 2, 2, 3])
    same = rng.random() < 0.5
    secs = [[[rng.choice([0, 1, 2, (1 << 64) - 1, 1 << 63, rng.getrandbits(64), rng.getrandbits(20)]),
              rng.getrandbits(250)] for _ in range(8)] for _ in range(n)]
    if same:
        secs = [copy.deepcopy(secs[0]) for _ in range(n)]
    ses = []
    for k in range(n):
        m = rng.choice([1, 1, 1, 2, 2, 2, 4] + ([8] if i % 9 == 4 else []))
        c = conf(rng, m)
        c.update(m=m, secrets=secs[k][:m], faults=[], dump=rng.choice([1.0, 1.0, 0.5]))
        for _ in range(rng.choice([0, 1, 1, 2])):
            c["faults"].append([rng.randint(0, rng.choice([4, 12, 30])), rng.choice(FAULTS), rng.getrandbits(30)])
        ses.append(c)
    return {"sessions": ses, "order": [rng.randrange(n) for _ in range(12)], "r": rng.getrandbits(30)}


def shrink(plan):
    for k in range(len(plan["sessions"])):
        if len(plan["sessions"]) > 1:
            p = copy.deepcopy(plan)
            del p["sessions"][k]
            p["order"] = [x if x < k else x - 1 for x in p["order"] if x != k]
            yield p
        for j in range(len(plan["sessions"][k]["faults"])):
            p = copy.deepcopy(plan)
            del p["sessions"][k]["faults"][j]
            yield p
    if plan["order"]:
        yield dict(plan, order=plan["order"][:len(plan["order"]) // 2])
    for k, s in enumerate(plan["sessions"]):
        for key, v in (("m", 1), ("dump", 0.0)):
            if s[key] != v and (key != "m" or s["batch"] <= 16):
                p = copy.deepcopy(plan)
                p["sessions"][k][key] = v
                p["sessions"][k]["secrets"] = p["sessions"][k]["secrets"][:max(1, p["sessions"][k]["m"])]
                yield p


class Down(Exception):
    pass


class Turn(object):
    """gives the scheduler its turn"""

    def __await__(self):
        yield self


class Device(object):
    """one proof; all state is what dump_state returned"""

    def __init__(self, c, st):
        self.c, self.st, self.b, self.saved, self.steps = c, st, None, None, 0

    def build(self):
        from monero_glue.xmr import bulletproof as bp
        return bp.BulletProofBuilder()

    def step(self, p1, p2, params, buffers):
        from monero_glue.xmr import crypto
        if p1 == 0:
            b = self.build()
            b.off_method, b.nprime_thresh, b.off2_thresh, b.batching = params
            sv = [crypto.sc_init(v) for v, _ in self.c["secrets"]]
            gm = [crypto.decodeint(ref.i2b(g % ref.L)) for _, g in self.c["secrets"]]
            res = b.prove_batch_off(sv, gm, buffers)
        else:
            b = self.b
            if self.saved is not None:
                b = self.build()
                b.load_state(stored(self.saved))
            if b is None:
                raise Down("no state")
            self.b = None
            res = b.prove_batch_off_step(buffers)
        self.steps += 1
        if not (isinstance(res, tuple) and len(res) == 2 and res[0] == 1):
            res = vec(res)
        return b, res

    def keep(self, b, dump):
        if dump:
            self.saved, self.b = b.dump_state(), None
        else:
            self.saved, self.b = None, b


def stored(state):
    return copy.deepcopy(state, {})


copy._deepcopy_dispatch[memoryview] = lambda x, memo: memoryview(bytearray(x))


def vec(x):
    if isinstance(x, (bytes, bytearray, memoryview)):
        return bytearray(x)
    if isinstance(x, (list, tuple)):
        return type(x)(vec(y) for y in x)
    return x


def leaves(x):
    if isinstance(x, (bytes, bytearray)):
        return [x]
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in leaves(y)]
    return []


class Session(object):
    def __init__(self, k, c, run):
        self.k, self.c, self.run, self.st = k, c, run, run.st
        self.n = 0
        self.dev = Device(c, run.st)
        self.disturbed, self.fatal, self.out, self.err = [], False, None, None
        self.last, self.sent, self.rng = None, [], random.Random(c["faults"].__len__() * 7 + k)
        self.lr = [bytearray(), bytearray()]
        self.consts = []

    def fault(self):
        for at, what, r in self.c["faults"]:
            if at == self.n:
                return what, random.Random(r)
        return None, None

    def damage(self, x, r, how):
        x = vec(x)
        ls = [l for l in leaves(x) if len(l)]
        if not ls:
            return x
        l = r.choice(ls)
        if how == "cut":
            del l[-r.choice([1, 16, 32, 64]):]
        else:
            l[r.randrange(len(l))] ^= 1 << r.randrange(8)
        return x

    async def messenger(self, p1=0, p2=0, params=None, buffers=None):
        from monero_glue.hwtoken import misc as tmisc
        await Turn()
        what, r = self.fault()
        n, st = self.n, self.st
        self.n += 1
        req = vec(buffers)
        if what:
            self.disturbed.append(what)
            st.fault(what)
        if what == "abandon":
            self.fatal = True
            raise Down("host gave up")
        if what == "kill":
            self.dev.b = self.dev.saved = None
            self.fatal = True
        if what in ("flip-req", "cut"):
            req2 = self.damage(req, r, what)
            self.fatal = self.fatal or req2 != req
            req = req2
        if what == "foreign":
            o = [s for s in self.run.sessions if s is not self and s.sent]
            if o:
                req = vec(r.choice(r.choice(o).sent))
                self.fatal = True
        if what in ("rng", "power") and (n == 0 or self.dev.saved is not None):
            # the step is cut off somewhere, the device starts again from what it had stored
            before = self.dev.saved
            if what == "rng":
                boot.ENTROPY.fail_at = boot.ENTROPY.draws + r.randint(1, 12)
            try:
                self.cut_step(p1, p2, params, vec(req), r if what == "power" else None)
            except (boot.RngFault, Cutoff):
                st.count("steps-cut")
            finally:
                boot.ENTROPY.fail_at = None
            self.dev.saved, self.dev.b = before, None
        self.sent.append(vec(req))
        b, res = self.dev.step(p1, p2, params, req)
        if what == "dup":
            self.dev.keep(b, self.dump())
            self.fatal = True
            b, res = self.dev.step(p1 or 1, 0, None, vec(buffers))
        fin = isinstance(res, tuple) and len(res) == 2 and res[0] == 1
        if fin:
            res = await self.pack(res[1])
        else:
            self.dev.keep(b, self.dump())
        if isinstance(res, tuple) and res and isinstance(res[0], int):
            raise Down("device failed")
        msg = None
        if res:
            msg = list(res) if isinstance(res, (list, tuple)) else [res]
        if what is None and self.n <= 64 * self.c["m"] // self.c["batch"] and not self.fatal:
            for i in (0, 1):
                for x in leaves(msg[i]):
                    self.lr[i] += x
        if msg and len(msg) == 16 and self.c["method"] >= 2 and all(len(x) == 32 for x in msg):
            self.consts.append([ref.b2i(bytes(x)) for x in msg])
        out = vec(msg)
        if what == "flip-res" and msg:
            out = self.damage(msg, r, what)
            self.fatal = True
        if what == "stale" and self.last is not None:
            self.fatal, out = True, self.last
        self.last = vec(out)
        st.ev(self.k, n, p1, what, [bytes(x).hex()[:64] for x in leaves(msg)[:4]])
        return out

    def cut_step(self, p1, p2, params, req, r):
        if r is None:
            self.dev.step(p1, p2, params, req)
            return
        from monero_glue.xmr import bulletproof as bp
        left = [r.randint(0, 120)]
        orig = {}

        def wrap(f):
            def g(*a, **k):
                left[0] -= 1
                if left[0] < 0:
                    raise Cutoff()
                return f(*a, **k)
            return g
        for name in ("_scalarmult_key", "_add_keys", "_sc_mul", "_sc_muladd", "_invert", "_hash_cache_mash"):
            if hasattr(bp, name):
                orig[name] = getattr(bp, name)
                setattr(bp, name, wrap(orig[name]))
        try:
            self.dev.step(p1, p2, params, req)
        finally:
            for name, f in orig.items():
                setattr(bp, name, f)

    def dump(self):
        return self.c["dump"] >= 1 or self.rng.random() < self.c["dump"]

    async def pack(self, B):
        from monero_glue.hwtoken import misc as tmisc
        from monero_glue.xmr.bulletproof_cl import BulletproofFull
        f = BulletproofFull()
        for a in BulletproofFull.__slots__:
            setattr(f, a, getattr(B, a))
        return bytes(await tmisc.dump_msg(f))

    async def go(self):
        from monero_glue.xmr.bulletproof_cl import BulletproofClient
        c = self.c
        cl = BulletproofClient(c["m"], messenger=self.messenger)
        cl.off_method, cl.nprime_thresh, cl.off2_thresh, cl.batching = c["method"], c["nprime"], c["off2"], c["batch"]
        self.out = await cl.compute_bp()


class Cutoff(Exception):
    pass


class Run(object):
    def __init__(self, plan, st):
        self.st = st
        self.sessions = [Session(k, c, self) for k, c in enumerate(plan["sessions"])]
        self.rng = random.Random(plan["r"])
        self.order = list(plan["order"])

    def drive(self):
        live = {s.k: s.go() for s in self.sessions}
        cur = None
        trace = []
        while live:
            if self.order:
                k = self.order.pop(0)
            else:
                k = cur if cur in live and self.rng.random() < 0.6 else self.rng.choice(sorted(live))
            if k not in live:
                continue
            cur = k
            trace.append(k)
            try:
                live[k].send(None)
            except StopIteration:
                del live[k]
            except Violation:
                raise
            except Exception as e:
                self.sessions[k].err = e
                del live[k]
        return trace


def execute(plan, st):
    from monero_glue.xmr import bulletproof as bp
    run = Run(plan, st)
    run.drive()
    again = []
    seen = {}
    for s in run.sessions:
        judge(s, st, bp, seen)
        if s.out is None or s.fatal:
            again.append(s)
    # whatever happened, the next proof is fine
    for s in again:
        c = dict(copy.deepcopy(s.c), faults=[])
        r2 = Run({"sessions": [c], "order": [], "r": 1}, st)
        r2.drive()
        st.count("tried-again")
        judge(r2.sessions[0], st, bp, seen)
    st.shape([(s.c["m"], s.c["method"], s.c["nprime"], s.c["off2"], s.c["batch"], s.disturbed, s.out is not None)
              for s in run.sessions], plan["order"][:6])
    st.sim_time += 0.4 * st.steps


def judge(s, st, bp, seen):
    c = s.c
    who = "proof of %d amounts, method %d, thresholds %d/%d, batch %d" % (c["m"], c["method"], c["nprime"], c["off2"],
                                                                      c["batch"])
    if s.out is None:
        if not s.fatal:
            raise Violation("refused", "%s failed: %s: %s (disturbed by %s)" % (who, type(s.err).__name__, s.err,
                                                                              s.disturbed))
        st.count("failed-by-disturbance")
        return
    d = {}
    for k in ("A", "S", "T1", "T2", "taux", "mu", "a", "b", "t"):
        d[k] = bytes(getattr(s.out, k))
    d["L"] = [bytes(x) for x in s.out.L]
    d["R"] = [bytes(x) for x in s.out.R]
    V = [bytes(x) for x in s.out.V]
    coms = [ref.enc(ref.commit(g % ref.L, v)) for v, g in c["secrets"]]
    mine = [ref.enc(ref.mul(ref.dec(x), ref.INV8)) for x in coms]
    good = ref.verify_bp(d, coms)
    try:
        said = bool(bp.BulletProofBuilder().verify_batch([s.out]))
    except Exception as e:
        said = False
        st.count("verifier-raised")
    if said and V == mine and not good:
        raise Violation("verifier", "%s: the verifier accepts an invalid proof (disturbed by %s)" % (who, s.disturbed))
    if good and V == mine and not said:
        raise Violation("verifier", "%s: the verifier rejects a valid proof" % who)
    if not s.fatal:
        if V != mine:
            raise Violation("commitments", "%s: is not about the device's amounts" % who)
        if not good:
            raise Violation("invalid", "%s: is not valid (disturbed by %s)" % (who, s.disturbed))
        # blinded vectors are not the bare ones
        l, r = s.lr
        if len(l) == len(r) == 32 * 64 * c["m"]:
            t = sum(ref.b2i(bytes(l[i:i + 32])) * ref.b2i(bytes(r[i:i + 32])) for i in range(0, len(l), 32)) % ref.L
            if t == ref.b2i(d["t"]):
                raise Violation("unblinded", "%s: the vectors sent to the host are not blinded" % who)
            st.count("blinding-checked")
        blinds(s, ref.bp_rounds(d, coms), who, st)
    elif good and V == mine:
        st.count("valid-in-spite-of-disturbance")
    else:
        st.count("invalid-by-disturbance")
    # nothing random is ever the same in two proofs
    for k in ("A", "S", "T1", "T2", "taux", "mu"):
        fresh(seen, d[k], s, who, k)
    for x in s.lr:
        for i in range(0, len(x), 32):
            fresh(seen, bytes(x[i:i + 32]), s, who, "l, r")
    st.count("proofs")


def fresh(seen, v, s, who, what):
    if s.fatal and what != "A":
        return
    o = seen.setdefault(v, s)
    if o is not s:
        raise Violation("repeated", "%s: %s equals a value of another proof" % (who, what))


def blinds(s, ws, who, st):
    """the folding constants handed to the host never carry the same blind twice, nor none"""
    L = ref.L
    if not s.consts:
        return
    for vi, start in ((2, 0), (3, 0), (0, 1), (1, 1)):
        known = None
        for k in range(start, len(s.consts)):
            w = ws[k]
            wi = pow(w, L - 2, L)
            x = (w, wi) if vi in (1, 2) else (wi, w)
            q = [s.consts[k][4 * vi + j] * pow(x[j % 2], L - 2, L) % L for j in range(4)]
            if 0 in q:
                raise Violation("unblinded", "%s: zero folding constant" % who)
            # q0 = m0/b0, q1 = m0/b1, q2 = m1/b0, q3 = m1/b1
            if q[0] * q[3] % L != q[1] * q[2] % L:
                raise Violation("constants", "%s: inconsistent folding constants in round %d" % (who, k))
            if known is None:
                known = [1, q[0] * pow(q[1], L - 2, L) % L]
                if 1 in q:
                    raise Violation("unblinded", "%s: a folding constant is not blinded" % who)
            b0 = known[-2]
            known += [q[0] * b0 % L, q[2] * b0 % L]
        if known and len(set(known)) != len(known):
            raise Violation("repeated-blind", "%s: a blind of vector %d was used twice" % (who, vi))
    st.count("blinds-checked")
