"""
Adversarial host engine: executes a plan of protocol operations over one device, with the messages of the operations
altered, replayed from other steps or sessions, sessions interleaved, the device restarted or made to fail at
drawn points.  Judges every session of the device by the oracle afterwards.

plan: {"specs": [spec, ...], "ops": [[sess, op, muts], ...]}
op:   protocol op of host.canonical, or ["restart"], ["user", accept], ["replay", n] (resend the n-th message sent),
      ["rng", k] / ["ui", k] (the k-th draw / callback from now fails)
mut:  {"k": kind, "p": [..selectors..], "r": seed}
"""
import random

from sim import device, host, oracle, world
from sim.boot import ENTROPY
from sim.core import Violation
from sim.device import is_failure, run


# a point of order two
TORSION = bytes.fromhex("ec" + "ff" * 30 + "7f")


def _tag(auth, own, origin):
    if auth == "none":
        return None
    if auth == "empty":
        return b""
    if auth == "cut":
        return bytes(own or b"")[:8]
    if auth == "zero":
        return bytes(32)
    if auth == "origin":
        return origin
    return own


class Arena(object):
    def __init__(self, plan, st, make=world.WTx):
        self.plan, self.stt = plan, st
        self.wtxs = [make(s) for s in plan["specs"]]
        net = plan["specs"][0]["net"]
        for w in self.wtxs:
            w.net = net
        self.dev = device.SimDevice(world.creds_of(self.wtxs[0].me, net))
        self.scripts = [host.Script(w, self.dev) for w in self.wtxs]
        self.sent = []       # (sess, op, msg)
        self.donors = {"int": [], "bytes": {}}
        self.results = []    # (sess, op, mutated, res, draws, ui calls)
        self.cur = None      # session the device has active
        self.judge = []      # [{wtx, sess, confirmed, start index in log}]

    # ------------------------------------------------------------ mutation
    def feed(self, msg):
        for path, kind in host.fields_of(msg):
            if kind != "leaf":
                continue
            v = host.get_path(msg, path)
            if isinstance(v, bool):
                continue
            if isinstance(v, int):
                if len(self.donors["int"]) < 400:
                    self.donors["int"].append(v)
            elif isinstance(v, (bytes, bytearray)):
                l = self.donors["bytes"].setdefault(len(v), [])
                if len(l) < 60:
                    l.append(bytes(v))

    def mutate(self, msg, muts, op, sess):
        from monero_glue import protobuf as p
        changed = []
        for m in muts:
            rng = random.Random(m["r"])
            k = m["k"]
            fs = host.fields_of(msg)
            if k == "field":        # any leaf
                c = [f for f in fs if f[1] == "leaf"]
                pref = m.get("p")
                if pref:
                    c = [f for f in c if all(x in f[0] for x in pref)] or c
                if not c:
                    continue
                path = rng.choice(c)[0]
                old = host.get_path(msg, path)
                new = host.mutate_leaf(rng, old, self.donors)
                if isinstance(new, int) and not isinstance(new, bool) and new >= 1 << 63:
                    new = rng.randint(0, 5)
                if new != old:
                    host.set_path(msg, path, new)
                    changed.append("field:" + ".".join(str(x) for x in path if not isinstance(x, int)))
            elif k == "list":
                c = [f for f in fs if f[1] == "list" and host.get_path(msg, f[0])]
                if not c:
                    continue
                path = rng.choice(c)[0]
                l = list(host.get_path(msg, path))
                how = rng.choice(["dup", "drop", "swap"])
                if how == "dup":
                    l.insert(rng.randrange(len(l) + 1), host.clone(rng.choice(l)))
                elif how == "drop":
                    del l[rng.randrange(len(l))]
                elif len(l) > 1:
                    a, b = rng.sample(range(len(l)), 2)
                    l[a], l[b] = l[b], l[a]
                host.set_path(msg, path, l)
                changed.append("list-%s:%s" % (how, ".".join(str(x) for x in path if not isinstance(x, int))))
            elif k == "none":
                c = [f for f in fs if f[1] in ("leaf", "msg") and not isinstance(f[0][-1], int)]
                if not c:
                    continue
                path = rng.choice(c)[0]
                host.set_path(msg, path, None)
                changed.append("none:" + ".".join(str(x) for x in path if not isinstance(x, int)))
            elif k == "donor":      # same field from another message of the same type
                o = [q for s, _, q in self.sent if type(q) is type(msg)]
                if m.get("other"):
                    o = [q for s, _, q in self.sent if type(q) is type(msg) and s != sess] or o
                if not o:
                    continue
                q = rng.choice(o)
                c = [f for f in fs if f[1] in ("leaf", "msg", "list", "none") and
                     not any(isinstance(x, int) for x in f[0])]
                rng.shuffle(c)
                for path, _ in c:
                    try:
                        nv = host.get_path(q, path)
                    except (AttributeError, TypeError, IndexError):
                        continue
                    if _same(nv, host.get_path(msg, path)):
                        continue
                    host.set_path(msg, path, host.clone(nv))
                    changed.append("donor:" + ".".join(path))
                    break
            elif k == "whole":      # complete message of the same type sent earlier
                o = [q for s, _, q in self.sent if type(q) is type(msg)]
                if o:
                    q = rng.choice(o)
                    if not _same(q, msg):
                        msg = host.clone(q)
                        changed.append("whole")
            elif k == "dstswap":    # another output's destination, same hmac
                outs = self.wtxs[sess].outs
                if type(msg).__name__ == "MoneroTransactionSetOutputRequest" and msg.dst_entr is not None:
                    o = rng.choice(outs)
                    d = self.wtxs[sess].pb_dst(o)
                    if rng.random() < 0.6:
                        d.amount = msg.dst_entr.amount
                    if not _same(d, msg.dst_entr):
                        msg.dst_entr = d
                        changed.append("dstswap")
            elif k == "thief":      # redirect the output
                if type(msg).__name__ == "MoneroTransactionSetOutputRequest" and msg.dst_entr is not None:
                    t = world.wallet("thief")
                    s, v = t.addr()
                    which = rng.choice(["both", "spend", "view", "sub"])
                    if which in ("both", "spend"):
                        msg.dst_entr.addr.spend_public_key = s
                    if which in ("both", "view"):
                        msg.dst_entr.addr.view_public_key = v
                    if which == "sub":
                        msg.dst_entr.is_subaddress = not msg.dst_entr.is_subaddress
                    changed.append("thief-" + which)
            elif k == "shift":      # amount taken from one output; the partner mut uses the opposite sign
                if type(msg).__name__ == "MoneroTransactionSetOutputRequest" and msg.dst_entr is not None:
                    a = (msg.dst_entr.amount or 0) + m["d"]
                    if 0 <= a < 1 << 63 and m["d"]:
                        msg.dst_entr.amount = a
                        changed.append("shift")
            elif k == "src":        # another input's source data
                if hasattr(msg, "src_entr") and msg.src_entr is not None:
                    n = len(self.wtxs[sess].srcs)
                    j = rng.randrange(n)
                    q = self.wtxs[sess].pb_src(j)
                    if not _same(q, msg.src_entr):
                        msg.src_entr = q
                        changed.append("src")
            elif k == "srcring":    # ring changed under the same real output
                if hasattr(msg, "src_entr") and msg.src_entr is not None and msg.src_entr.outputs:
                    outs = msg.src_entr.outputs
                    idx = [i for i in range(len(outs)) if i != msg.src_entr.real_output]
                    if idx:
                        i = rng.choice(idx)
                        d = world.Drbg("ring", m["r"])
                        which = rng.choice(["dest", "commitment", "idx"])
                        if which == "idx":
                            outs[i].idx = outs[i].idx + rng.choice([-1, 1])
                        else:
                            setattr(outs[i].key, which, d.point())
                        changed.append("ring-" + which)
            elif k == "srcamount":  # input amount with or without a matching commitment
                if hasattr(msg, "src_entr") and msg.src_entr is not None:
                    msg.src_entr.amount = max(0, (msg.src_entr.amount or 0) + rng.choice([1, -1, 1000, 1 << 20]))
                    changed.append("srcamount")
            elif k == "bp":         # range proof of another transaction / damaged
                if hasattr(msg, "rsig_data") and msg.rsig_data is not None and msg.rsig_data.rsig:
                    b = bytearray(msg.rsig_data.rsig)
                    o = [q.rsig_data.rsig for s, _, q in self.sent
                         if hasattr(q, "rsig_data") and q.rsig_data is not None and getattr(q.rsig_data, "rsig", None)
                         and bytes(q.rsig_data.rsig) != bytes(b)]
                    if o and rng.random() < 0.5:
                        b = bytearray(rng.choice(o))
                    else:
                        b[rng.randrange(len(b))] ^= 1 << rng.randint(0, 7)
                    msg.rsig_data.rsig = bytes(b)
                    changed.append("bp")
            elif k == "perm":
                if type(msg).__name__ == "MoneroTransactionInputsPermutationRequest" and msg.perm is not None:
                    n = len(msg.perm)
                    how = rng.choice(["shuffle", "const", "cut", "ext", "big"])
                    old = list(msg.perm)
                    if how == "shuffle":
                        rng.shuffle(msg.perm)
                    elif how == "const":
                        msg.perm = [msg.perm[0]] * n
                    elif how == "cut":
                        msg.perm = msg.perm[:-1]
                    elif how == "ext":
                        msg.perm = msg.perm + [rng.randint(0, n)]
                    else:
                        msg.perm[rng.randrange(n)] = rng.randint(0, n + 2)
                    if msg.perm != old:
                        changed.append("perm-" + how)
        return msg, changed

    def lie(self, msg, seed):
        """consistent false statement on a source: the same in every message carrying it"""
        rng = random.Random(seed)
        s = msg.src_entr
        if s is None:
            return None
        d = world.Drbg("lie", seed)
        k = rng.choice(["amount", "mask", "oidx", "txkey", "real", "ringdest", "ringcom", "idx", "rct", "add",
                        "realcom", "extra-member"])
        others = [i for i in range(len(s.outputs)) if i != s.real_output]
        if k == "amount":
            s.amount = max(0, (s.amount or 0) + rng.choice([1, -1, 5, 1 << 30]))
        elif k == "mask":
            s.mask = d.bytes(31) + b"\x00"
        elif k == "oidx":
            s.real_output_in_tx_index = (s.real_output_in_tx_index or 0) + 1
        elif k == "txkey":
            s.real_out_tx_key = d.point()
        elif k == "real" and others:
            s.real_output = rng.choice(others)
        elif k == "ringdest" and others:
            s.outputs[rng.choice(others)].key.dest = d.point()
        elif k == "ringcom" and others:
            s.outputs[rng.choice(others)].key.commitment = d.point()
        elif k == "idx":
            s.outputs[-1].idx += 1 + d.below(9)
        elif k == "rct":
            s.rct = False
        elif k == "add":
            s.real_out_additional_tx_keys = list(s.real_out_additional_tx_keys or []) + [d.point()]
        elif k == "realcom":
            # a commitment matching a raised amount: the claimed value of the input is not the real one
            from sim import ref
            s.amount = (s.amount or 0) + 1000
            s.outputs[s.real_output].key.commitment = ref.enc(ref.commit(ref.b2i(bytes(s.mask)), s.amount))
        elif k == "extra-member":
            o = host.clone(s.outputs[-1])
            o.idx += 5
            o.key.dest, o.key.commitment = d.point(), d.point()
            s.outputs = list(s.outputs) + [o]
        else:
            return None
        return k

    def forge(self, msg, op, sess):
        """
        Attacks that replace authenticated data together with its authentication: data and tag of another position,
        of another session, or no (an empty, a shortened) tag at all.
        """
        out = []
        w, sc = self.wtxs[sess], self.scripts[sess]
        name = type(msg).__name__
        for f in self.plan.get("forge", ()):
            if f["s"] % len(self.scripts) != sess:
                continue
            rng = random.Random(f["r"])
            other = (sess + 1) % len(self.scripts) if f.get("x") else sess
            ow, osc = self.wtxs[other], self.scripts[other]
            if f["k"] == "dst" and op[0] == "out" and msg.dst_entr is not None:
                i, j = f["i"] % len(w.outs), f["j"] % len(ow.outs)
                if op[1] == j and f.get("swap") and other == sess:
                    i, j = j, i
                if op[1] != i:
                    continue
                if f["pay"] == "thief":
                    s, v = world.wallet("thief").addr()
                    how = rng.choice(["both", "spend", "view"])
                    if how != "view":
                        msg.dst_entr.addr.spend_public_key = s
                    if how != "spend":
                        msg.dst_entr.addr.view_public_key = v
                else:
                    d = ow.pb_dst(ow.outs[j])
                    if f["pay"] == "addr":
                        d.amount = msg.dst_entr.amount
                    if _same(d, msg.dst_entr) and other == sess:
                        continue
                    msg.dst_entr = d
                msg.dst_entr_hmac = _tag(f["auth"], msg.dst_entr_hmac,
                                         osc.st.hmacs[j] if j < len(osc.st.hmacs) else b"")
                out.append("forge-dst")
            elif f["k"] == "vin" and op[0] in ("vini", "sign") and op[0] in f["at"]:
                i, j = f["i"] % len(w.srcs), f["j"] % len(ow.srcs)
                orig = sc.order()[op[1]]
                if orig == j and f.get("swap") and other == sess:
                    i, j = j, i
                if orig != i:
                    continue
                a = osc.st.inp.get(j)
                ahmac = a.vini_hmac if a else b""
                if f["pay"] == "all":           # everything of the other input
                    if a is None or (i == j and other == sess):
                        continue
                    msg.src_entr, msg.vini = ow.pb_src(j), a.vini
                    if op[0] == "sign":
                        for x in rng.choice([("pseudo_out", "pseudo_out_hmac", "pseudo_out_alpha", "spend_key"),
                                             ("spend_key",)]):
                            setattr(msg, x, getattr(a, x))
                elif f["pay"] == "vini":
                    if a is None or (i == j and other == sess):
                        continue
                    msg.vini = a.vini
                else:
                    b = bytearray(msg.vini)
                    if len(b) < 40:
                        continue
                    if f["pay"] == "ki":        # another key image of the same output
                        from sim import ref
                        k = ref.dec(bytes(b[-32:]))
                        b[-32:] = ref.enc(rng.choice([lambda: ref.mul(k, 2), lambda: ref.add(k, ref.dec(TORSION))])())
                    elif f["pay"] == "offs":
                        b[3] = (b[3] & 0x80) | ((b[3] + 1) & 0x7f)
                    else:
                        b[1] = 1                # amount
                    msg.vini = bytes(b)
                msg.vini_hmac = _tag(f["auth"], msg.vini_hmac, ahmac)
                out.append("forge-vin")
            elif f["k"] == "pseudo" and op[0] == "sign":
                i, j = f["i"] % len(w.srcs), f["j"] % len(ow.srcs)
                if sc.order()[op[1]] != i:
                    continue
                a = osc.st.inp.get(j)
                if f["pay"] == "all" and a is not None:
                    msg.pseudo_out, msg.pseudo_out_alpha = a.pseudo_out, a.pseudo_out_alpha
                elif f["pay"] == "out" and a is not None:
                    msg.pseudo_out = a.pseudo_out
                elif f["pay"] == "alpha" and a is not None:
                    msg.pseudo_out_alpha = a.pseudo_out_alpha
                else:
                    msg.pseudo_out = world.Drbg("forge", f["r"]).point()
                msg.pseudo_out_hmac = _tag(f["auth"], msg.pseudo_out_hmac, a.pseudo_out_hmac if a else b"")
                out.append("forge-pseudo")
        return out

    # ------------------------------------------------------------ execution
    def go(self):
        st = self.stt
        for n, item in enumerate(self.plan["ops"]):
            sess, op, muts = item
            if op[0] == "restart":
                self.dev.restart()
                self.finish_session()
                st.fault("device-restart")
                st.ev("restart")
                continue
            if op[0] == "user":
                self.dev.user.accept = bool(op[1])
                continue
            if op[0] == "rng":
                ENTROPY.fail_at = ENTROPY.draws + op[1]
                continue
            if op[0] == "ui":
                self.dev.user.fail_at = self.dev.user.calls + op[1]
                continue
            if op[0] == "disarm":
                ENTROPY.fail_at = None
                self.dev.user.fail_at = None
                continue
            sc = self.scripts[sess % len(self.scripts)]
            sess %= len(self.scripts)
            if op[0] == "replay":
                if not self.sent:
                    continue
                sess, oop, msg = self.sent[op[1] % len(self.sent)]
                msg = host.clone(msg)
                changed = ["replay"]
                op = oop
                sc = self.scripts[sess]
                absorb = False
            else:
                if op[0] in ("in", "vini", "sign") and op[1] >= len(sc.wtx.srcs):
                    continue
                if op[0] == "out" and op[1] >= len(sc.wtx.outs):
                    continue
                if op[0] == "bp" and op[1] >= len(sc.wtx.batches()):
                    continue
                msg = run(sc.message(op))
                msg, changed = self.mutate(msg, muts, op, sess)
                absorb = True
                if op[0] in ("in", "vini", "sign"):
                    orig = op[1] if op[0] == "in" else sc.order()[op[1]]
                    for ls, li, lr in self.plan.get("lies", ()):
                        if ls % len(self.scripts) == sess and li == orig:
                            c = self.lie(msg, lr)
                            if c:
                                changed = changed + ["lie-" + c]
                changed = changed + self.forge(msg, op, sess)
            for c in changed:
                st.fault("tamper-" + c.split(":")[0].split("-")[0])
            res = self.send(sess, op, msg, changed)
            if absorb and res is not None:
                try:
                    sc.absorb(op, res)
                except Exception:
                    pass
        self.finish_session()
        return self.verdict()

    def send(self, sess, op, msg, changed):
        st = self.stt
        is_init = type(msg).__name__ == "MoneroTransactionInitRequest"
        try:
            keep = host.clone(msg)
            if is_init:
                self.finish_session()
                self.dev.user.confirmed = None
                self.cur = {"sess": sess, "wtx": self.wtxs[sess], "start": len(self.dev.log), "confirmed": None}
            f0, u0 = ENTROPY.fired, self.dev.user.fired
            res = run(self.dev.tsx_sign(msg))
        except (TypeError, ValueError, AttributeError) as e:
            # the altered message cannot be encoded: it never reached the device
            if changed and len(self.dev.log) == (self.cur or {}).get("last", len(self.dev.log)):
                st.count("unencodable")
                if is_init:
                    self.cur = None
                return None
            raise
        if ENTROPY.fired > f0:
            st.fault("rng-failure")
        if self.dev.user.fired > u0:
            st.fault("display-failure")
        if self.cur is not None:
            self.cur["last"] = len(self.dev.log)
            if is_init:
                self.cur["confirmed"] = self.dev.user.confirmed
        self.sent.append((sess, op, keep))
        self.feed(keep)
        self.feed(res)
        self.results.append((sess, op, changed, res, ENTROPY.fired > f0 or self.dev.user.fired > u0))
        st.ev("req", sess, op, changed, type(res).__name__, str(getattr(res, "code", "")))
        return res

    def finish_session(self):
        if self.cur is not None:
            self.cur["end"] = len(self.dev.log)
            self.judge.append(self.cur)
            self.cur = None

    def verdict(self, full_bp=True):
        """every session judged; returns released signature count"""
        total = 0
        # anything outside of sessions (before the first init, after a restart) must not release a signature
        spans = [(j["start"], j["end"]) for j in self.judge]
        for i, (kind, q, r) in enumerate(self.dev.log):
            if type(r).__name__ == "MoneroTransactionSignInputAck" and not any(a <= i < b for a, b in spans):
                raise Violation("unconfirmed", "signature released outside of a session")
        for j in self.judge:
            s = oracle.Session(j["confirmed"])
            s.init = None
            for kind, q, r in self.dev.log[j["start"]:j["end"]]:
                if kind == "tx" and not is_failure(r) and type(q).__name__ != "MoneroTransactionInitRequest":
                    s.acc.append((q, r))
            j["s"] = s
            try:
                n = oracle.check_session(s, j["wtx"], full_bp)
            except oracle.Bad as e:
                raise Violation(e.kind, e.msg)
            if n:
                self.stt.count("released-sessions")
                self.stt.count("signatures-checked", n)
                if n == len(j["wtx"].srcs):
                    self.stt.count("complete-sessions")
            total += n
            j["n"] = n
        return total


def _same(a, b):
    from monero_glue import protobuf as p
    if isinstance(a, p.MessageType) and isinstance(b, p.MessageType):
        return type(a) is type(b) and all(
            _same(getattr(a, f[0], None), getattr(b, f[0], None)) for f in a.get_fields().values())
    if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
        return bytes(a) == bytes(b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    return a == b
