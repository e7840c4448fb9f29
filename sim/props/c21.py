"""C21: one-time secrets are never used twice, across sessions, reboots and devices with the same seed"""
import copy
import hashlib
import json
import os
import random
import traceback

from sim import boot, core, device, host, kiworld, oracle, ref, world
from sim.core import Violation
from sim.device import is_failure, run

LEVEL = "exploration"
RUNS = {"quick": 160, "thorough": 6000}
CAP = {"quick": 110, "thorough": 780}
RULE = ("A run boots the same device two or three times from one memory image (forked processes: same code state, same clock, "
        "same state of every ordinary generator, hardware randomness different altogether or in one bit of every draw), and lets each boot sign the same "
        "transactions and export the same key images, completely or broken off at drawn steps. Every value the device "
        "or the host's prover emits, and the ring signature nonces recovered with the known keys, must be new. "
        "Non-trivial: values of at least two sessions were compared; distinct by the digest of all values.")
SHAPE = "(sessions with their kind, size and end, per boot)"
REAL = ["device token", "host agent and prover", "Bulletproof and MLSAG provers", "chacha20-poly1305 packing", "EC library"]
STUB = ["hardware random source (seeded, different per boot)", "confirmation screen (user model)", "clock"]
ASSUME = ["values of 16 and more bytes coincide only if their secrets do"]
NETS = 1
SECRET = ("bp", "mlsag")


def sess(rng):
    if rng.random() < 0.2:
        while True:
            k = kiworld.gen(rng, 4)
            if k["outs"]:
                return {"k": "ki", "ki": k, "stop": rng.choice([None, None, 1, 2])}
    mode = rng.choice(["agent", "script"])
    while True:
        s = world.gen_spec(rng, max_in=2, max_out=rng.choice([2, 2, 4]), hfs=(10, 10, 9), clients=(1, 1, 0))
        if mode == "agent":
            if s["change"] is None:
                continue
            if s["hf"] == 10:
                s["client"] = 1
        break
    return {"k": "tx", "spec": s, "mode": mode,
            "stop": rng.randint(1, 12) if mode == "script" and rng.random() < 0.25 else None}


def plan(rng, tier, i):
    base = [sess(rng) for _ in range(rng.choice([1, 1, 2]))]
    boots = []
    for b in range(rng.choice([2, 2, 3])):
        o = [rng.randrange(len(base)) for _ in range(rng.choice([1, 1, 2]))]
        if b == 0:
            o[0] = 0
        boots.append(o)
    boots[-1][0] = 0
    near = None
    if rng.random() < 0.4:
        near = [rng.randrange(32), 1 << rng.randrange(8)]
        boots = boots[:1] * 2
    return {"base": base, "boots": boots, "restart": rng.random() < 0.3, "near": near}


def shrink(plan):
    if plan.get("near"):
        return
    for j in range(len(plan["boots"])):
        if len(plan["boots"]) > 1:
            c = copy.deepcopy(plan)
            del c["boots"][j]
            yield c
        for n in range(len(plan["boots"][j])):
            if len(plan["boots"][j]) > 1:
                c = copy.deepcopy(plan)
                del c["boots"][j][n]
                yield c
    for n, b in enumerate(plan["base"]):
        if b.get("stop") is not None:
            c = copy.deepcopy(plan)
            c["base"][n]["stop"] = None
            yield c
        if b["k"] == "tx":
            for s in core.shrink_spec(b["spec"]):
                if s is not None and not (b["mode"] == "agent" and s["change"] is None):
                    c = copy.deepcopy(plan)
                    c["base"][n]["spec"] = s
                    yield c


# ---------------------------------------------------------------- what one boot emits
def leaves(msg, name=""):
    if hasattr(type(msg), "get_fields"):
        for k, v in vars(msg).items():
            yield from leaves(v, k)
    elif isinstance(msg, (list, tuple)):
        for x in msg:
            yield from leaves(x, name)
    elif isinstance(msg, (bytes, bytearray, memoryview)):
        yield name, bytes(msg)


def bp_values(bp):
    for k in ("A", "S", "T1", "T2", "taux", "mu", "a", "b"):
        yield "bp." + k, bp[k]
    for k in ("L", "R"):
        for x in bp[k]:
            yield "bp." + k, x


def mg_values(ss, cc, ring, real, pseudo, msg):
    """random scalars of the decoys and the nonce points of the real member"""
    yield "mlsag.cc", cc
    c = ref.b2i(cc)
    for i, (dest, com) in enumerate(ring):
        s0, s1 = ref.b2i(ss[i][0]), ref.b2i(ss[i][1])
        l0 = ref.enc(ref.gpq(s0, c, ref.dec(dest)))
        dif = ref.sub(ref.dec(com), ref.dec(pseudo))
        l1 = ref.enc(ref.gpq(s1, c, dif))
        r0 = ref.enc(ref.two(ref.hp(dest), s0, ref.dec(msg[1]), c))
        if i == real:
            yield "mlsag.alpha0", l0
            yield "mlsag.alpha1", l1
        yield "mlsag.s", ss[i][0]
        yield "mlsag.s", ss[i][1]
        c = ref.hs(msg[0] + dest + l0 + r0 + ref.enc(dif) + l1)


def blinds(points, amounts, name):
    """commitments without their amounts: equal only if the masks are"""
    return [("mask." + name, ref.enc(ref.sub(ref.dec(p), ref.mul(ref.H, a)))) for p, a in zip(points, amounts)]


def emitted(log, known):
    out = []
    for kind, req, res in log:
        for n, b in leaves(req):
            known.add(b)
        if is_failure(res):
            continue
        for n, b in leaves(res):
            if len(b) < 16 or b in known or n in ("vini",):
                continue
            t = type(res).__name__ + "." + n
            if n == "signature":
                continue            # taken apart below
            if n == "rsig" or n == "rsig_parts":
                try:
                    out += list(bp_values(ref.parse_bp_blob(b)))
                except Exception:
                    out.append((t, b))
                continue
            out.append((t, b))
    return out


def one(b, dev):
    """runs one session; returns [(kind, value)] of everything emitted"""
    dev.log.clear()
    out = []
    if b["k"] == "ki":
        from monero_glue import messages as M
        me = world.wallet("me")
        k = kiworld.KiWorld(b["ki"], "me")
        init, steps = k.messages(NETS, 2)
        seq = [init] + steps + [M.MoneroKeyImageSyncFinalRequest()]
        for m in seq[:b["stop"]] if b["stop"] else seq:
            r = run(dev.key_image_sync(m))
            if is_failure(r):
                raise Violation("refused", "export refused: %s" % str(r.message)[-200:])
        return emitted(dev.log, set(o.dest for o in k.outs))
    w = world.WTx(b["spec"])
    known = set()
    for s in w.srcs:
        for d, c in ring_of(s):
            known.add(d)
            known.add(c)
    dev.creds = world.creds_of(w.me, w.net)
    dev.token.creds = dev.creds
    if b["mode"] == "agent":
        from monero_glue.agent.agent_lite import Agent
        ag = Agent(dev, network_type=w.net)
        ag.hf, ag.client_version = w.hf, w.client
        blob = run(ag.sign_tx(w.construction_data()))[0]
        out += emitted(dev.log, known)
        t = ref.parse_tx(blob)
        msg = ref.full_message(t)
        for p in t.bps:
            out += list(bp_values(p))
        out += [("pseudo_out", x) for x in t.pseudo] + [("pub_key", x) for x in t.outpk]
        by_ki = {s.ki: s for s in w.srcs}
        out += blinds(t.outpk, [o.amount for o in dev.user.confirmed.outputs], "out")
        out += blinds(t.pseudo, [by_ki[v[2]].amount for v in t.vin], "in")
        for i in range(len(w.srcs)):
            ki = t.vin[i][2]
            s = by_ki[ki]
            ss, cc = t.mgs[i]
            out += list(mg_values(ss, cc, ring_of(s), s.real, t.pseudo[i], (msg, ki)))
        return dedup(out)
    sc = host.Script(w, dev)
    ops = host.canonical(w)
    for op in ops[:b["stop"]] if b["stop"] else ops:
        _, r = run(sc.do(op))
        if is_failure(r):
            raise Violation("refused", "step %s refused: %s" % (op, str(r.message)[-200:]))
    out = emitted(dev.log, known)
    if not b["stop"]:
        s = oracle.sessions(dev.log)[-1]
        s.confirmed = dev.user.confirmed
        oracle.check_session(s, w, full_bp=False)
        by_ki = {x.ki: x for x in w.srcs}
        out += blinds(s.tx.outpk, [o.amount for o in s.confirmed.outputs], "out")
        out += blinds(s.tx.pseudo, [by_ki[v[2]].amount for v in s.tx.vin], "in")
        for i, (q, r) in enumerate(s.get("MoneroTransactionSignInputRequest")):
            ss, cc = oracle.parse_mg(bytes(r.signature), None)
            ki = s.tx.vin[i][2]
            out += list(mg_values(ss, cc, ring_of(by_ki[ki]), by_ki[ki].real, s.tx.pseudo[i],
                                  (s.tx.full_message_hash, ki)))
    return dedup(out)


def dedup(out):
    """a value shown in two places of one session is one value"""
    seen, res = set(), []
    for k, b in out:
        if (k.split(".")[-1], b) not in seen or k.startswith("mask."):
            seen.add((k.split(".")[-1], b))
            res.append((k, b))
    return res


def ring_of(s):
    return [(d, c) for _, d, c in s.ring]


def boot_main(plan, n, order, seed):
    near = plan.get("near")
    boot.ENTROPY.reset("%s/boot%d" % (seed, 0 if near else n))
    random.seed(int(hashlib.sha256(str(seed).encode()).hexdigest(), 16))    # nothing but the hardware differs
    if near and n:
        boot.ENTROPY.near = near
    dev = device.SimDevice(world.creds_of(world.wallet("me"), NETS))
    res = []
    for j in order:
        res.append([(k, b.hex()) for k, b in one(plan["base"][j], dev)])
        if plan["restart"]:
            dev.restart()
    return res


def forked(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                d = {"ok": fn()}
            except Violation as e:
                d = {"viol": [e.kind, e.msg]}
            except BaseException:
                d = {"err": traceback.format_exc()[-1500:]}
            with os.fdopen(w, "wb") as f:
                f.write(json.dumps(d).encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data.decode())


def execute(plan, st):
    seen = {}
    total = 0
    for n, order in enumerate(plan["boots"]):
        r = forked(lambda: boot_main(plan, n, order, plan["run_seed"]))
        if "viol" in r:
            raise Violation(*r["viol"])
        if "err" in r:
            raise RuntimeError("boot failed: %s" % r["err"])
        for j, (o, vals) in enumerate(zip(order, r["ok"])):
            b = plan["base"][o]
            here = "boot %d session %d (%s)" % (n, j, b["k"])
            mine = {}
            for k, v in vals:
                if v in mine and (k == mine[v] if k.startswith("mask.") else
                                  k.split(".")[0] in SECRET and mine[v].split(".")[0] in SECRET):
                    raise Violation("repeated", "%s of %s is the same value as its %s" % (k, here, mine[v]))
                mine[v] = k
            for v, k in mine.items():
                if v in seen:
                    raise Violation("repeated", "%s of %s was already used as %s of %s" % ((k, here) + seen[v]))
            for v, k in mine.items():
                seen[v] = (k, here)
            total += len(mine)
            st.ev(here, sorted(mine))
        st.fault("reboot")
    st.count("values", total)
    st.count("sessions", sum(len(o) for o in plan["boots"]))
    st.sim_time += 1.0 * sum(len(o) for o in plan["boots"])
    st.shape([(b["k"], b.get("mode"), b.get("stop"), b["spec"]["hf"] if b["k"] == "tx" else 0,
               len(b["spec"]["srcs"]) if b["k"] == "tx" else 0) for b in plan["base"]], plan["boots"], plan["restart"])
