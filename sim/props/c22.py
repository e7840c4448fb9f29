"""C22: live refresh accepts a key image only for exactly the output asked for"""
import random

from sim import core, keydev, kiworld, ref, world
from sim.core import Violation
from sim.device import run
from sim.link import LinkDown
from sim.props.c14 import Keys, flip

LEVEL = "exploration"
RUNS = {"quick": 260, "thorough": 8000}
CAP = {"quick": 80, "thorough": 700}
RULE = ("A run refreshes the drawn outputs of a wallet with the real host code against a model of the device which lies or "
        "is disturbed at drawn steps (lost, damaged, stale or foreign answers, answers for other outputs, wrong key "
        "images with and without proofs, restarts in the middle). Non-trivial: at least one fault; distinct by the "
        "digest of the exchange.")
SHAPE = "(kinds of faults and outcomes in order)"
REAL = ["host agent (Agent.live_refresh)", "ring signature check", "chacha20-poly1305 packing", "protobuf codec"]
STUB = ["device side of the live refresh (model of the firmware)", "random source (seeded)"]
ASSUME = ["the proof's challenge does not collide"]
shrink = core.shrink_with_spec(("steps",), ())

FAULTS = ["none", "none", "none", "lost-request", "lost-response", "failure", "garble", "restart-before", "stale", "other-ki",
          "other-signer", "other-key", "proof-flip", "ki-flip", "other-view", "wrong-index", "wrong-pair", "wrong-type",
          "torsion", "short", "zero"]


def plan(rng, tier, i):
    while True:
        k = kiworld.gen(rng, 6)
        if k["outs"]:
            break
    return {"ki": k, "steps": [[rng.randrange(len(k["outs"])), rng.choice(FAULTS), rng.randint(0, 1 << 30)]
                               for _ in range(rng.randint(2, 9))]}


def execute(plan, st):
    from monero_glue.agent.agent_lite import Agent
    from monero_glue.xmr import crypto
    kw = kiworld.KiWorld(plan["ki"])
    me = kw.me
    dv = keydev.KeyDevice(me, world.Drbg("live", plan["ki"]["seed"]))
    view = crypto.decodeint(ref.i2b(me.a))

    def start():
        run(Agent(Keys(dv, "h", {}, False, st), network_type=1).live_refresh_start())

    start()
    seq = []
    for k, f, seed in plan["steps"]:
        if not kw.outs:
            break
        rng = random.Random(seed)
        o = kw.outs[k % len(kw.outs)]
        out_key, der, idx, pair = o.dest, o.der, o.oidx, o.pair
        other = kw.outs[(k + 1) % len(kw.outs)]
        lf = {}
        ok = f == "none"
        v = view
        if f in ("lost-request", "lost-response", "failure", "garble", "restart-before", "wrong-type"):
            lf[0] = f
        elif f == "wrong-index":
            idx += 1
        elif f == "wrong-pair":
            pair = (pair[0], pair[1] + 1)
        elif f == "other-view":
            v = crypto.decodeint(ref.i2b((me.a + 1) % ref.L))
        if f == "stale":
            old = [r for kind, m, r in dv.done if kind == "ki" and bytes(m.out_key) != o.dest]
            if not old:
                continue
            dv.lie = lambda kind, r, m: rng.choice(old)
        elif f == "other-ki":
            if other is o:
                continue
            dv.lie = lambda kind, r, m: dv.ki_answer(o.dest, o.secret, o.dest, ki=other.ki)
        elif f == "other-signer":
            dv.lie = lambda kind, r, m: dv.ki_answer(o.dest, o.secret, o.dest, ki=ref.key_image(
                o.dest, (o.secret + 1) % ref.L), signer=(o.secret + 1) % ref.L)
        elif f == "other-key":
            if other is o:
                continue
            dv.lie = lambda kind, r, m: dv.ki_answer(other.dest, other.secret, o.dest)
        elif f == "torsion":
            # key image plus a point of small order
            t = bytes.fromhex("ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f")
            kt = ref.enc(ref.add(ref.dec(o.ki), ref.dec(t)))
            dv.lie = lambda kind, r, m: dv.ki_answer(o.dest, o.secret, o.dest, ki=kt)
        elif f in ("proof-flip", "ki-flip", "short", "zero"):
            def lie(kind, r, m):
                key = keydev.view_key_key(me, o.dest, bytes(r.salt))
                b = bytearray(keydev.unseal(key, r.key_image))
                if f == "short":
                    b = b[:rng.choice([0, 31, 32, 64, 95])]
                elif f == "zero":
                    b[32:] = bytes(64)
                else:
                    p = rng.randrange(32, 96) if f == "proof-flip" else rng.randrange(32)
                    b[p] ^= 1 << rng.randint(0, 7)
                r.key_image = keydev.seal(key, b, dv.d.bytes(12))
                return r
            dv.lie = lie
        if f != "none":
            st.fault("live-" + f)
        l = Keys(dv, "h", lf, False, st, rng)
        ag = Agent(l, network_type=1)
        err = None
        try:
            got = run(ag.live_refresh(v, out_key, der, idx, pair[0], pair[1]))
            got = bytes(crypto.encodepoint(got))
        except LinkDown:
            got = None
        except Exception as e:
            got, err = None, e
        dv.lie = None
        if not dv.started:
            st.count("restarted")
            if got is not None:
                raise Violation("accepted", "a key image was returned by a device which restarted")
            start()
        st.ev("step", k, f, got)
        seq.append((f, got is not None))
        if got is not None:
            if got != o.ki:
                raise Violation("wrong-ki", "fault %s: a wrong key image was accepted" % f)
            if not ok and f not in ("garble", "torsion", "short"):
                raise Violation("accepted", "fault %s: the answer was accepted" % f)
            st.count("refreshed")
        elif ok:
            raise Violation("refused", "a correct answer was refused: %s %s" % (type(err).__name__, str(err)[-200:]))
    st.shape(seq)
    st.sim_time += 0.05 * len(plan["steps"])
