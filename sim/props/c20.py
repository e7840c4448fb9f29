"""C20: no signature without valid range proofs over every output, also when the host computes them"""
from sim import adversary, core, host, ref, world
from sim.core import Violation
from sim.device import is_failure, run
from sim.props import common

LEVEL = "exploration"
RUNS = {"quick": 320, "thorough": 9000}
CAP = {"quick": 150, "thorough": 800}
RULE = ("A run is one transaction whose range proofs are computed by the scripted host (3 to 17 outputs), with drawn "
        "attacks: proof over other amounts or masks, damaged or truncated proof, proof of another batch or session, "
        "missing, early, repeated proofs, other batch grouping, other proof type flags, or a device failure in the "
        "middle. Every accepted proof is verified by the independent verifier. Non-trivial: an attack was carried "
        "out; distinct by the digest of the exchange.")
SHAPE = "(attack, step, batch, outputs, protocol variant, point of refusal)"
REAL = ["device (TsxSigner, transaction builder, bulletproof verifier)", "host prover (bulletproof)", "protobuf codec",
        "EC library"]
STUB = ["host (scripted)", "user at the device (scripted)", "random source (seeded)"]
ASSUME = ["curve arithmetic and keccak of the installed trezor-crypto C library are correct (shared with the oracle)"]
shrink = core.shrink_with_spec(("ops", "attacks"), ())

ATT = ["amounts", "masks", "flip", "flip", "cut", "pad", "other", "other-batch", "missing", "early", "twice",
       "grouping", "grouping", "rsigtype", "none", "wrongcount", "norsig", "restart"]


def plan(rng, tier, i):
    while True:
        if i % 24 == 11:
            spec = world.gen_spec(rng, small=False, max_in=2, max_out=18)
            if len(world.WTx(spec).outs) < 17:
                continue
        else:
            spec = world.gen_spec(rng, max_in=2, max_out=rng.choice([3, 4, 5, 5]))
        w = world.WTx(spec)
        if len(w.outs) > 2:
            break
    at = rng.choice(ATT)
    return {"specs": [spec], "att": at, "r": rng.randint(0, 1 << 30), "ops": [], "client_batch": rng.random() < 0.3}


def execute(plan, st):
    import random
    rng = random.Random(plan["r"])
    a = adversary.Arena(plan, st)
    w, sc, dev = a.wtxs[0], a.scripts[0], a.dev
    att = plan["att"]
    n = len(w.outs)
    bt = w.batches()
    if plan["client_batch"] and n <= 8:
        # another legal grouping: several smaller batches
        if n == 3:
            bt = rng.choice([[2, 1], [1, 2], [1, 1, 1]])
        elif n == 4:
            bt = rng.choice([[2, 2], [4], [1, 1, 2]])
        else:
            bt = [4] + [1] * (n - 4) if n < 8 else [8]
        w.batches = lambda: list(bt)
    can = [list(o) for o in host.canonical(w)]
    orig_prove = sc.prove
    victim = rng.randrange(len(bt))

    async def prove(b):
        if b != victim:
            return await orig_prove(b)
        from monero_glue.hwtoken import misc as tmisc
        from monero_glue.xmr import crypto, ring_ct
        idx = list(sc.batch_range(b))
        am = [w.outs[i][3] for i in idx]
        masks = [sc.st.masks.get(i, b"\x01" + b"\x00" * 31) for i in idx]
        if att == "amounts":
            k = rng.randrange(len(am))
            am[k] = am[k] + rng.choice([1, 1000, 1 << 40])
            if rng.random() < 0.5 and len(am) > 1:
                am[(k + 1) % len(am)] = max(0, am[(k + 1) % len(am)] - 1)
        elif att == "masks":
            masks[rng.randrange(len(masks))] = ref.i2b(rng.getrandbits(250) % ref.L)
        elif att == "wrongcount":
            if len(am) > 1 and rng.random() < 0.5:
                am, masks = am[:-1], masks[:-1]
            else:
                am, masks = am + [0], masks + [b"\x01" + b"\x00" * 31]
        elif att == "other":
            am = [rng.getrandbits(20) for _ in am]
            masks = [ref.i2b(rng.getrandbits(250) % ref.L) for _ in masks]
        if att in ("amounts", "masks", "wrongcount", "other"):
            st.fault("proof-" + att)
            bp = await ring_ct.prove_range_bp_batch(am, [crypto.decodeint(m) for m in masks])
            blob = bytes(await tmisc.dump_msg(bp))
        else:
            blob = await orig_prove(b)
            if att == "flip":
                x = bytearray(blob)
                x[rng.randrange(len(x))] ^= 1 << rng.randint(0, 7)
                blob = bytes(x)
                st.fault("proof-flip")
            elif att == "cut":
                blob = blob[:rng.randrange(len(blob))]
                st.fault("proof-cut")
            elif att == "pad":
                blob = blob + b"\x00" * rng.randint(1, 40)
                st.fault("proof-pad")
            elif att == "other-batch" and len(bt) > 1:
                blob = await orig_prove((b + 1) % len(bt))
                st.fault("proof-other-batch")
            elif att == "norsig":
                blob = b""
                st.fault("proof-norsig")
        return blob

    sc.prove = prove
    det = w.det_masks()
    bps = [k for k, o in enumerate(can) if o[0] == "bp"]
    if att == "missing" and det and bps:
        del can[rng.choice(bps)]
        st.fault("proof-missing")
    elif att == "twice" and det and bps:
        k = rng.choice(bps)
        can.insert(k, list(can[k]))
        st.fault("proof-twice")
    elif att == "early" and det and bps:
        k = rng.choice(bps)
        x = can.pop(k)
        can.insert(rng.randint(max(1, k - 3), k - 1) if k > 1 else 1, x)
        st.fault("proof-early")
    elif att == "restart":
        can.insert(rng.randrange(1, len(can)), ["restart"])
    mod = None
    if att in ("grouping", "rsigtype"):
        def mod(m):
            rd = m.tsx_data.rsig_data
            if att == "grouping":
                g = list(rd.grouping)
                rd.grouping = rng.choice([[], [0] + g, g + [1], g[:-1], [n + 1], [1] * (n - 1), [n - 1], g + [0], [2 * n],
                                          [0] * n, [n, n]])
            else:
                rd.rsig_type = rng.choice([0, 1, 4, 200])
            st.fault("proof-" + att)
            return m
    for op in can:
        if op[0] == "restart":
            dev.restart()
            a.finish_session()
            st.fault("device-restart")
            continue
        msg = run(sc.message(op))
        if op[0] == "init" and mod:
            msg = mod(msg)
        res = a.send(0, op, msg, [att] if op[0] in ("init", "bp") else [])
        if res is not None:
            sc.absorb(op, res)
    a.finish_session()
    a.verdict(True)
    stop = [op[0] for _, op, _, r, _ in a.results if is_failure(r)][:1]
    st.shape(att, victim, bt, w.hf, w.client, stop)
    st.sim_time += 0.05 * dev.reqs
    if att == "none" and not any(j["n"] == len(w.srcs) for j in a.judge):
        raise Violation("refused", "valid host proofs were refused: %s" % [
            str(r.message)[-300:] for _, _, _, r, _ in a.results if is_failure(r)][:1])
