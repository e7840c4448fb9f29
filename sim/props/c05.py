"""C05: signatures are released only by sessions that went through the protocol's steps in order, each exactly once"""
from sim import adversary, core, host, world
from sim.core import Violation
from sim.device import is_failure, run
from sim.props import common

LEVEL = "exploration"
RUNS = {"quick": 700, "thorough": 14000}
CAP = {"quick": 150, "thorough": 800}
RULE = ("A run sends the messages of a valid transaction in an order drawn by the scheduler: steps skipped, repeated, "
        "moved, swapped, inputs and outputs permuted or taken twice, the session continued after its end. The "
        "device's accepted steps are compared with the protocol automaton. Non-trivial: the order differed from the "
        "protocol's at least once; distinct by the digest of the exchange.")
SHAPE = "(edit operations applied to the step order, point of refusal, protocol variant)"
REAL = ["device (TokenLite, TsxSigner, state machine, transaction builder)", "protobuf codec", "bulletproofs", "MLSAG",
        "EC library"]
STUB = ["host (scripted)", "user at the device (scripted)", "random source (seeded)"]
ASSUME = ["a step the device accepts without releasing anything (an early end of inputs) is harmless as long as no "
          "signature follows"]
shrink = core.shrink_with_spec(("ops",), ())


def plan(rng, tier, i):
    spec = world.gen_spec(rng, max_in=4, max_out=rng.choice([2, 2, 3, 5]))
    can = [[0, o, []] for o in host.canonical(world.WTx(spec))]
    edits = []
    for _ in range(rng.choice([0, 1, 1, 1, 1, 2, 2, 3])):
        k = rng.choice(["skip", "dup", "move", "swap", "index", "later", "skiprun", "perm"])
        n = rng.randrange(1, len(can))
        if k == "skip":
            del can[n]
        elif k == "dup":
            can.insert(n, [0, list(can[n][1]), []])
        elif k == "move":
            x = can.pop(n)
            can.insert(rng.randrange(1, len(can) + 1), x)
        elif k == "swap" and n + 1 < len(can):
            can[n], can[n + 1] = can[n + 1], can[n]
        elif k == "index":
            c = [x for x in can if x[1][0] in ("in", "vini", "out", "sign", "bp")]
            x = rng.choice(c)
            x[1] = [x[1][0], rng.randrange(4)]
        elif k == "later":
            can.append([0, list(rng.choice(can)[1]), []])
        elif k == "skiprun":
            del can[n:n + rng.randint(1, 3)]
        elif k == "perm":
            for x in can:
                if x[1][0] == "perm":
                    x[2] = [{"k": "perm", "r": rng.randint(0, 1 << 30)}]
        edits.append(k)
        if len(can) < 3:
            break
    return {"specs": [spec], "ops": can, "edits": edits}


NAME = {"MoneroTransactionSetInputRequest": "in", "MoneroTransactionInputsPermutationRequest": "perm",
        "MoneroTransactionInputViniRequest": "vini", "MoneroTransactionAllInputsSetRequest": "allin",
        "MoneroTransactionSetOutputRequest": "out", "MoneroTransactionAllOutSetRequest": "allout",
        "MoneroTransactionSignInputRequest": "sign", "MoneroTransactionFinalRequest": "final"}


def accepted(j):
    res = []
    for q, r in j["s"].acc:
        k = NAME[type(q).__name__]
        if k == "out" and q.is_offloaded_bp:
            if q.rsig_data is None or not q.rsig_data.rsig:
                continue    # carries nothing
            k = "bp"
        res.append(k)
    return res


def execute(plan, st):
    a = adversary.Arena(plan, st)
    a.go()
    for k in plan["edits"]:
        st.fault("order-" + k)
    common.shape_of(a, st, plan)
    stop = [op[0] for _, op, _, r, _ in a.results if is_failure(r)][:1]
    st.shape(plan["edits"], stop, len(a.results), a.wtxs[0].hf, a.wtxs[0].client)
    w = a.wtxs[0]
    can = [o[0] for o in host.canonical(w)][1:]
    honest = [x[1] for x in plan["ops"]] == host.canonical(w) and not any(x[2] for x in plan["ops"])
    for j in a.judge:
        acc = accepted(j)
        if "sign" in acc or "final" in acc:
            if acc != can[:len(acc)]:
                raise Violation("order", "a session released signatures after the steps %s" % " ".join(acc))
            n = j["n"]
            if "final" in acc and n != len(w.srcs):
                raise Violation("order", "finished with %d of %d signatures" % (n, len(w.srcs)))
    if honest and not any(j["n"] == len(w.srcs) for j in a.judge):
        raise Violation("refused", "the protocol order was refused: %s" % [
            str(r.message)[-200:] for _, _, _, r, _ in a.results if is_failure(r)][:1])
    # a prefix of the protocol is accepted up to the first deviation
    for n, (sess, op, ch, r, fired) in enumerate(a.results):
        if n >= len(can) + 1 or ch or op != host.canonical(w)[n]:
            break
        if is_failure(r):
            raise Violation("refused", "step %d %s in protocol order refused: %s" % (n, op, str(r.message)[-200:]))
