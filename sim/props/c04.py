"""C04: after any failure inside a signing session the session is dead, and a new session works"""
import random

from sim import adversary, core, device, host, oracle, world
from sim.boot import ENTROPY
from sim.core import Violation
from sim.device import is_failure, run
from sim.props import common

LEVEL = "exploration"
RUNS = {"quick": 420, "thorough": 10000}
CAP = {"quick": 150, "thorough": 800}
RULE = ("A run starts a valid session, makes one drawn step fail (random source fails at a drawn draw, a display "
        "callback fails, the message is altered, a step is out of order), then the host goes on in a drawn way "
        "(retries the honest message, goes on, skips, replays recorded messages) and finally runs one more complete "
        "honest session. Non-trivial: the step failed; distinct by the digest of the exchange.")
SHAPE = "(failing step, kind of failure, position of the failure inside the step, continuation, protocol variant)"
REAL = ["device (TokenLite, TsxSigner, transaction builder)", "protobuf codec", "bulletproofs", "MLSAG", "EC library"]
STUB = ["host (scripted)", "user at the device and its display callbacks (scripted)", "random source (seeded, failing)"]
ASSUME = ["a failing random source raises an error instead of returning bad randomness"]
shrink = core.shrink_with_spec(("after", "at", "draw", "muts"), ("spec",))


def plan(rng, tier, i):
    spec = world.gen_spec(rng, max_in=3, max_out=rng.choice([2, 3, 4]))
    can = host.canonical(world.WTx(spec))
    kind = rng.choice(["rng", "rng", "ui", "ui", "tamper", "tamper", "order"])
    fit = {"rng": ("init", "in", "out", "sign"), "ui": ("init", "in", "perm", "vini", "allin", "out", "allout", "sign",
                                                        "final"),
           "tamper": ("in", "perm", "vini", "out", "bp", "sign"), "order": ("in", "perm", "vini", "allin", "out", "bp",
                                                                            "allout", "sign", "final")}[kind]
    k = rng.choice([x for x in fit if any(o[0] == x for o in can)])
    at = rng.choice([n for n, o in enumerate(can) if o[0] == k])
    after = []
    m = rng.choice(["retry", "retry", "rest", "skip", "random", "replay"])
    if m in ("retry", "rest"):
        after = [list(o) for o in can[at + (m == "rest"):]]
    elif m == "skip":
        k = rng.randint(0, len(can) - 1)
        after = [list(o) for o in can[k:]]
    elif m == "random":
        after = [list(rng.choice(can)) for _ in range(rng.randint(1, 8))]
    else:
        after = [["replay", rng.randrange(40)] for _ in range(rng.randint(1, 10))]
    after = [o for o in after if o[0] != "init"]
    return {"spec": spec, "at": at, "kind": kind, "after": after, "cont": m,
            "draw": rng.choice([1, 1, 1, 2, rng.randint(1, 5), rng.randint(1, 60)]),
            "muts": [common.mutation(rng, can[at][0])], "wrong": list(rng.choice(can)),
            "err_cb": rng.random() < 0.2, "restart": rng.random() < 0.1}


def execute(plan, st):
    a = adversary.Arena({"specs": [plan["spec"]], "ops": []}, st)
    w, sc, dev = a.wtxs[0], a.scripts[0], a.dev
    can = host.canonical(w)
    at = plan["at"] % len(can)
    if plan["err_cb"]:
        async def bad(*_, **__):
            dev.user.errors += 1
        dev.user.transaction_error = bad
    kind = plan["kind"]
    for op in can[:at]:
        msg = run(sc.message(op))
        r = a.send(0, op, msg, [])
        sc.absorb(op, r)
        if is_failure(r):
            raise Violation("refused", "honest step %s refused: %s" % (op, str(r.message)[-200:]))
    op = can[at]
    if kind == "order":
        op = plan["wrong"]
        if op == can[at] or op[0] == "init":
            return
    msg = run(sc.message(op))
    changed = []
    if kind == "rng":
        ENTROPY.fail_at = ENTROPY.draws + plan["draw"]
    elif kind == "ui":
        dev.user.fail_at = dev.user.calls + 1 + plan["draw"] % 2
    elif kind == "tamper":
        msg, changed = a.mutate(msg, plan["muts"], op, 0)
        if not changed:
            return
    r = a.send(0, op, msg, changed or ["order"] if kind in ("tamper", "order") else [])
    ENTROPY.fail_at = None
    dev.user.fail_at = None
    if r is None or not is_failure(r):
        st.count("not-failed")
        if op[0] == "init" and kind == "tamper":
            return      # another transaction was confirmed
        a.finish_session()
        a.verdict()
        return
    st.fault("failed-step-" + kind)
    st.shape(op[0], op[1:] and op[1], kind, plan["draw"] if kind in ("rng", "ui") else changed, plan["cont"],
             plan["spec"]["hf"], plan["spec"]["client"], len(w.outs) > 2)
    if op[0] == "sign" and any(type(q[2]).__name__ == "MoneroTransactionSignInputAck" for q in dev.log[-1:]):
        raise Violation("released", "failure with a signature")
    recorded = [m for _, _, m in a.sent]
    for op2 in plan["after"]:
        if op2[0] == "replay":
            msg = host.clone(recorded[op2[1] % len(recorded)])
            if type(msg).__name__ == "MoneroTransactionInitRequest":
                continue
        else:
            if op2[0] in ("in", "vini", "sign") and op2[1] >= len(w.srcs) or \
                    op2[0] == "out" and op2[1] >= len(w.outs) or \
                    op2[0] == "bp" and op2[1] >= len(w.batches()):
                continue
            msg = run(sc.message(op2))
        r = a.send(0, op2, msg, [])
        if not is_failure(r):
            raise Violation("alive", "step %s (%s) failed, yet the device accepted %s afterwards" % (
                op[0], kind, type(msg).__name__))
    a.finish_session()
    a.verdict()
    # progress once faults stop
    if plan["restart"]:
        dev.restart()
    start = len(dev.log)
    sc = host.Script(w, dev)
    for op2 in can:
        _, r = run(sc.do(op2))
        if is_failure(r):
            raise Violation("stuck", "after a failed session a new one is refused at %s: %s" % (
                op2, str(r.message)[-200:]))
    s = oracle.sessions(dev.log[start:])[-1]
    s.confirmed = dev.user.confirmed
    try:
        n = oracle.check_session(s, w)
    except oracle.Bad as e:
        raise Violation(e.kind, e.msg)
    if n != len(w.srcs):
        raise Violation("incomplete", "%d signatures" % n)
    st.count("recovered")
    st.sim_time += 0.05 * dev.reqs
