"""C03: a transaction or key image export the user rejects releases nothing"""
import random

from sim import adversary, core, device, host, kiworld, world
from sim.core import Violation
from sim.device import is_failure, run
from sim.props import common

LEVEL = "exploration"
RUNS = {"quick": 700, "thorough": 12000}
CAP = {"quick": 120, "thorough": 700}
RULE = ("A run offers a transaction (or key image export) which the simulated user rejects, possibly while another, "
        "accepted session is in progress or was completed before, then lets the host send drawn messages: the rest "
        "of the protocol, other steps, messages recorded from the accepted sessions. Non-trivial: the rejection "
        "happened and at least one message followed; distinct by the digest of the exchange.")
SHAPE = "(kind of session, progress of the session before, order of the messages sent after the rejection)"
REAL = ["device (TokenLite, TsxSigner, KeyImageSync)", "protobuf codec", "host agent (error surface)", "EC library"]
STUB = ["user at the device (scripted)", "host (scripted)", "blockchain (generated world)", "random source (seeded)"]
ASSUME = ["the device calls its confirmation callback to ask the user"]
shrink = core.shrink_with_spec(("ops", "prior"), ("spec",))


def plan(rng, tier, i):
    kind = rng.choice(["tx", "tx", "tx", "ki", "agent"])
    spec = world.gen_spec(rng, max_in=3, max_out=3)
    while kind == "agent" and spec["change"] is None:
        spec = world.gen_spec(rng, max_in=2, max_out=3)
    w = world.WTx(spec)
    can = host.canonical(w)
    # a session accepted before the rejected one, up to a drawn step
    prior = can[:rng.choice([0, 0, rng.randint(1, len(can)), len(can)])]
    ops = []
    mode = rng.choice(["rest", "rest", "random", "skip", "record"])
    if mode == "rest":
        ops = can[1:]
    elif mode == "random":
        ops = [rng.choice(can[1:]) for _ in range(rng.randint(1, 8))]
    elif mode == "skip":
        k = rng.randint(1, len(can) - 1)
        ops = can[k:]
    else:
        ops = [["replay", rng.randrange(40)] for _ in range(rng.randint(1, 10))]
    return {"spec": spec, "kind": kind, "prior": prior, "ops": ops,
            "ki": kiworld.gen(rng, 4), "same": rng.random() < 0.7, "again": rng.random() < 0.3,
            "seed": rng.randint(0, 1 << 30)}


def execute(plan, st):
    w = world.WTx(plan["spec"])
    dev = device.SimDevice(world.creds_of(w.me, w.net))
    rng = random.Random(plan["seed"])
    st.sim_time += 0.05 * (len(plan["ops"]) + len(plan["prior"]) + 1)
    if plan["kind"] == "ki":
        return ki(plan, st, w, dev)
    if plan["kind"] == "agent":
        return agent(plan, st, w, dev)
    sc = host.Script(w, dev)
    sent = []
    for op in plan["prior"]:
        msg, r = run(sc.do(op))
        sent.append(msg)
        if is_failure(r):
            raise Violation("refused", "honest step %s refused: %s" % (op, str(r.message)[-200:]))
    sc2 = sc
    if not plan["same"]:
        sc2 = host.Script(w, dev)
    dev.user.accept = False
    calls = len(dev.user.shown)
    _, r = run(sc2.do(["init"]))
    st.ev("reject", type(r).__name__, getattr(r, "code", None))
    st.fault("user-rejection")
    st.shape(plan["kind"], len(plan["prior"]), [o[0] for o in plan["ops"]], plan["spec"]["hf"], plan["same"])
    check_rejected(r, dev, calls)
    if plan["same"]:
        sc2.st.hmacs = sc.st.hmacs
    for op in plan["ops"]:
        if op[0] == "replay":
            if not sent:
                continue
            msg = host.clone(sent[op[1] % len(sent)])
            if type(msg).__name__ == "MoneroTransactionInitRequest":
                continue
            st.fault("replayed-message")
        else:
            msg = run(sc2.message(op))
        r = run(dev.tsx_sign(msg))
        st.ev("after", op, type(r).__name__)
        if not is_failure(r):
            raise Violation("released", "after the rejection the device answered %s with %s" % (
                type(msg).__name__, type(r).__name__))
    if plan["again"]:
        # the same transaction accepted the second time works
        dev.user.accept = True
        sc3 = host.Script(w, dev)
        for op in host.canonical(w):
            _, r = run(sc3.do(op))
            if is_failure(r):
                raise Violation("refused", "accepted after a rejection, step %s: %s" % (op, str(r.message)[-200:]))
        st.count("accepted-later")


def check_rejected(r, dev, calls):
    if len(dev.user.shown) == calls:
        raise Violation("unasked", "the user was not asked")
    if not is_failure(r):
        raise Violation("released", "rejected, but the device answered %s" % type(r).__name__)
    from monero_glue.messages import FailureType
    if r.code != FailureType.ActionCancelled:
        raise Violation("code", "rejection reported with code %r" % (r.code,))


def agent(plan, st, w, dev):
    from monero_glue.agent.agent_lite import Agent
    ag = Agent(dev, network_type=w.net)
    ag.hf, ag.client_version = w.hf, max(1, w.client) if w.hf == 10 else w.client
    dev.user.accept = False
    st.fault("user-rejection")
    st.shape("agent", len(w.srcs), len(w.outs), ag.hf, plan["again"])
    try:
        res = run(ag.sign_tx(w.construction_data()))
    except Exception as e:
        st.ev("agent", type(e).__name__)
        if any(not is_failure(r) for _, q, r in dev.log):
            raise Violation("released", "the device answered after the rejection")
        if "rejected" not in str(e) + repr(getattr(e, "__dict__", "")) and "ejected" not in text(dev):
            raise Violation("unreported", "the host does not learn about the rejection: %s" % type(e).__name__)
    else:
        raise Violation("released", "the agent returned a signed transaction: %d" % len(res))
    check_rejected(dev.log[0][2], dev, 0)
    if plan["again"]:
        dev.user.accept = True
        try:
            run(ag.sign_tx(w.construction_data()))
        except Exception as e:
            raise Violation("refused", "the transaction accepted afterwards was not signed: %s" % type(e).__name__)


def text(dev):
    return str(dev.log[0][2].message) if dev.log else ""


def ki(plan, st, w, dev):
    from monero_glue import messages as M
    k = kiworld.KiWorld(plan["ki"], "me")
    init, steps = k.messages(w.net)
    n = len(plan["prior"])
    final = M.MoneroKeyImageSyncFinalRequest()
    if n:
        for m in [init] + steps[:n % (len(steps) + 1)]:
            r = run(dev.key_image_sync(m))
            if is_failure(r):
                raise Violation("refused", "honest export refused: %s" % str(r.message)[-200:])
    dev.user.accept = False
    calls = len(dev.user.shown)
    r = run(dev.key_image_sync(host.clone(init)))
    st.fault("user-rejection")
    st.shape("ki", n, [o[0] for o in plan["ops"]], len(k.outs))
    check_rejected(r, dev, calls)
    seq = steps + [final]
    rng = random.Random(plan["seed"])
    if rng.random() < 0.5:
        rng.shuffle(seq)
    for m in seq + [final]:
        r = run(dev.key_image_sync(host.clone(m)))
        st.ev("after", type(m).__name__, type(r).__name__)
        if not is_failure(r):
            raise Violation("released", "after the rejection the device answered %s with %s" % (
                type(m).__name__, type(r).__name__))
    if plan["again"]:
        dev.user.accept = True
        for m in [init] + steps + [final]:
            r = run(dev.key_image_sync(host.clone(m)))
            if is_failure(r):
                raise Violation("refused", "export accepted after a rejection failed: %s" % str(r.message)[-200:])
