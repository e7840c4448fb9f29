"""C08: key image export is complete and correct for every wallet, and retried exports succeed"""
import random

from sim import core, device, host, kiworld, link, ref, world
from sim.core import Violation
from sim.device import is_failure, run

LEVEL = "exploration"
RUNS = {"quick": 700, "thorough": 14000}
CAP = {"quick": 110, "thorough": 780}
RULE = ("A run exports the key images of a generated wallet (0 to 45 outputs, subaddresses, additional keys, accounts) "
        "with the real host agent over a link with drawn faults, after drawn earlier sessions on the device, possibly "
        "while a transaction session is open, then retries undisturbed; or exports the watch-only key. Non-trivial: an "
        "export reached the device; distinct by the digest of the exchange.")
SHAPE = "(outputs, mix of subaddresses and additional keys, earlier sessions, link faults, outcome)"
REAL = ["host agent (Agent.import_outputs, get_watch_only)", "device (TokenLite, KeyImageSync)", "protobuf codec",
        "EC library"]
STUB = ["transport (simulated link)", "user at the device (scripted)", "wallet outputs (generated world)",
        "random source (seeded)"]
ASSUME = ["curve arithmetic and keccak of the installed trezor-crypto C library are correct (shared with the oracle)",
          "the transport pairs a response with its request (responses are lost or replaced by a failure or another type only)"]
FAULTS = ["lost-request", "lost-response", "dup-request", "restart-before", "restart-after", "failure", "wrong-type"]


def plan(rng, tier, i):
    mx = rng.choice([3, 3, 9, 12, 21])
    ki = kiworld.gen(rng, mx)
    if i % 8 == 3:
        n = rng.choice([0, 1, 9, 10, 11, 19, 20, 21, 30, 40, 45])
        while len(ki["outs"]) != n:
            ki = kiworld.gen(rng, 45)
            if len(ki["outs"]) > n:
                ki["outs"] = ki["outs"][:n]
    faults = {}
    if rng.random() < 0.6:
        for _ in range(rng.choice([1, 1, 2])):
            faults[str(rng.randint(0, 4))] = rng.choice(FAULTS)
    prior = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        prior.append({"ki": kiworld.gen(rng, 4), "stop": rng.randint(0, 4), "reject": rng.random() < 0.2})
    return {"ki": ki, "faults": faults, "prior": prior, "net": rng.choice([0, 1, 2]),
            "tx": world.gen_spec(rng, max_in=1, max_out=2, hfs=(10,), clients=(1,)) if rng.random() < 0.15 else None,
            "watch": rng.random() < 0.15, "seed": rng.randint(0, 1 << 30)}


def shrink(plan):
    import copy
    yield from core.generic_shrink(plan, ("prior",))
    for k, v in (("tx", None), ("faults", {}), ("watch", False), ("net", 0)):
        if plan[k] != v:
            c = copy.deepcopy(plan)
            c[k] = v
            yield c
    outs = plan["ki"]["outs"]
    n = len(outs)
    for step in (n // 2, n // 4, 1):
        if step:
            for lo in range(0, n, step):
                c = copy.deepcopy(plan)
                del c["ki"]["outs"][lo:lo + step]
                yield c
    for j in range(n):
        for k, v in (("major", 0), ("minor", 0), ("add", False), ("oidx", 0), ("nonce", False)):
            if outs[j][k] != v:
                c = copy.deepcopy(plan)
                c["ki"]["outs"][j][k] = v
                yield c


def check(res, k, partial=False):
    if len(res) != len(k.outs):
        raise Violation("incomplete", "%d key images for %d outputs" % (len(res), len(k.outs)))
    for n, (o, (ki, sig)) in enumerate(zip(k.outs, res)):
        if bytes(ki) != o.ki:
            raise Violation("wrong", "key image %d is wrong" % n)
        if not ref.verify_ki_sig(bytes(ki), o.dest, (bytes(sig[0]), bytes(sig[1]))):
            raise Violation("signature", "signature of key image %d does not verify" % n)


def execute(plan, st):
    from monero_glue.agent.agent_lite import Agent
    from monero_glue import messages as M
    me = world.wallet("me")
    dev = device.SimDevice(world.creds_of(me, plan["net"]))
    for p in plan["prior"]:
        k0 = kiworld.KiWorld(p["ki"], "me")
        init, steps = k0.messages(plan["net"], 2)
        seq = ([init] + steps + [M.MoneroKeyImageSyncFinalRequest()])[:1 + p["stop"]]
        dev.user.accept = not p["reject"]
        for m in seq:
            run(dev.key_image_sync(m))
        dev.user.accept = True
        st.fault("export-abandoned")
    if plan["tx"]:
        w = world.WTx(plan["tx"])
        w.net = plan["net"]
        sc = host.Script(w, dev)
        half = host.canonical(w)
        cut = len(half) // 2
        for op in half[:cut]:
            _, r = run(sc.do(op))
            if is_failure(r):
                raise Violation("refused", "transaction step refused: %s" % str(r.message)[-200:])
    k = kiworld.KiWorld(plan["ki"], "me")
    rng = random.Random(plan["seed"])
    l = link.Link(dev, "h", plan["faults"], False, st, rng)
    ag = Agent(l, network_type=plan["net"])
    watch(plan, st, dev, me, ag, l)
    tds = k.transfers()
    n0 = len(dev.user.shown)
    try:
        res = run(ag.import_outputs(tds))
    except Exception as e:
        if not l.fired:
            raise Violation("refused", "undisturbed export failed: %s: %s" % (type(e).__name__, str(e)[-300:]))
        st.ev("failed", type(e).__name__)
        st.count("disturbed-failed")
    else:
        if not dev.restarts and len(dev.user.shown) == n0:
            raise Violation("unconfirmed", "key images exported without asking the user")
        check(res, k)
        st.ev("ok", len(res))
        st.count("exported", len(res))
    st.shape(len(k.outs), [(o["major"] > 0, o["minor"] > 0, o["add"]) for o in plan["ki"]["outs"]][:6],
             [(p["stop"], p["reject"]) for p in plan["prior"]], l.fired, bool(plan["tx"]))
    # undisturbed retry by the same agent
    l.faults = {}
    try:
        res = run(ag.import_outputs(tds))
    except Exception as e:
        raise Violation("refused", "retried export failed: %s: %s" % (type(e).__name__, str(e)[-300:]))
    check(res, k)
    if plan["tx"] and not dev.restarts:
        for op in half[cut:]:
            _, r = run(sc.do(op))
            if is_failure(r):
                raise Violation("disturbed", "an export broke the transaction session: %s" % str(r.message)[-200:])
        st.count("exports-inside-transactions")
    st.sim_time += 0.05 * dev.reqs


def watch(plan, st, dev, me, ag, l):
    """watch-only key"""
    if not plan["watch"]:
        return
    f = l.faults
    l.faults = {}
    res = run(ag.get_watch_only())
    l.faults = f
    l.n = 0
    spend, view = me.addr(0, 0)
    if bytes(res.watch_key) != ref.i2b(me.a):
        raise Violation("watch-key", "wrong view key exported")
    if bytes(res.address) != ref.address_str(spend, view, net=plan['net']):
        raise Violation("watch-key", "wrong address exported")
    from monero_glue.agent.agent_lite import Agent
    other = Agent(dev, network_type=(plan["net"] + 1) % 3)
    try:
        r = run(other.get_watch_only())
    except Exception:
        st.count("watch-other-network-refused")
    else:
        raise Violation("watch-key", "key of another network exported: %r" % type(r).__name__)
    st.count("watch-key")
