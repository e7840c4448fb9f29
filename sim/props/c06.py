"""C06: sessions of several hosts over one device never mix"""
import copy

from sim import adversary, core, device, host, link, oracle, world
from sim.core import Violation
from sim.device import is_failure, run
from sim.props import common

LEVEL = "exploration"
RUNS = {"quick": 300, "thorough": 8000}
CAP = {"quick": 150, "thorough": 800}
RULE = ("A run interleaves two or three hosts over one device: real host agents as tasks of the seeded scheduler, "
        "switching before and after every message, with link faults and device restarts; or scripted hosts whose "
        "interleaved messages carry data recorded from the other session. Non-trivial: at least one switch inside a "
        "session or a foreign value in a message; distinct by the digest of the exchange.")
SHAPE = "(order in which the hosts' messages reached the device, faults, which hosts completed)"
REAL = ["host agent (Agent)", "device (TokenLite, TsxSigner, transaction builder)", "protobuf codec", "bulletproofs",
        "MLSAG", "EC library"]
STUB = ["transport (simulated link)", "user at the device (scripted)", "random source (seeded)"]
ASSUME = ["the device keeps one signing session; a new session replaces the running one"]
shrink = core.shrink_with_spec(("sched", "ops", "faults", "forge"), ())


def plan(rng, tier, i):
    n = rng.choice([2, 2, 2, 3])
    mode = rng.choice(["agents", "agents", "scripts"])
    specs = []
    for k in range(n):
        if k and rng.random() < 0.5:
            s = copy.deepcopy(specs[0])
            v = rng.choice(["same", "dest", "seed"])
            if v == "dest":
                # equal recipients stay equal: a short payment id needs a single recipient
                m = {x: "r%d" % (4 + n) for n, x in enumerate(sorted(set(d["w"] for d in s["dests"])))}
                for d in s["dests"]:
                    if d["w"] not in ("me",):
                        d["w"] = m[d["w"]]
            elif v == "seed":
                s["seed"] = rng.randint(0, 1 << 40)
        else:
            while True:
                s = world.gen_spec(rng, max_in=2, max_out=3)
                if s["change"] is not None:
                    break
        if s["hf"] == 10:
            s["client"] = 1
        specs.append(s)
    p = {"mode": mode, "specs": specs}
    if mode == "agents":
        style = rng.choice(["serial", "burst", "random"])
        sched = []
        while len(sched) < 160:
            c = rng.randrange(n)
            sched += [c] * {"serial": rng.randint(30, 80), "burst": rng.randint(2, 20), "random": 1}[style]
        p["sched"] = sched
        p["faults"] = [[rng.randrange(n), rng.randint(0, 14), rng.choice(
            ["lost-request", "lost-response", "dup-request", "restart-before", "restart-after", "failure"])]
            for _ in range(rng.choice([0, 0, 1, 2]))]
    else:
        # messages of two sessions interleaved, with values of the other session
        w = [host.canonical(world.WTx(s)) for s in specs]
        first = [[0, o, []] for o in w[0]]
        k = rng.choice([len(first), rng.randint(1, len(first))])
        ops = first[:k]
        main = [[1, o, []] for o in w[1]]
        for _ in range(rng.choice([1, 1, 2, 3])):
            x = main[rng.randrange(1, len(main))]
            if rng.random() < 0.7:
                x[2].append({"k": rng.choice(["donor", "whole", "donor"]), "other": True, "r": rng.randint(0, 1 << 30)})
            else:
                main.insert(rng.randrange(1, len(main)), [0, list(rng.choice(w[0][1:])), []])
        p["ops"] = ops + main
        p["forge"] = []
        if rng.random() < 0.4:
            f = common.forgery(rng, 1, True)
            f["x"] = True
            f["auth"] = rng.choice(["origin", "origin", "none", "keep"])
            p["forge"].append(f)
        if n == 3:
            p["ops"] += [[2, o, []] for o in w[2]]
    return p


BOUND = ("hmacs", "vini_hmac", "pseudo_out_hmac", "pseudo_out_alpha", "spend_key", "vouti_hmac")


def fresh(dev, st):
    """no integrity tag or encrypted value of one session recurs in another one"""
    owner, sess = {}, 0
    for kind, q, r in dev.log:
        if kind != "tx" or is_failure(r):
            continue
        if type(q).__name__ == "MoneroTransactionInitRequest":
            sess += 1
        for f in BOUND:
            v = getattr(r, f, None)
            for x in v if isinstance(v, list) else [v]:
                if not x or len(x) < 16:
                    continue
                k = (f, bytes(x))
                if owner.setdefault(k, sess) != sess:
                    raise Violation("shared-tag", "%s of session %d appears again in session %d" % (
                        f, owner[k], sess))
    st.count("session-bound-values", len(owner))


def execute(plan, st):
    if plan["mode"] == "scripts":
        a = adversary.Arena(plan, st)
        a.go()
        fresh(a.dev, st)
        common.shape_of(a, st, plan)
        st.shape([(s, o[0]) for s, o, _, _, _ in a.results])
        return
    from monero_glue.agent.agent_lite import Agent
    ws = [world.WTx(s) for s in plan["specs"]]
    net = ws[0].net
    dev = device.SimDevice(world.creds_of(ws[0].me, net))
    import random
    tasks, links = [], []
    for k, w in enumerate(ws):
        w.net = net
        f = {}
        for h, n, kind in plan["faults"]:
            if h == k:
                f[n] = kind
        l = link.Link(dev, "h%d" % k, f, True, st, random.Random(k))
        ag = Agent(l, network_type=net)
        ag.hf, ag.client_version = w.hf, w.client
        links.append(l)
        tasks.append(link.Task("h%d" % k, ag.sign_tx(w.construction_data())))
    order = []
    sess = {"cur": None}

    def on_step(t, w):
        k = int(t.name[1:])
        if len(dev.log) > len(order):
            order.extend([k] * (len(dev.log) - len(order)))

    link.Scheduler(plan["sched"], st).run(tasks, on_step)
    for k, t in enumerate(tasks):
        st.ev("end", k, None if t.error is None else type(t.error).__name__, len(order))
    st.shape([x for n, x in enumerate(order) if n == 0 or order[n - 1] != x or True], [l.fired for l in links],
             [t.error is None for t in tasks])
    switches = sum(1 for n in range(1, len(order)) if order[n] != order[n - 1])
    st.count("switches", switches)
    st.sim_time += 0.05 * dev.reqs
    for k, t in enumerate(tasks):
        undisturbed = not links[k].fired and _alone(dev, order, k) and not dev.restarts
        if t.error is None:
            try:
                oracle.check_blob(t.result[0], ws[k])
            except oracle.Bad as e:
                raise Violation("mixed-" + e.kind, "host %d got a wrong transaction: %s" % (k, e.msg))
            st.count("signed")
        elif undisturbed:
            raise Violation("refused", "host %d was not disturbed and failed: %s" % (k, type(t.error).__name__))
        else:
            st.count("failed-hosts")
    # progress once everything settled
    w = ws[-1]
    ag = Agent(dev, network_type=net)
    ag.hf, ag.client_version = w.hf, w.client
    try:
        blob = run(ag.sign_tx(world.WTx(plan["specs"][-1]).construction_data()))[0]
    except Exception as e:
        raise Violation("stuck", "the device does not sign after the hosts finished: %s %s" % (
            type(e).__name__, str(e)[-200:]))
    try:
        oracle.check_blob(blob, w)
    except oracle.Bad as e:
        raise Violation(e.kind, e.msg)
    fresh(dev, st)


def _alone(dev, order, k):
    mine = [n for n, x in enumerate(order) if x == k]
    return bool(mine) and all(order[n] == k for n in range(mine[0], mine[-1] + 1))
