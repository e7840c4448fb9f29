"""C16: an agent using a device server over HTTP ends with the correct result or an error, and can retry"""
from sim import app, boot, core, device, kiworld, oracle, server, world
from sim.core import Violation
from sim.device import run
from sim.props import c15

LEVEL = "exploration"
RUNS = {"quick": 220, "thorough": 8000}
CAP = {"quick": 110, "thorough": 780}
RULE = ("A run signs a transaction, exports key images or asks for the watch-only key with the real agent through the "
        "token proxy and the real device server, while HTTP requests and answers are lost, repeated, cut or refused, "
        "the server process is killed and restarted, and the device's random source or display fails, all at drawn "
        "points; then the same is tried again undisturbed, "
        "with a new agent, the same agent, or the same agent and the very same transaction objects. Non-trivial: a request was answered; distinct by the digest "
        "of all exchanges.")
SHAPE = "(kinds of requests, faults fired, outcomes)"
REAL = c15.REAL
STUB = c15.STUB
ASSUME = ["a restarted server opens the same account file", "TCP delivers an HTTP answer to its own request"]
MEM = c15.MEM
warm = c15.warm
shrink = c15.shrink
HTTP = ["lost-request", "lost-response", "dup-request", "http-500", "cut-response"]


def plan(rng, tier, i):
    net = rng.choice([0, 1, 2])
    a = c15.act(rng, net)
    while a["k"] not in ("tx", "ki", "watch") or (a["k"] == "watch" and rng.random() < 0.6):
        a = c15.act(rng, net)
    if a["k"] == "tx" and rng.random() < 0.3:
        s = world.gen_spec(rng, max_in=3, max_out=6, hfs=(10, 9), clients=(1,))
        while s["change"] is None:
            s = world.gen_spec(rng, max_in=3, max_out=6, hfs=(10, 9), clients=(1,))
        s["net"] = net
        a["spec"] = s
    top = {"tx": 13, "ki": 3, "watch": 1}[a["k"]]
    http, down, dev = {}, {}, {}
    for _ in range(rng.choice([0, 1, 1, 2])):
        http[str(rng.randint(0, top))] = rng.choice(HTTP)
    if rng.random() < 0.35:
        down[str(rng.randint(0, top))] = rng.choice([0, 1, 2])
    if rng.random() < 0.3:
        dev = {"at": rng.randint(0, top), "what": rng.choice(["rng", "rng", "step", "signed"]), "n": rng.randint(1, 6)}
    return {"net": net, "clients": [[a]], "yes": [True] * 12 if rng.random() < 0.9 else [False] + [True] * 11,
            "stray": {}, "switches": {}, "hot": c15.hots(rng) if rng.random() < 0.3 else [], "http": http,
            "down": down, "dev": dev, "keep": rng.choice([0, 1, 1, 2, 2])}


class Rig(server.Rig):
    fired = 0

    def serve(self, r):
        d = self.plan.get("dev")
        undo = None
        if d and not self.fired and r.n >= d["at"]:
            self.fired = 1
            self.st.fault("device-" + d["what"])
            if d["what"] == "rng":
                boot.ENTROPY.fail_at = boot.ENTROPY.draws + d["n"]
            else:
                i = self.srv.trez.iface
                n = "transaction_" + d["what"]

                async def bad(*a, **k):
                    raise device.UiFault("simulated display failure")
                setattr(i, n, bad)
                undo = lambda: delattr(i, n)
        try:
            super().serve(r)
        finally:
            boot.ENTROPY.fail_at = None
            if undo:
                undo()


class Hosts(c15.Hosts):
    """with a drawn choice of what the second attempt starts from: everything anew, the same agent, the same objects"""
    def __init__(self, rig, plan, st):
        super().__init__(rig, plan, st)
        self.kept = {}

    def agent(self):
        if self.plan.get("keep", 0) < 1:
            return super().agent()
        if "agent" not in self.kept:
            self.kept["agent"] = super().agent()
        return self.kept["agent"]

    def given(self, kind, make):
        if self.plan.get("keep", 0) < 2:
            return make()
        if kind not in self.kept:
            self.kept[kind] = make()
        return self.kept[kind]

    def must(self, a, r0):
        return False


def execute(plan, st):
    wal = world.wallet("me")
    rig = Rig(wal, plan["net"], plan, st)
    h = Hosts(rig, plan, st)
    net = app.Net({server.PORT: rig.peer}, plan["http"], st)
    a = plan["clients"][0][0]

    def go():
        n0 = len(net.fired)
        ok = st.counts.get(a["k"] + "-done", 0)
        rejected = not plan["yes"][0]
        h.do(a)
        disturbed = bool(len(net.fired) > n0 or rig.restarts or rig.fired or rejected)
        if st.counts.get(a["k"] + "-done", 0) == ok:
            if not disturbed:
                raise Violation("refused", "undisturbed %s failed: %s" % (a["k"], c15.why("", rig)))
            st.count("failed-by-disturbance")
        elif rejected and not any(y for r in rig.reqs for _, _, y in r.dialogs):
            raise Violation("unconfirmed", "done although the user rejected")
        # once it is quiet again the next attempt succeeds
        net.faults, rig.down, rig.refuse = {}, {}, 0
        rig.plan = dict(rig.plan, dev=None)
        rig.user_yes = [True] * 9
        if disturbed:
            rig.sched.block(lambda: rig.cur is None and not rig.queue)
            n = st.counts.get(a["k"] + "-done", 0)
            h.do(a)
            if st.counts.get(a["k"] + "-done", 0) == n:
                raise Violation("retry", "undisturbed retry of %s failed: %s" % (a["k"], c15.why("", rig)))
            st.count("retried")
        elif not disturbed:
            st.count("undisturbed")
    t = rig.client("host", go)
    rig.run(net)
    if t.error is not None:
        raise t.error
    st.count("requests", len(rig.reqs))
    st.shape(a["k"], [f for _, f in net.fired], rig.restarts, rig.fired, sorted(st.counts.items())[:6],
             plan.get("dev", {}).get("what"))
    st.sim_time += 0.05 * len(rig.reqs) + 5.0 * rig.choices
