"""C15: the device server gives out only what its user confirmed, shows exactly what it is, and never hangs"""
import copy

from sim import app, boot, core, device, host, kiworld, oracle, server, world
from sim.core import Violation
from sim.device import is_failure, run

LEVEL = "exploration"
RUNS = {"quick": 260, "thorough": 9000}
CAP = {"quick": 110, "thorough": 780}
RULE = ("A run starts the real device server with an account file; one or two host threads send it signing sessions "
        "(complete, abandoned, repeated or altered), key image exports, watch-only requests and junk over simulated "
        "HTTP, while a user at the console answers the dialogs with drawn decisions and types other commands at drawn "
        "moments. Threads are preempted at drawn source lines of the server. Non-trivial: a request was answered; "
        "distinct by the digest of all dialogs, answers and thread switches.")
SHAPE = "(kinds of requests, decisions, stray commands, preemptions, outcomes)"
REAL = ["device server (routes, handlers, dialogs, prompts, account opening)", "flask routing and JSON",
        "token proxy and requests up to its transport adapter", "device (TokenLite)", "host agent", "protobuf codec",
        "threading.Event, Condition (standard library, over simulated locks)", "EC library"]
STUB = ["thread scheduler and locks (deterministic)", "console user and choice menu", "HTTP transport",
        "green thread server (requests one after another, as its blocking wait makes them)", "random source (seeded)"]
ASSUME = ["lines of source are the finest grain of preemption",
          "the shipped default server (eventlet) serves one request at a time; the threaded debug server is not simulated"]
MEM = 2 << 30


def warm():
    server.server_class()


def act(rng, net):
    k = rng.choice(["tx"] * 5 + ["script"] * 3 + ["ki", "ki", "watch", "watch", "junk"])
    a = {"k": k}
    if k in ("tx", "script"):
        a["spec"] = world.gen_spec(rng, max_in=2, max_out=3, hfs=(10,), clients=(1,))
        if k == "tx":
            while a["spec"]["change"] is None:
                a["spec"] = world.gen_spec(rng, max_in=2, max_out=3, hfs=(10,), clients=(1,))
        a["spec"]["net"] = net
    if k == "script":
        a["stop"] = rng.choice([1, 1, 2, 3, 6, 99])
        a["twice"] = rng.random() < 0.3
        a["go_on"] = rng.random() < 0.4     # continues after a refusal
    if k == "ki":
        a["ki"] = kiworld.gen(rng, 4)
    if k == "junk":
        a["path"] = rng.choice(["tx_sign", "ki_sync", "watch_only", "get_keys", "ping", "nothing"])
        a["body"] = rng.choice(["", "{}", "[]", '{"payload": 1}', '{"payload": {"msg": "00", "msg_type": 501}}',
                                '{"payload": {"msg": "zz", "msg_type": 501}}', '{"payload": {"msg": "", "msg_type": 1}}'])
        a["get"] = rng.random() < 0.4
    return a


def hots(rng):
    res = []
    for _ in range(3):
        if rng.random() < 0.6:
            n = rng.choice([2, 4, 8, 16, 30])
            p = rng.choice([0.15, 0.5])
            res.append([rng.randint(0, 3) if rng.random() < p else None for _ in range(n)])
        else:
            res.append([])
    return res


def plan(rng, tier, i):
    net = rng.choice([0, 1, 2])
    clients = [[act(rng, net) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(rng.choice([1, 1, 2]))]
    yes = rng.choice([1.0, 0.75, 0.4])
    sw = {}
    for _ in range(rng.choice([0, 1, 2, 4])):
        n = rng.choice([1, 2, 8, 25])
        sw[str(rng.randint(1, 500))] = [rng.randint(0, 3) for _ in range(n)]
    return {"net": net, "clients": clients, "yes": [rng.random() < yes for _ in range(12)],
            "stray": {str(rng.randint(1, 30)): rng.choice(["T", "W", "K", "T", "KK"])
                      for _ in range(rng.choice([0, 0, 1, 3]))},
            "switches": sw, "hot": hots(rng)}


def shrink(plan):
    for j in range(len(plan["clients"])):
        if len(plan["clients"]) > 1:
            c = copy.deepcopy(plan)
            del c["clients"][j]
            yield c
        for x in range(len(plan["clients"][j])):
            if len(plan["clients"][j]) > 1:
                c = copy.deepcopy(plan)
                del c["clients"][j][x]
                yield c
    for k, v in (("stray", {}), ("switches", {}), ("hot", []), ("http", {}), ("down", {}), ("dev", {})):
        if plan.get(k):
            c = copy.deepcopy(plan)
            c[k] = v
            yield c
            for x in list(plan[k]) if isinstance(plan[k], dict) else []:
                c = copy.deepcopy(plan)
                del c[k][x]
                yield c
    for j, h in enumerate(plan["hot"]):
        for x in range(len(h)):
            if h[x] is not None:
                c = copy.deepcopy(plan)
                c["hot"][j][x] = None
                yield c
    for k, v in plan["switches"].items():
        if len(v) > 1:
            c = copy.deepcopy(plan)
            c["switches"][k] = v[:len(v) // 2]
            yield c
    for j, cl in enumerate(plan["clients"]):
        for x, a in enumerate(cl):
            if "spec" in a:
                for s in core.shrink_spec(a["spec"]):
                    if s is not None and (a["k"] != "tx" or s["change"] is not None):
                        c = copy.deepcopy(plan)
                        c["clients"][j][x]["spec"] = s
                        yield c


class Hosts(object):
    """what the host threads do"""

    def __init__(self, rig, plan, st):
        self.rig, self.plan, self.st = rig, plan, st

    def proxy(self):
        from monero_poc.utils.trezor_server_proxy import TokenProxy
        return TokenProxy()

    def agent(self):
        from monero_glue.agent.agent_lite import Agent
        return Agent(self.proxy(), network_type=self.plan["net"])

    def alone(self):
        return len(self.plan["clients"]) == 1

    def went(self, r0):
        """decisions and dialogs of the requests since then"""
        return [y for r in self.rig.reqs[r0:] for _, _, y in r.dialogs]

    def do(self, a):
        r0 = len(self.rig.reqs)
        try:
            res = getattr(self, a["k"])(a)
        except (Violation, core_stop()):
            raise
        except Exception as e:
            self.st.ev("failed", a["k"], type(e).__name__)
            self.st.count(a["k"] + "-failed")
            if self.must(a, r0):
                raise Violation("refused", "%s: %s: %s" % (a["k"], type(e).__name__, why(e, self.rig)))
            return
        self.st.count(a["k"] + "-done")
        self.st.ev("done", a["k"])
        return res

    def must(self, a, r0):
        """nothing stands in the way of this request"""
        return self.alone() and a["k"] in ("tx", "ki", "watch") and all(self.went(r0)) and self.went(r0) != []

    def given(self, kind, make):
        """what the caller hands to the agent"""
        return make()

    def tx(self, a):
        w, cd = self.given("tx", lambda: (lambda x: (x, x.construction_data()))(world.WTx(a["spec"])))
        ag = self.agent()
        ag.hf, ag.client_version = w.hf, w.client
        r0 = len(self.rig.reqs)
        blob = run(ag.sign_tx(cd))[0]
        try:
            oracle.check_blob(blob, w)
        except oracle.Bad as e:
            raise Violation(e.kind, e.msg)
        if not any(self.went(r0)):
            raise Violation("unconfirmed", "signed without any confirmation")
        self.st.ev("blob", blob)

    def script(self, a):
        w = world.WTx(a["spec"])
        sc = host.Script(w, self.proxy())
        n = 0
        live = False
        for op in host.canonical(w)[:a["stop"]]:
            for _ in range(2 if a["twice"] and op[0] == "init" else 1):
                m, r = run(sc.do(op))
                if is_failure(r):
                    n += 1
                    live = False
                elif op[0] == "init":
                    live = True
                elif not live and self.alone():
                    raise Violation("unconfirmed", "step %s answered with %s without a confirmed session" % (
                        op, type(r).__name__))
            if n and not a["go_on"]:
                return

    def ki(self, a):
        from sim.props import c08
        k, tds = self.given("ki", lambda: (lambda x: (x, x.transfers()))(kiworld.KiWorld(a["ki"])))
        c08.check(run(self.agent().import_outputs(tds)), k)

    def watch(self, a):
        run(self.agent().get_watch_only())

    def junk(self, a):
        import requests
        u = "http://127.0.0.1:%d/api/v1.0/%s" % (server.PORT, a["path"])
        r = requests.get(u) if a["get"] else requests.post(u, data=a["body"],
                                                           headers={"content-type": "application/json"})
        self.st.fault("junk-request")
        r.json()


def core_stop():
    from sim import threads
    return threads.Killed


def why(e, rig):
    t = str(e)[-200:]
    for r in reversed(rig.reqs):
        if r.res is not None and type(r.res).__name__ == "Failure":
            return t + " / " + str(r.res.message)[-200:]
    return t


def execute(plan, st):
    wal = world.wallet("me")
    rig = server.Rig(wal, plan["net"], plan, st)
    h = Hosts(rig, plan, st)
    net = app.Net({server.PORT: rig.peer}, plan.get("http"), st)
    h.net = net
    ts = [rig.client("host%d" % j, lambda c=c: [h.do(a) for a in c]) for j, c in enumerate(plan["clients"])]
    rig.run(net)
    for t in ts:
        if t.error is not None:
            raise t.error
    st.count("requests", len(rig.reqs))
    st.shape([[a["k"] for a in c] for c in plan["clients"]], [y for r in rig.reqs for _, _, y in r.dialogs],
             sorted(plan["stray"].values()), len(rig.sched.trace_log), sorted(st.counts.items())[:6])
    st.sim_time += 0.05 * len(rig.reqs) + 5.0 * rig.choices
