"""C01: every valid transaction gets signed, whatever happened on the device before, and the result verifies"""
from sim import core, device, host, oracle, world
from sim.core import Violation
from sim.device import is_failure, run

LEVEL = "exploration"
RUNS = {"quick": 220, "thorough": 6000}
CAP = {"quick": 100, "thorough": 780}
RULE = ("A run is one generated valid transaction (accounts, subaddress inputs, additional keys, payment ids, sweeps, "
        "protocol variants) signed by the real host agent (or a scripted host) against the real device, after a "
        "drawn number of sessions abandoned at drawn steps on the same device. Non-trivial: the transaction was "
        "offered to the device; distinct by the digest of the exchanged bytes.")
SHAPE = ("(inputs, outputs, protocol variant, account kind, payment id kind, change kind, subaddress mix, host kind, "
         "points at which earlier sessions were abandoned)")
REAL = ["host agent (Agent)", "device (TokenLite, TsxSigner, transaction builder)", "protobuf codec", "bulletproofs",
        "MLSAG", "EC library"]
STUB = ["USB transport (in-process wire)", "user at the device (scripted)", "wallet and blockchain (generated world)",
        "random source (seeded)"]
ASSUME = ["curve arithmetic and keccak of the installed trezor-crypto C library are correct (shared with the oracle)",
          "rings have at least two members, change goes to the spending account or the transaction is a sweep"]
shrink = core.shrink_with_spec(("prior",), ("spec",))


def plan(rng, tier, i):
    mode = rng.choice(["agent", "agent", "agent", "script"])
    while True:
        if i % 40 == 39:
            spec = world.gen_spec(rng, small=False, max_in=3, max_out=18, hfs=(10, 9))
        elif i % 10 == 7:
            spec = world.gen_spec(rng, max_in=8, max_out=3)
        elif i % 20 == 13:
            spec = world.gen_spec(rng, small=False, max_in=rng.choice([8, 13, 18]), max_out=2, hfs=(10,))
            for s in spec["srcs"]:
                if rng.random() < 0.8:
                    s["minor"] = rng.randint(0, 400)
        else:
            spec = world.gen_spec(rng, max_in=4, max_out=9)
        if mode == "agent":
            if spec["change"] is None:
                continue
            if spec["hf"] == 10:
                spec["client"] = 1
        break
    prior = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        prior.append({"spec": world.gen_spec(rng, max_in=2, max_out=2, hfs=(10,), clients=(1,)),
                      "stop": rng.randint(0, 9), "how": rng.choice(["leave", "restart", "reject", "garbage"])})
    return {"spec": spec, "mode": mode, "prior": prior}


def execute(plan, st):
    w = world.WTx(plan["spec"])
    sp = plan["spec"]
    dev = device.SimDevice(world.creds_of(w.me, w.net))
    for p in plan["prior"]:
        pw = world.WTx(p["spec"])
        pw.net = w.net
        sc = host.Script(pw, dev)
        dev.user.accept = p["how"] != "reject"
        for op in host.canonical(pw)[:1 + p["stop"]]:
            _, r = run(sc.do(op))
            if is_failure(r):
                break
        if p["how"] == "garbage":
            run(sc.do(["allout"]))
        if p["how"] == "restart":
            dev.restart()
        dev.user.accept = True
        st.fault("session-abandoned-" + p["how"])
    dev.log.clear()
    st.shape(len(w.srcs), len(w.outs), sp["hf"], sp["client"], sp["account"] > 0, sp["pid"], sp["kind"],
             [s["minor"] > 0 for s in sp["srcs"]], [s["add"] for s in sp["srcs"]], [o[4] for o in w.outs],
             plan["mode"], [(p["how"], p["stop"]) for p in plan["prior"]])
    if plan["mode"] == "agent":
        from monero_glue.agent.agent_lite import Agent
        ag = Agent(dev, network_type=w.net)
        ag.hf, ag.client_version = w.hf, w.client
        try:
            blob = run(ag.sign_tx(w.construction_data()))[0]
        except Exception as e:
            raise Violation("refused", "valid transaction was not signed: %s: %s" % (
                type(e).__name__, fail_text(e, dev)))
        st.ev("blob", blob)
        try:
            oracle.check_blob(blob, w)
        except oracle.Bad as e:
            raise Violation(e.kind, e.msg)
    else:
        sc = host.Script(w, dev)
        for op in host.canonical(w):
            _, r = run(sc.do(op))
            if is_failure(r):
                raise Violation("refused", "step %s of a valid session refused: %s" % (op, str(r.message)[-300:]))
        s = oracle.sessions(dev.log)[-1]
        s.confirmed = dev.user.confirmed
        try:
            n = oracle.check_session(s, w)
        except oracle.Bad as e:
            raise Violation(e.kind, e.msg)
        if n != len(w.srcs):
            raise Violation("incomplete", "%d signatures" % n)
        st.ev("sig", [bytes(r.signature) for _, r in s.get("MoneroTransactionSignInputRequest")])
    st.count("signed")
    st.count("outputs", len(w.outs))
    st.count("inputs", len(w.srcs))
    st.sim_time += 0.05 * dev.reqs


def fail_text(e, dev):
    if dev.log and is_failure(dev.log[-1][2]):
        return str(dev.log[-1][2].message)[-300:]
    return str(e)[-300:]
