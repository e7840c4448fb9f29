"""C27: an agent with a Trezor on a cable gets the right result or an error, releases the device, and can try again"""
import copy
import sys

from sim import app, core, device, keydev, kiworld, oracle, ref, trezor, world
from sim.core import Violation
from sim.device import is_failure, run

LEVEL = "exploration"
RUNS = {"quick": 260, "thorough": 9000}
CAP = {"quick": 100, "thorough": 780}
RULE = ("A run connects the command line agent to a simulated Trezor and signs transactions, exports key images, asks "
        "for the watch-only key, recovers transaction keys, refreshes outputs or loads entropy, while chunks on the cable cannot be "
        "written or read, the device is reset or unplugged, answers with failures, or asks for buttons, PIN and "
        "passphrase which the user gives or refuses, at drawn messages; then everything that failed is tried again "
        "undisturbed, with or without a new connection. Non-trivial: a message arrived; distinct by the digest of all messages.")
SHAPE = "(operations and outcomes, faults fired and the messages they hit, reconnections)"
REAL = ["agent's Trezor manager and connection command", "message conversion", "trezorlib client and wire format (installed 0.12.3)",
        "host agent (Agent)", "device (TokenLite)", "protobuf codec", "EC library"]
STUB = ["USB cable and device enumeration", "choice menu of cmd2", "firmware around TokenLite (dialogs, Initialize, Ping, key services)",
        "PIN and passphrase entry", "random source (seeded)", "worker thread of the agent (coroutines run in the caller)"]
ASSUME = ["a signing workflow of the firmware ends when another message arrives",
          "chunks waiting on the cable are dropped when the device is opened again"]
KINDS = ["write-error", "read-error", "reset-before", "reset-after", "unplug-before", "unplug-after", "failure",
         "button", "pin", "pin-wrong", "pin-cancel", "passphrase", "passphrase-cancel", "cancel", "cancel"]
HARMLESS = ("button", "pin", "passphrase")
MEM = 2 << 30


def warm():
    app.warm()
    app.agent_class()
    from monero_glue.trezor import manager  # noqa: F401


def op(rng, net):
    k = rng.choice(["tx"] * 5 + ["ki", "ki", "watch", "watch", "live", "entropy"])
    o = {"k": k, "conn": rng.random() < 0.25}
    if o["conn"] and rng.random() < 0.3:
        o["k"] = k = "watch"
    if k == "tx":
        while True:
            o["spec"] = world.gen_spec(rng, max_in=3, max_out=rng.choice([3, 3, 6]), hfs=(10, 10, 9), clients=(1,))
            if o["spec"]["change"] is not None:
                break
        o["spec"]["net"] = net
        o["key"] = rng.random() < 0.5
    elif k in ("ki", "live"):
        while True:
            o["ki"] = kiworld.gen(rng, 4)
            if k == "ki" or o["ki"]["outs"]:
                break
    elif k == "entropy":
        o["size"] = rng.choice([1, 32, 1024, 10240, 10241, 30000])
    return o


def plan(rng, tier, i):
    net = rng.choice([0, 1, 2])
    ops = [op(rng, net) for _ in range(rng.choice([1, 1, 2, 3]))]
    top = 3 + sum({"tx": 16, "ki": 5, "watch": 1, "live": 5, "entropy": 2}[o["k"]] for o in ops)
    f = {}
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        f[str(rng.randint(0, top))] = [rng.choice(KINDS), rng.choice([1, 1, 2, 3, 9])]
    return {"net": net, "ops": ops, "faults": f, "patch": rng.random() < 0.15, "again": rng.randint(0, 1),
            "other": rng.choice([None, None, 0, 1]), "how": rng.choice(["path", "path", "found", "switch"]), "re": [rng.choice(["connect", "reconnect", "switch", "found"])
                                                              for _ in range(4)],
            "yes": [rng.random() < 0.93 for _ in range(6)]}


def shrink(p):
    for j in range(len(p["ops"])):
        if len(p["ops"]) > 1:
            c = copy.deepcopy(p)
            del c["ops"][j]
            yield c
    for k in p["faults"]:
        c = copy.deepcopy(p)
        del c["faults"][k]
        yield c
    for k, v in (("patch", False), ("other", None), ("again", 0), ("yes", [True] * 6)):
        if p[k] != v:
            c = copy.deepcopy(p)
            c[k] = v
            yield c
    for j, o in enumerate(p["ops"]):
        if "spec" in o:
            for s in core.shrink_spec(o["spec"]):
                if s is not None and s["change"] is not None:
                    c = copy.deepcopy(p)
                    c["ops"][j]["spec"] = dict(s, net=p["net"])
                    yield c


def content(msg):
    """fields with values, whatever library the message or a part of it belongs to"""
    if isinstance(msg, list):
        return [content(x) for x in msg]
    if hasattr(msg, "get_fields"):
        r = {f[0]: content(getattr(msg, f[0], None)) for f in msg.get_fields().values()}
        return {k: v for k, v in r.items() if v is not None and v != []}
    return bytes(msg) if isinstance(msg, (bytes, bytearray)) else msg


class Bench(object):
    def __init__(self, plan, st, term):
        self.plan, self.st, self.term = plan, st, term
        self.me = world.wallet("me")
        trezor.patch()
        self.cable = trezor.CUR = trezor.Cable(self.me, plan["net"], st, plan["faults"])
        trezor.CABLES[:] = [self.cable]
        if plan["how"] == "switch":
            self.plan = plan = dict(plan, other=plan["other"] or 0)
        if plan["other"] is not None:
            # somebody else's device is plugged in, too
            trezor.CABLES.insert(plan["other"], trezor.Cable(world.wallet("thief"), plan["net"], st, {}, "sim:zzz"))
        yes = list(plan["yes"])
        self.cable.dev.user.accept = lambda kind, snap: self.decide(yes)
        self.said = []
        self.switched = False
        self.host = app.agent_class()()
        # the menu: the user picks by the text shown
        self.host.select = lambda opts, prompt="": [v for v, t in opts if t == trezor.PATH][0]
        self.host.args = app.args(patch_client=plan["patch"], **{
            "path": {"trezor_path": trezor.PATH}, "found": {"poc": False}, "switch": {"trezor_path": "sim:zzz"}}[plan["how"]])
        if plan["how"] == "switch":
            run(self.host.connect())

    def decide(self, yes):
        y = yes.pop(0) if yes else True
        self.said.append(y)
        return y

    def connect(self):
        p0 = self.host.trezor_proxy
        h = self.host
        how = "connect" if p0 is None else self.plan["re"][self.cable.opens % 4]
        if self.plan["how"] == "switch" and (not self.switched or how == "connect"):
            how = "switch"
        {"connect": lambda: run(h.connect()), "reconnect": lambda: h.do_reconnect(""),
         "switch": lambda: h.do_switch(trezor.PATH), "found": lambda: h.do_switch("")}[how]()
        p = self.host.trezor_proxy
        if p is p0:
            raise Violation("not-connected", "the agent did not connect anew")
        if not self.switched:
            self.host.set_network_type(self.plan["net"])
        self.switched = True
        for n in ("tsx_sign", "key_image_sync", "get_view_key", "get_tx_key", "live_refresh"):
            setattr(p, n, self.watched(getattr(p, n)))

    def watched(self, fn):
        """what the agent hands over is what the firmware reads, and the other way"""
        async def call(msg, *a, **k):
            blob = (await device.wire(msg))[1]
            c = self.cable
            n, g = len(c.got), len(c.gave)
            try:
                res = await fn(msg, *a, **k)
            finally:
                if len(c.got) > n + 1 or (len(c.got) == n + 1 and c.got[n] != blob):
                    raise Violation("altered", "%s reaches the device altered" % type(msg).__name__)
            if len(c.gave) != g + 1:
                raise Violation("stale", "%s was answered although the device did not get it" % type(msg).__name__)
            if type(res).__name__ != c.gave[g][0] or content(res) != content(c.gave[g][1]):
                raise Violation("altered", "the answer %s of the device arrives altered" % c.gave[g][0])
            return res
        return call

    # ------------------------------------------------------------- operations
    def tx(self, o):
        w = world.WTx(o["spec"])
        ag = self.host.agent
        ag.hf, ag.client_version = w.hf, w.client
        blob = bytes(run(ag.sign_tx(w.construction_data()))[0])
        try:
            oracle.check_blob(blob, w)
        except oracle.Bad as e:
            raise Violation(e.kind, e.msg)
        if o["key"]:
            from monero_glue.xmr import crypto
            t = ref.parse_tx(blob)
            ph = ref.keccak(t.prefix)
            c = ag.ct
            keys = keydev.open_tx_keys(self.me, c.enc_salt1, c.enc_salt2, c.enc_keys, ph)
            got = run(ag.get_tx_key(c.enc_salt1, c.enc_salt2, c.enc_keys, ph, crypto.decodeint(ref.i2b(self.me.a))))
            if keys is None or [ref.b2i(bytes(crypto.encodeint(x))) for x in got] != keys:
                raise Violation("wrong-keys", "recovered transaction keys differ")

    def ki(self, o):
        from sim.props import c08
        k = kiworld.KiWorld(o["ki"])
        c08.check(run(self.host.agent.import_outputs(k.transfers())), k)

    def watch(self, o):
        from monero_glue.xmr import crypto
        r = run(self.host.agent.get_watch_only())
        if is_failure(r):
            raise RuntimeError("refused")
        if bytes(r.watch_key) != ref.i2b(self.me.a):
            raise Violation("wrong-key", "the watch-only key is not the wallet's")
        sp, vp = self.me.addr()
        want = ref.address_str(sp, vp, False, None, self.plan["net"])
        if bytes(r.address) != want:
            raise Violation("wrong-address", "the address is not the wallet's on this network")

    def live_refresh(self, o):
        from monero_glue.xmr import crypto
        kw = kiworld.KiWorld(o["ki"])
        ag = self.host.agent
        view = crypto.decodeint(ref.i2b(self.me.a))
        run(ag.live_refresh_start())
        for x in kw.outs:
            got = run(ag.live_refresh(view, x.dest, x.der, x.oidx, x.pair[0], x.pair[1]))
            if bytes(crypto.encodepoint(got)) != x.ki:
                raise Violation("wrong-ki", "a wrong key image was accepted")

    def entropy(self, o):
        open("entropy.bin", "wb").write(b"leftover")
        self.cable.given = b""
        run(self.host.get_entropy(o["size"], "entropy.bin"))
        b = open("entropy.bin", "rb").read()
        if len(b) < o["size"] or b != self.cable.given:
            raise Violation("entropy", "the file is not what the device gave")

    def do(self, o):
        """True: done; False: failed; the device is released in any case"""
        try:
            if o["k"] == "connect":
                self.connect()
            else:
                getattr(self, {"live": "live_refresh"}.get(o["k"], o["k"]))(o)
            ok, self.error = True, None
        except Violation:
            raise
        except Exception as e:
            ok, self.error = False, e
        if self.cable.open is not None:
            raise Violation("left-open", "the device stays taken after %s (%s)" % (
                o["k"], "done" if ok else type(self.error).__name__))
        self.st.ev(o["k"], ok, type(self.error).__name__)
        self.st.count(o["k"] + ("-done" if ok else "-failed"))
        return ok


def text(e):
    try:
        return str(e)[-200:]
    except Exception:
        return "?"


def execute(plan, st):
    term = app.Terminal()
    with app.scene(term=term):
        go(plan, st, term)


def go(plan, st, term):
    b = Bench(plan, st, term)
    c = b.cable
    seq = []

    def attempt(o, must):
        n0, s0, gen = len(c.fired), len(b.said), c.gen
        ok = b.do(o)
        if len(trezor.CABLES) > 1 and any(x.got for x in trezor.CABLES if x is not c):
            raise Violation("other-device", "the agent talks to another device than the chosen one")
        bad = [f for _, f in c.fired[n0:] if f not in HARMLESS]
        rejected = not all(b.said[s0:])
        seq.append((o["k"], ok, bad, rejected))
        if ok and rejected:
            raise Violation("unconfirmed", "%s done although the user rejected" % o["k"])
        if ok and any(f == "cancel" or f.endswith("-cancel") for f in bad):
            raise Violation("override", "%s done although the user cancelled" % o["k"])
        if not ok and (must or (not bad and not rejected)):
            raise Violation("refused" if not must else "retry", "%s failed undisturbed: %s %s" % (
                o["k"], type(b.error).__name__, text(b.error)))
        return ok

    def steady(o):
        if attempt(o, False):
            return
        # quiet from now on for this one
        keep, c.faults, c.fault = c.faults, {}, None
        yes, b.plan_yes = b.cable.dev.user.accept, None
        c.dev.user.accept = lambda kind, snap: True
        if o["k"] != "connect" and (b.host.trezor_proxy is None or plan["again"]
                                    or b.host.trezor_proxy.wirelink.protocol.handle.gen != c.gen):
            attempt({"k": "connect"}, True)
            st.count("reconnected")
        attempt(o, True)
        st.count("retried")
        c.faults = {k: v for k, v in keep.items() if k > c.n}
        c.dev.user.accept = yes
    steady({"k": "connect"})
    for o in plan["ops"]:
        if o["conn"] or b.host.trezor_proxy.wirelink.protocol.handle.gen != c.gen:
            steady({"k": "connect"})
        steady(o)
    st.count("messages", len(c.got))
    for m in c.got[:400]:
        st.ev("msg", m)
    st.shape(seq, c.fired, c.opens)
    st.sim_time += 0.05 * c.n + 3.0 * len(c.ui_log)
