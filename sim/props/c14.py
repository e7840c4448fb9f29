"""C14: transaction keys of every signed transaction can be recovered, by the wallet which signed it only"""
import copy
import random

from sim import core, device, keydev, link, ref, world
from sim.core import Violation
from sim.device import run
from sim.link import LinkDown

LEVEL = "exploration"
RUNS = {"quick": 160, "thorough": 5000}
CAP = {"quick": 110, "thorough": 800}
RULE = ("A run signs one to three transactions with the real host and device (restarts in between, also the same "
        "transaction twice), keeps what the host stores, and later asks the device model for the keys over a link with "
        "drawn faults: answers lost, damaged, stale, refused, of another transaction or wallet, stored data damaged or "
        "mixed up. Non-trivial: at least one recovery attempt with a fault; distinct by the digest of the exchange.")
SHAPE = "(variant, additional keys, kinds of faults, outcomes)"
REAL = ["host agent (Agent)", "device (TokenLite, TsxSigner, transaction builder)", "protobuf codec",
        "chacha20-poly1305 packing"]
STUB = ["device side of the key recovery (model of the firmware)", "user at the device (confirms)",
        "random source (seeded)"]
ASSUME = ["the firmware's key recovery derives its keys as the protocol says (its code is not part of the repository)"]
shrink = core.shrink_with_spec(("asks", "pre"), ())

FAULTS = ["none", "none", "lost", "failure", "garble", "stale", "bad-salt1", "bad-salt2", "bad-enc", "other-tx",
          "other-wallet", "bad-prefix", "bad-view", "cut", "wrong-type", "deriv", "deriv"]


def plan(rng, tier, i):
    n = rng.choice([1, 2, 2, 3])
    specs = []
    for k in range(n):
        if k and rng.random() < 0.4:
            s = copy.deepcopy(specs[-1])
            if rng.random() < 0.5:
                s["seed"] = rng.randint(0, 1 << 40)
        else:
            while True:
                if i % 8 == 5 and not k:
                    s = world.gen_spec(rng, small=False, max_in=1, max_out=14)
                    if len(s["dests"]) < 9 or not any(x["minor"] for x in s["dests"]):
                        continue
                else:
                    s = world.gen_spec(rng, max_in=1, max_out=rng.choice([2, 4, 4]))
                if s["change"] is not None:
                    break
        if s["hf"] == 10:
            s["client"] = 1
        s["net"] = specs[0]["net"] if specs else s["net"]
        specs.append(s)
    return {"specs": specs, "pre": [rng.random() < 0.3 for _ in range(n)],
            "asks": [[rng.randrange(n), rng.choice(FAULTS), rng.randint(0, 1 << 30)] for _ in range(rng.randint(2, 7))]}


def execute(plan, st):
    from monero_glue.agent.agent_lite import Agent
    ws = [world.WTx(s) for s in plan["specs"]]
    net = ws[0].net
    me = ws[0].me
    dev = device.SimDevice(world.creds_of(me, net))
    kept = []
    for k, w in enumerate(ws):
        if k < len(plan["pre"]) and plan["pre"][k]:
            dev.restart()
            st.fault("device-restart")
        n0 = len(dev.log)
        ag = Agent(dev, network_type=net)
        ag.hf, ag.client_version = w.hf, w.client
        blob = bytes(run(ag.sign_tx(w.construction_data()))[0])
        t = ref.parse_tx(blob)
        ex = ref.parse_extra(t.extra)
        rec = {"w": w, "prefix": ref.keccak(t.prefix), "ex": ex, "s1": bytes(ag.ct.enc_salt1),
               "s2": bytes(ag.ct.enc_salt2), "enc": bytes(ag.ct.enc_keys)}
        keys = keydev.open_tx_keys(me, rec["s1"], rec["s2"], rec["enc"], rec["prefix"])
        if keys is None:
            raise Violation("lost", "what the host keeps of transaction %d does not open with the wallet's key" % k)
        rec["keys"] = keys
        check_keys(rec, k)
        # nothing but the sealed blob carries the keys
        for _, q, r in dev.log[n0:]:
            b = device.run(device.wire(r))[1]
            for x in keys:
                if ref.i2b(x) in b:
                    raise Violation("leak", "a transaction key leaves the device in clear (%s)" % type(r).__name__)
        for o in kept:
            if set(o["keys"]) & set(keys):
                raise Violation("reuse", "two transactions share a transaction key")
            if o["s1"] == rec["s1"] or o["s2"] == rec["s2"]:
                raise Violation("reuse", "two transactions share a salt")
            for a, b in ((o, rec), (rec, o)):
                if keydev.open_tx_keys(me, a["s1"], a["s2"], a["enc"], b["prefix"]) and a["prefix"] != b["prefix"]:
                    raise Violation("unbound", "keys of one transaction open under another one")
        for name in ("thief", "r0"):
            if keydev.open_tx_keys(world.wallet(name), rec["s1"], rec["s2"], rec["enc"], rec["prefix"]) is not None:
                raise Violation("unbound", "another wallet opens the transaction keys")
        kept.append(rec)
        st.count("signed")
    dv = keydev.KeyDevice(me, world.Drbg("keydev", plan["specs"][0]["seed"]))
    from monero_glue.xmr import crypto
    for k, f, seed in plan["asks"]:
        if k >= len(kept):
            continue
        rng = random.Random(seed)
        rec = dict(kept[k])
        view = me.a
        reason = f == "deriv"
        V = world.wallet("r1").addr(*rng.choice([(0, 0), (0, 3)]))[1]
        lf = {}
        expect_ok = f in ("none", "deriv")
        if f == "lost":
            lf[0] = rng.choice(["lost-request", "lost-response"])
        elif f in ("failure", "garble", "wrong-type"):
            lf[0] = f
        elif f == "bad-salt1" or f == "bad-salt2":
            x = "s1" if f == "bad-salt1" else "s2"
            rec[x] = flip(rng, rec[x]) if x == "s1" else ref.i2b((ref.b2i(rec[x]) + 1 + rng.randrange(99)) % ref.L)
        elif f == "bad-enc":
            rec["enc"] = flip(rng, rec["enc"]) if rng.random() < 0.5 else rec["enc"][:rng.randrange(len(rec["enc"]))]
        elif f == "bad-prefix":
            rec["prefix"] = flip(rng, rec["prefix"])
        elif f == "bad-view":
            view = (view + 1) % ref.L
        elif f == "other-tx":
            o = [x for x in kept if x["prefix"] != rec["prefix"]]
            if not o:
                continue
            x = rng.choice(["s1", "s2", "enc", "prefix"])
            rec[x] = rng.choice(o)[x]
        elif f == "cut":
            dv.lie = lambda kind, r, m: cut(rng, r)
        elif f == "stale":
            old = [r for kind, m, r in dv.done if bytes(m.tx_prefix_hash) != rec["prefix"]]
            if not old:
                continue
            dv.lie = lambda kind, r, m: rng.choice(old)
        tgt = dv
        if f == "other-wallet":
            tgt = keydev.KeyDevice(world.wallet("thief"), dv.d)
        if f not in ("none", "deriv"):
            st.fault("key-" + f)
        l = Keys(tgt, "h", lf, False, st, rng)
        ag = Agent(l, network_type=net)
        try:
            if reason:
                got = run(ag.get_tx_deriv(rec["s1"], rec["s2"], rec["enc"], rec["prefix"], crypto.decodeint(ref.i2b(view)), V))
                got = [bytes(crypto.encodepoint(x)) for x in got]
                want = [ref.derivation(V, x) for x in rec["keys"]]
            else:
                got = run(ag.get_tx_key(rec["s1"], rec["s2"], rec["enc"], rec["prefix"], crypto.decodeint(ref.i2b(view))))
                got = [ref.b2i(bytes(crypto.encodeint(x))) for x in got]
                want = rec["keys"]
        except LinkDown:
            got = None
        except Exception as e:
            got = None
            if expect_ok:
                raise Violation("refused", "recovery of the keys of transaction %d failed: %s %s" % (
                    k, type(e).__name__, str(e)[-200:]))
        dv.lie = None
        st.ev("ask", k, f, got is not None)
        st.shape(f, k, reason, got is not None, len(rec["keys"]), rec["w"].hf, rec["w"].client)
        if got is not None:
            if got != want:
                raise Violation("wrong-keys", "recovery of the keys of transaction %d under fault %s returned wrong keys" % (
                    k, f))
            if not expect_ok and f not in ("lost", "garble", "failure"):
                raise Violation("accepted", "keys recovered although %s" % f)
            if f == "failure":
                raise Violation("accepted", "keys returned although the device failed")
            st.count("recovered")
    st.sim_time += 0.05 * dev.reqs + 0.05 * len(plan["asks"])


class Keys(link.Link):
    async def get_tx_key(self, msg):
        return await self._go("key", self.dev.get_tx_key, msg)

    async def live_refresh(self, msg):
        return await self._go("live", self.dev.live_refresh, msg)


def flip(rng, b):
    b = bytearray(b)
    b[rng.randrange(len(b))] ^= 1 << rng.randint(0, 7)
    return bytes(b)


def cut(rng, r):
    f = "tx_keys" if r.tx_keys else "tx_derivations"
    b = bytes(getattr(r, f))
    setattr(r, f, b[:rng.randrange(len(b))])
    return r


def check_keys(rec, k):
    """the recovered scalars are those of the transaction's public keys"""
    w, keys, ex = rec["w"], rec["keys"], rec["ex"]
    add = ex["additional"] or []
    if len(keys) != 1 + len(add):
        raise Violation("count", "transaction %d: %d keys kept, 1 + %d expected" % (k, len(keys), len(add)))
    pubs = [ex["pub"][0]] + list(add)
    subs = [o for o in w.outs if o[4]]
    for n, (x, p) in enumerate(zip(keys, pubs)):
        ok = [ref.enc(ref.G(x))]
        if n == 0:
            ok += [ref.enc(ref.mul(ref.dec(o[2][0]), x)) for o in subs]
        elif w.outs[n - 1][4]:
            ok = [ref.enc(ref.mul(ref.dec(w.outs[n - 1][2][0]), x))]
        if p not in ok:
            raise Violation("wrong-keys", "transaction %d: key %d is not the key of the transaction" % (k, n))
