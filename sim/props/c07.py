"""C07: even a transaction the user confirms is signed only if it is balanced, spends own outputs and keeps the change"""
import copy

from sim import adversary, core, host, ref, world
from sim.core import Violation
from sim.device import is_failure
from sim.props import common

LEVEL = "exploration"
RUNS = {"quick": 420, "thorough": 10000}
CAP = {"quick": 130, "thorough": 800}
RULE = ("A run offers one or two transactions to one real device whose user confirms everything. The host lies "
        "consistently from the confirmation on (change going elsewhere, amounts or fee not balanced, inputs of other "
        "wallets or wrong claims about inputs, illegal payment ids, amounts above 64 bits), alone or together with "
        "altered, lost and repeated messages and restarts. Non-trivial: at least one lie; distinct by the digest of the "
        "exchange.")
SHAPE = "(lies, variant, inputs, outputs, point of refusal, tampered steps)"
REAL = ["device (TokenLite, TsxSigner, transaction builder)", "protobuf codec", "bulletproofs", "MLSAG", "EC library"]
STUB = ["host (scripted adversary)", "user at the device (confirms everything)", "blockchain (generated world)",
        "random source (seeded)"]
ASSUME = ["curve arithmetic and keccak of the installed trezor-crypto C library are correct (shared with the oracle)",
          "the commitments in the ring offered by the host are not checked against a blockchain by the device; "
          "a signature over an invented ring is worthless"]
shrink = core.shrink_with_spec(("ops", "evil"), ())

LIES = ["change-thief", "change-thief-zero", "change-sub", "change-account", "dummy-paid", "dest-amount", "fee",
        "src-amount", "src-amount-balanced", "foreign-src", "foreign-same-key", "pid-size", "pid-two", "big",
        "account", "dup-change", "oidx", "txkey", "none"]


def plan(rng, tier, i):
    lies = [rng.choice(LIES)]
    if rng.random() < 0.15:
        lies.append(rng.choice([x for x in LIES if "change" not in x and x not in ("account", "dummy-paid", "pid-two")]))
    while True:
        s = world.gen_spec(rng, max_in=3, max_out=rng.choice([3, 3, 5]))
        if any(x.startswith("change") or x in ("account", "dup-change") for x in lies) and s["kind"] != "change":
            continue
        if "dummy-paid" in lies and s["kind"] != "sweep":
            continue
        if "pid-two" in lies and len(set((d["w"], d["major"], d["minor"]) for d in s["dests"] if d["amount"])) < 2:
            continue
        break
    specs = [s]
    evil = [[x, rng.randint(0, 1 << 30)] for x in lies]
    ops = []
    if rng.random() < 0.3:
        # an honest session of the same wallet before, possibly abandoned
        o = world.gen_spec(rng, max_in=2, max_out=3) if rng.random() < 0.5 else copy.deepcopy(s)
        o["net"] = s["net"]
        specs.insert(0, o)
        can = host.canonical(world.WTx(o))
        ops += [[0, op, []] for op in can[:rng.choice([len(can), rng.randint(1, len(can))])]]
        if rng.random() < 0.2:
            ops.append([0, ["restart"], []])
    main = len(specs) - 1
    can = [[main, op, []] for op in host.canonical(world.WTx(s))]
    if rng.random() < 0.25:
        n = rng.randrange(1, len(can))
        can[n][2].append(common.mutation(rng, can[n][1][0]))
    if rng.random() < 0.1:
        can.insert(rng.randrange(1, len(can)), [main, ["restart"], []])
    if rng.random() < 0.1:
        can.insert(rng.randrange(1, len(can)), [main, ["replay", rng.randrange(60)], []])
    return {"specs": specs, "evil": evil, "ops": ops + can}


class Liar(world.WTx):
    """transaction of a host lying from the beginning"""

    def lie(self, evil):
        import random
        self.bad = []
        self.wrong = set()      # inputs with a wrong amount: never signed; the others may be signed before
        self.told = []
        for kind, seed in evil:
            r = random.Random(seed)
            n = len(self.told)
            getattr(self, "l_" + kind.replace("-", "_"))(r)
            self.told.append(kind)
        if sum(self.amount(i) for i in range(len(self.srcs))) != sum(o[3] for o in self.outs) + self.fee:
            self.bad.append("balance")
        return self

    def amount(self, i):
        return self.srcs[i].amount

    def set_change(self, name, pair, amount=None):
        w = world.wallet(name)
        k = self.outs.index(self.change)
        self.change = (name, pair, w.addr(*pair), self.change[3] if amount is None else amount, pair != (0, 0))
        self.outs[k] = self.change

    def l_none(self, r):
        pass

    def l_change_thief(self, r):
        if self.change and self.change[3]:
            self.set_change("thief", (0, 0) if r.random() < 0.6 else (0, 1))
            self.bad.append("change")

    def l_change_thief_zero(self, r):
        # the change moved to the first recipient, a worthless change to a foreign address among more outputs
        if self.change and self.change[3] and len(self.outs) > 2:
            amt = self.change[3]
            self.set_change("thief", (0, 0), 0)
            k = [i for i, o in enumerate(self.outs) if o is not self.change][0]
            o = self.outs[k]
            self.outs[k] = o[:3] + (o[3] + amt,) + o[4:]
            self.bad.append("change")

    def l_change_sub(self, r):
        if self.change and self.change[3]:
            self.set_change(self.owner, (self.account, r.choice([1, 5, 77])))
            self.bad.append("change")

    def l_change_account(self, r):
        if self.change and self.change[3]:
            self.set_change(self.owner, ((self.account + r.choice([1, 2, 50])) % (1 << 32), 0))
            self.bad.append("change")

    def l_account(self, r):
        # inputs and change of one account, another one named
        if self.change and self.change[3]:
            self.named = (self.account + 1 + r.randrange(5)) % (1 << 32)
            self.bad.append("account")

    def l_dummy_paid(self, r):
        c = self.change
        if c and c[0].startswith("dummy"):
            k = self.outs.index(c)
            j = 1 - k
            d = min(self.outs[j][3] - 1, 1 + r.randrange(1000))
            if d < 1:
                return
            o = self.outs[j]
            self.outs[j] = o[:3] + (o[3] - d,) + o[4:]
            self.outs[k] = c[:3] + (d,) + c[4:]
            self.bad.append("change")      # change record says zero

    def l_dest_amount(self, r):
        k = r.randrange(len(self.outs))
        o = self.outs[k]
        d = r.choice([1, -1, 100, self.fee, -self.fee])
        if o[3] + d >= 0:
            n = o[:3] + (o[3] + d,) + o[4:]
            if o is self.change:
                self.change = n
            self.outs[k] = n

    def l_fee(self, r):
        self.fee = max(0, self.fee + r.choice([1, -1, 1000, -self.fee]))

    def l_src_amount(self, r):
        i = r.randrange(len(self.srcs))
        self.srcs[i].amount += r.choice([1, 1000, 1 << 33])
        self.wrong.add(self.srcs[i].dest)
        self.bad.append("source")

    def l_src_amount_balanced(self, r):
        # more claimed than the input is worth, and paid out
        i = r.randrange(len(self.srcs))
        d = r.choice([1, 1000, 1 << 33])
        self.srcs[i].amount += d
        self.wrong.add(self.srcs[i].dest)
        k = r.randrange(len(self.outs))
        o = self.outs[k]
        n = o[:3] + (o[3] + d,) + o[4:]
        if o is self.change:
            self.change = n
        self.outs[k] = n
        self.bad.append("source")

    def l_foreign_src(self, r):
        i = r.randrange(len(self.srcs))
        o = world.WTx(self.spec, owner="victim")
        a = self.srcs[i].amount
        self.srcs[i] = o.srcs[i]
        self.srcs[i].amount = a
        self.bad.append("foreign")

    def l_foreign_same_key(self, r):
        # an own output's keys with the one-time key of somebody else
        i = r.randrange(len(self.srcs))
        s = self.srcs[i]
        x, k, c = s.ring[s.real]
        s.ring[s.real] = (x, ref.enc(ref.G(2 + r.getrandbits(200))), c)
        self.bad.append("foreign")

    def l_oidx(self, r):
        s = self.srcs[r.randrange(len(self.srcs))]
        if not s.additional:
            s.oidx += 1 + r.randrange(3)
            self.bad.append("foreign")

    def l_txkey(self, r):
        s = self.srcs[r.randrange(len(self.srcs))]
        if not s.additional:
            s.tx_key = ref.enc(ref.G(2 + r.getrandbits(200)))
            self.bad.append("foreign")

    def l_pid_size(self, r):
        n = r.choice([1, 7, 9, 16, 31, 33, 64, 253, 254])
        self.pid = bytes(r.getrandbits(8) for _ in range(n))
        self.bad.append("pid")

    def l_pid_two(self, r):
        pay = set(o[2] for o in self.outs if o is not self.change and o[3] and
                  not (self.change and o[2] == self.change[2]))
        if len(pay) > 1:
            self.pid = bytes(r.getrandbits(8) for _ in range(8))
            self.bad.append("pid")

    def l_big(self, r):
        i, k = r.randrange(len(self.srcs)), r.randrange(len(self.outs))
        d = r.choice([1 << 64, (1 << 64) - 1, 1 << 70])
        s = self.srcs[i]
        s.amount += d
        x, key, _ = s.ring[s.real]
        s.ring[s.real] = (x, key, ref.enc(ref.commit(s.mask, s.amount)))
        o = self.outs[k]
        n = o[:3] + (o[3] + d,) + o[4:]
        if o is self.change:
            self.change = n
        self.outs[k] = n
        if n[3] >> 64:
            self.bad.append("range")

    def l_dup_change(self, r):
        # change record differs from the output paid: amount of the change record larger
        self.record = r.choice([1, 5])

    def pb_init(self):
        m = super().pb_init()
        td = m.tsx_data
        if hasattr(self, "named"):
            td.account = self.named
        if hasattr(self, "record") and td.change_dts is not None:
            td.change_dts.amount += self.record
        return m


def execute(plan, st):
    main = len(plan["specs"]) - 1
    left = [0]

    def make(spec):
        w = Liar(spec)
        left[0] += 1
        w.lie(plan["evil"] if left[0] - 1 == main else [])
        return w

    a = adversary.Arena(plan, st, make)
    bad = a.wtxs[main]
    for x in bad.told:
        st.fault("lie-" + x)
    try:
        a.go()
    finally:
        # also judged when the generic oracle objected, the kind here says more
        for j in a.judge:
            w = j["wtx"]
            only = w.wrong if set(w.bad) == {"source"} else None
            n = sum(1 for _, q, r in a.dev.log[j["start"]:j["end"]]
                    if type(r).__name__ == "MoneroTransactionSignInputAck" and not is_failure(r)
                    and (only is None or bytes(q.src_entr.outputs[q.src_entr.real_output].key.dest) in only))
            if w.bad and n:
                raise Violation("signed-" + w.bad[0], "the device released %d signatures for a transaction which is wrong: "
                                "%s (%s)" % (n, w.bad, w.told))
    common.shape_of(a, st, plan)
    stop = [op[0] for _, op, _, r, _ in a.results if is_failure(r)][:1]
    st.shape(bad.told, bad.bad, stop, bad.hf, bad.client, len(bad.srcs), len(bad.outs))
    clean = all(not o[2] and o[1][0] not in ("restart", "replay") for o in plan["ops"])
    if clean and not bad.bad and not [x for x in bad.told if x not in ("none", "dest-amount", "fee")]:
        if not a.judge or a.judge[-1]["n"] != len(bad.srcs):
            raise Violation("refused", "a correct transaction was refused at %s" % stop)
        st.count("controls-signed")
