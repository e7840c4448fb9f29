"""C26: the command line agent asks the wallet exactly what was typed, and submits only confirmed, complete sets"""
import binascii
import copy
import json
import os

from sim import app, core, device, keydev, kiworld, link, oracle, ref, world
from sim.core import Violation
from sim.device import is_failure, run

warm = app.warm
LEVEL = "exploration"
RUNS = {"quick": 500, "thorough": 12000}
CAP = {"quick": 110, "thorough": 780}
RULE = ("A run starts the real command line agent with a drawn account and types one to three commands (transfer, "
        "sweep_all, sweep_below, sweep_single, sweep_dust, sign, key_image_sync). The simulated wallet-RPC answers "
        "with unsigned transaction sets of one to three generated transactions; the simulated user answers every "
        "question; HTTP calls, device messages, the device's user and the disk fail at drawn points. Non-trivial: "
        "at least one command reached the wallet; distinct by the digest of calls, questions and results.")
SHAPE = "(commands, number of transactions, answers of the user, faults fired, outcome)"
REAL = ["command line agent (HostAgent commands, argument parsing)", "wallet-RPC client", "wallet file formats",
        "host agent (Agent)", "device (TokenLite)", "requests up to its transport adapter", "EC library"]
STUB = ["monero-wallet-rpc (model)", "terminal and user", "HTTP transport", "device's get_address answer",
        "USB transport", "rounds of the password stretching (2)", "random source (seeded)", "worker thread of the agent (coroutines run in the caller)"]
ASSUME = ["the wallet file containers of the installed monero_serialize library are correct",
          "the wallet-RPC is honest; whether the set it returns pays what was typed is the user's check on the device"]

RPC = 48084
PRIO = ["default", "unimportant", "normal", "elevated", "priority"]
CMDS = ["transfer"] * 6 + ["sweep_all", "sweep_all", "sweep_below", "sweep_single", "sweep_dust", "sign",
                           "key_image_sync", "key_image_sync"]


def base_tx(rng, account, net, cmd):
    while True:
        s = world.gen_spec(rng, max_in=3, max_out=4, hfs=(10,), clients=(1,))
        if s["change"] is None:
            continue
        s["account"], s["net"] = account, net
        for d in s["dests"]:
            if d["w"] == "me":
                d["w"] = "r1"
        if any(d["amount"] == 0 for d in s["dests"]):
            continue
        return s


GARBLE = ["after-pid", "after-pid", "amount", "amount", "address", "pid"]


def garble(kind, seed, cmd, line):
    """a typed line which cannot be carried out as typed: it has to be refused before anything is asked (None: no such
    mistake possible in this line)"""
    import random
    rng = random.Random(seed)
    parts = line.split()
    amounts = [i for i, x in enumerate(parts) if i and len(parts[i - 1]) in (95, 106)] if cmd == "transfer" else \
        [0] if cmd == "sweep_below" else []
    last = len(parts) - 1
    haspid = len(parts[-1]) in (16, 64) and last not in amounts
    if kind == "after-pid":
        if not haspid:
            return None
        a = [x for x in parts if len(x) in (95, 106)][0]
        parts += rng.choice([[a, "1.5"], ["x"], ["0"], [parts[-1]], [a]])
    elif kind == "amount":
        if not amounts:
            return None
        parts[rng.choice(amounts)] = rng.choice(["0.0000000000001", "-1", "18446744.073709551616", "NaN", "Infinity",
                                                 "1e50", "1.00000000000000000000001", "1,5", "0x10", "-0.000000000001"])
    elif kind == "address":
        if cmd != "transfer":
            return None
        i = rng.choice(amounts) - 1
        j = rng.randrange(len(parts[i]))
        ab = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
        parts[i] = parts[i][:j] + rng.choice([x for x in ab if x != parts[i][j]]) + parts[i][j + 1:]
    else:
        if not haspid:
            return None
        parts[-1] = rng.choice([parts[-1][:-1], parts[-1] + "0", parts[-1][:-2]])
    return " ".join(parts)


def fmt(rng, a):
    """one of the ways to write an amount"""
    i, f = divmod(a, 10 ** 12)
    k = rng.randint(0, 2)
    if k == 0:
        return "%d.%012d" % (i, f)
    t = ("%012d" % f).rstrip("0")
    if not t:
        return "%d" % i if k == 1 else "%d.0" % i
    return "%d.%s" % (i, t)


def plan(rng, tier, i):
    account = rng.choice([0, 0, 1, 5])
    net = rng.choice([0, 1])
    cmds = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.choice(CMDS)
        c = {"cmd": k}
        if k == "key_image_sync":
            while True:
                c["ki"] = kiworld.gen(rng, 5)
                if c["ki"]["outs"]:
                    break
            c["version"] = rng.choice([3, 4])
            c["foreign"] = rng.random() < 0.1
            c["answers"] = []
        else:
            c["txs"] = [base_tx(rng, account, net, k) for _ in range(rng.choice([1, 1, 2, 3]))]
            if k == "sweep_single":
                c["txs"] = c["txs"][:1]
            pid = c["txs"][0]["pid"] if k == "transfer" and len(c["txs"]) == 1 else None
            for t in c["txs"]:
                t["pid"] = pid
            if pid == "short":
                for d in c["txs"][0]["dests"]:
                    d.update({x: c["txs"][0]["dests"][0][x] for x in ("w", "major", "minor")})
                c["integrated"] = rng.random() < 0.5
                if c["integrated"]:
                    for d in c["txs"][0]["dests"]:
                        d.update(major=0, minor=0)
            c["prio"] = rng.choice([None, None, 0, 1, 2, 3, 4])
            c["ring"] = rng.choice([None, None, 11, 7])
            c["index"] = rng.choice([None, None, [0], [1, 3], [2, 0, 5]])
            c["spid"] = rng.choice([None, None, 8, 32])
            c["amt"] = rng.choice([rng.randint(1, 1 << 61), rng.randint(1, 10 ** 13), 10 ** 12 * rng.randint(1, 9)])
            c["addr"] = [rng.randint(0, 3), rng.choice([0, 0, 1]), rng.choice([0, 2])]
            c["fmt"] = rng.randint(0, 1 << 30)
            c["nolist"] = rng.random() < 0.15
            c["extra"] = rng.choice([0, 1, 4])
            if k in ("transfer", "sweep_all", "sweep_below", "sweep_single") and rng.random() < 0.12:
                c["garble"] = [rng.choice(GARBLE), rng.randint(0, 1 << 30)]
            yes = rng.random() < 0.75
            c["answers"] = ["y"] * 3 if yes else [rng.choice(["y", "y", "n", "q", "", "yes", "Y", "nope"])
                                                   for _ in range(6)]
        c["reject"] = rng.choice([None] * 5 + [0, 1])
        c["other"] = rng.random() < 0.06
        c["http"], c["link"] = {}, {}
        if rng.random() < 0.25:
            c["http"][str(rng.randint(0, 2))] = rng.choice(
                ["lost-request", "lost-response", "http-500", "cut-response", "rpc-error", "damaged-set",
                 "damaged-set", "no-set"])
        if rng.random() < 0.2:
            c["link"][str(rng.randint(0, 40))] = rng.choice(
                ["lost-request", "lost-response", "dup-request", "restart-before", "restart-after", "failure"])
        c["disk"] = rng.random() < 0.05
        cmds.append(c)
    return {"account": account, "net": net, "cmds": cmds}


def shrink(plan):
    yield from core.generic_shrink(plan, ())
    for j in range(len(plan["cmds"])):
        if len(plan["cmds"]) > 1:
            c = copy.deepcopy(plan)
            del c["cmds"][j]
            yield c
        for k, v in (("http", {}), ("link", {}), ("prio", None), ("ring", None), ("index", None), ("spid", None),
                     ("disk", False), ("other", False), ("reject", None), ("garble", None), ("nolist", False), ("extra", 0)):
            if k in plan["cmds"][j] and plan["cmds"][j][k] != v:
                c = copy.deepcopy(plan)
                c["cmds"][j][k] = v
                yield c
        if len(plan["cmds"][j].get("txs", [])) > 1 and plan["cmds"][j]["cmd"] != "transfer":
            c = copy.deepcopy(plan)
            c["cmds"][j]["txs"].pop()
            yield c
        for n, t in enumerate(plan["cmds"][j].get("txs", [])):
            for s in core.shrink_spec(t):
                if s is not None and s["account"] == t["account"] and s["net"] == t["net"] \
                        and s["client"] == t["client"] and s["pid"] == t["pid"] and len(s["dests"]) <= len(t["dests"]):
                    c = copy.deepcopy(plan)
                    c["cmds"][j]["txs"][n] = s
                    yield c
    if plan["account"]:
        pass


class Link(link.Link):
    """adds the calls the command line agent makes besides signing"""

    def setup(self, wal, account, net, other):
        self.wal, self.account, self.net, self.other_wallet = wal, account, net, other
        return self

    async def ping(self, message=None, **k):
        return None

    async def call(self, msg, recode=True):
        from monero_glue.messages import MoneroAddress
        if type(msg).__name__ == "MoneroGetAddress":
            w = world.wallet("thief") if self.other_wallet else self.wal
            acc = msg.account or 0
            s, v = w.addr(acc, msg.minor or 0)
            return MoneroAddress(address=ref.address_str(s, v, (acc, msg.minor or 0) != (0, 0), None,
                                                         msg.network_type or 0))
        raise device.LinkDown("simulated: unsupported call")

    async def tsx_sign(self, msg):
        self.sent.append(type(msg).__name__)
        return await super().tsx_sign(msg)

    async def key_image_sync(self, msg, *a, **k):
        self.sent.append(type(msg).__name__)
        return await super().key_image_sync(msg, *a, **k)


class Run(object):
    def __init__(self, plan, st):
        self.plan, self.st = plan, st
        self.me = world.wallet("me")
        self.dev = device.SimDevice(world.creds_of(self.me, plan["net"]))
        self.drbg = world.Drbg("c26", plan["account"], len(plan["cmds"]))

    def start(self, term):
        from monero_glue.agent.agent_lite import Agent
        ag = app.agent_class()()
        ag.stdout = term.out
        s, v = self.me.addr()
        ag.args = app.args(view_key=ref.i2b(self.me.a).hex(), testnet=self.plan["net"] == 1,
                           address=ref.address_str(s, v, False, None, self.plan["net"]).decode())
        ag.trezor_proxy = None
        ag.agent = Agent(None, network_type=self.plan["net"])
        run(ag.open_account_passed())
        ag.set_account(self.plan["account"])
        ag.rpc_running = ag.rpc_ready = True
        return ag

    # ---------------------------------------------------------------- one command
    def command(self, ag, c, n):
        from monero_glue.agent.agent_lite import Agent
        self.c = c
        self.rpc = app.WalletRpc()
        self.net = app.Net({RPC: self.rpc}, c["http"], self.st)
        self.term = app.Terminal(c["answers"])
        self.lk = Link(self.dev, faults=c["link"], pauses=False, st=self.st).setup(
            self.me, self.plan["account"], self.plan["net"], c["other"])
        self.lk.sent = []
        ag.trezor_proxy = self.lk
        ag.agent.trezor = self.lk
        self.dev.log.clear()
        acc = []
        self.confirmed = 0

        def accept(kind, snap):
            ok = c["reject"] is None or len(acc) != c["reject"]
            acc.append(ok)
            return ok
        self.dev.user.accept = accept
        self.acc = acc
        self.wtxs = []
        self.sent_at_prompt = []
        self.term.on_prompt = self.on_prompt
        self.submits = []
        self.damaged = False
        self.error = None
        with app.scene(self.net, self.term) as d:
            if c["disk"]:
                os.mkdir("signed_monero_tx")      # the result file cannot be written
                self.st.fault("disk-error")
            fn = getattr(self, "cmd_" + c["cmd"])
            line = fn(c)
            bad = garble(*c["garble"], c["cmd"], line) if c.get("garble") else None
            line = bad or line
            ag.stdout = self.term.out
            try:
                getattr(ag, "do_" + c["cmd"])(line)
            except (Exception, SystemExit) as e:
                self.error = e
            if bad:
                self.st.fault("typed-mistake")
                self.refused(c, line)
            else:
                self.judge(c, line, d)
        self.st.ev("cmd", c["cmd"], line, [m for m, _ in self.rpc.calls], [p[:2] for p in self.term.prompts],
                   self.lk.sent, type(self.error).__name__)

    def refused(self, c, line):
        if self.rpc.calls or self.lk.sent or self.submits:
            raise Violation("mistyped", "%s %s: accepted, asked %s" % (c["cmd"], line, [m for m, _ in self.rpc.calls]))

    def on_prompt(self, q, a):
        # progress is only made after answers: remember how far things were at each question
        self.sent_at_prompt.append((len(self.lk.sent), len(self.rpc.calls), self.term.out.tell()))
        return a

    def unsigned(self, c):
        """the transactions the wallet prepares for this command"""
        from monero_serialize import xmrtypes
        self.wtxs = [world.WTx(t) for t in c["txs"]]
        if self.pid is not None:
            self.wtxs[0].pid = self.pid
        total = sum(len(w.srcs) for w in self.wtxs) + c["extra"]
        d = world.Drbg("sel", c["fmt"], total)
        order = list(range(total))
        d.rng().shuffle(order)
        self.where = []
        kis = [d.point() for _ in range(total)]
        self.kis0 = list(kis)
        tds = [None] * total
        txes = []
        pos = 0
        for w in self.wtxs:
            cd = w.construction_data()
            sel = order[pos:pos + len(w.srcs)]
            pos += len(w.srcs)
            cd.selected_transfers = list(sel)
            for x in [cd.change_dts] + list(cd.splitted_dsts) + list(cd.dests):
                x.original = bytes(x.original).decode() if not isinstance(x.original, str) else x.original
            self.where.append(sel)
            for s, x in zip(w.srcs, sel):
                tds[x] = app.transfer_details(d, kis[x], s)
            txes.append(cd)
        for x in range(total):
            if tds[x] is None:
                tds[x] = app.transfer_details(d, kis[x])
        msg = xmrtypes.UnsignedTxSet(txes=txes, transfers=[] if c["nolist"] else tds)
        blob = app.boost_dump(msg, 10)
        return app.UNSIGNED + app.seal(self.me, blob, d.bytes(8), d.scalar())

    def result(self, p, fault):
        blob = self.unsigned(self.c)
        if fault == "damaged-set":
            self.damaged = True
            b = bytearray(blob)
            k = self.c["fmt"] % 4
            at = len(app.UNSIGNED) + self.c["fmt"] % (len(b) - len(app.UNSIGNED))
            if k == 0:
                b[at] ^= 1 << self.c["fmt"] % 8
            elif k == 1:
                del b[at:]
            elif k == 2:
                b[-1 - self.c["fmt"] % 64] ^= 1 << self.c["fmt"] % 8
            else:
                w = world.wallet("thief")
                d = world.Drbg("other", at)
                b = app.UNSIGNED + app.seal(w, app.unseal(self.me, blob[len(app.UNSIGNED):]), d.bytes(8), d.scalar())
            blob = bytes(b)
        amounts = [sum(o[3] for o in w.outs if o is not w.change) for w in self.wtxs]
        self.offered = [(a, w.fee) for a, w in zip(amounts, self.wtxs)]
        if self.c["cmd"] == "sweep_single":
            r = {"amount": amounts[0], "fee": self.wtxs[0].fee, "tx_hash": "", "multisig_txset": ""}
        else:
            r = {"amount_list": amounts, "fee_list": [w.fee for w in self.wtxs], "tx_hash_list": [],
                 "multisig_txset": ""}
        if fault != "no-set":
            r["unsigned_txset"] = blob.hex()
        return r

    def submit(self, p, fault):
        self.submits.append(p)
        return {"tx_hash_list": ["00" * 32 for _ in self.wtxs]}

    def dest_text(self, w, major, minor, pid=None):
        s, v = world.wallet(w).addr(major, minor)
        return ref.address_str(s, v, (major, minor) != (0, 0), pid, self.plan["net"]).decode()

    def opts(self, c):
        r = []
        if c["index"] is not None:
            r.append("index=" + ",".join(str(x) for x in c["index"]))
        if c["prio"] is not None:
            r.append(PRIO[c["prio"]])
        if c["ring"] is not None:
            r.append(str(c["ring"]))
        return r

    def cmd_transfer(self, c):
        import random
        rng = random.Random(c["fmt"])
        self.pid = None
        if len(c["txs"]) == 1:
            self.pid = world.WTx(c["txs"][0]).pid
        parts = self.opts(c)
        self.typed = []
        for t in c["txs"]:
            for d in t["dests"]:
                a = self.dest_text(d["w"], d["major"], d["minor"], self.pid if c.get("integrated") else None)
                if c.get("integrated"):
                    s, v = world.wallet(d["w"]).addr()
                    assert len(self.pid) == 8
                parts += [a, fmt(rng, d["amount"])]
                self.typed.append((a, d["amount"]))
        self.spid = None
        if self.pid and not c.get("integrated"):
            self.spid = self.pid.hex()
            parts.append(self.spid)
        self.rpc.offers = {"transfer_split": self.result, "submit_transfer": self.submit}
        return "  ".join(parts) if rng.random() < 0.2 else " ".join(parts)

    def sweep(self, c, method, pre, indices=True):
        self.pid = None
        parts = list(pre)
        cc = dict(c)
        if not indices:
            cc["index"] = None
        o = self.opts(cc)
        self.dest = self.dest_text("r%d" % c["addr"][0], c["addr"][1], c["addr"][2])
        self.spid = None if c["spid"] is None else world.Drbg("pid", c["fmt"]).bytes(c["spid"]).hex()
        self.rpc.offers = {method: self.result, "submit_transfer": self.submit}
        return o, [self.dest] + ([self.spid] if self.spid else [])

    def cmd_sweep_all(self, c):
        o, r = self.sweep(c, "sweep_all", [])
        return " ".join(o + r)

    def cmd_sweep_below(self, c):
        import random
        o, r = self.sweep(c, "sweep_all", [])
        return " ".join([fmt(random.Random(c["fmt"]), c["amt"])] + o + r)

    def cmd_sweep_single(self, c):
        o, r = self.sweep(c, "sweep_single", [], indices=False)
        self.ki = world.Drbg("ki", c["fmt"]).point().hex()
        return " ".join(o + [self.ki] + r)

    def cmd_sweep_dust(self, c):
        self.pid = None
        self.rpc.offers = {"sweep_dust": self.result, "submit_transfer": self.submit}
        return ""

    def cmd_sign(self, c):
        self.pid = None
        f = "damaged-set" if "damaged-set" in c["http"].values() else None
        if f:
            self.st.fault("file-damaged")
            self.net.fired.append((0, f))
        r = self.result(None, f)
        with open("unsigned_tx", "wb") as fh:
            fh.write(bytes.fromhex(r["unsigned_txset"]))
        return "unsigned_tx"

    def cmd_key_image_sync(self, c):
        self.kw = kiworld.KiWorld(c["ki"])
        self.rpc.offers = {"export_outputs": self.export, "import_key_images": self.imported}
        self.imports = []
        return ""

    def export(self, p, fault):
        from monero_glue.xmr import wallet as gw
        from monero_serialize import xmrserialize, xmrtypes
        d = world.Drbg("exp", self.c["ki"]["seed"])
        full = []
        for t in self.kw.transfers():
            x = app.transfer_details(d, d.point())
            x.m_tx, x.m_internal_output_index, x.m_subaddr_index = t.m_tx, t.m_internal_output_index, t.m_subaddr_index
            full.append(x)

        class Lst(xmrserialize.ContainerType):
            BOOST_VERSION = 0
            ELEM_TYPE = xmrtypes.TransferDetails

        class Tup(xmrserialize.TupleType):
            BOOST_VERSION = 0
            MFIELDS = [xmrserialize.SizeT, Lst]
        if self.c["version"] == 3:
            b = app.boost_dump(full, container=Lst)
        else:
            b = app.boost_dump((0, full), tup=Tup)
        w = world.wallet("thief") if self.c["foreign"] else self.me
        s, v = w.addr()
        ver = bytes([self.c["version"]])
        blob = app.OUTPUTS + ver + app.seal(self.me, s + v + b, d.bytes(8), d.scalar())
        if fault == "damaged-set":
            self.damaged = True
            blob = bytearray(blob)
            at = len(app.OUTPUTS) + 1 + self.c["ki"]["seed"] % (len(blob) - len(app.OUTPUTS) - 1)
            blob[at] ^= 1 << self.c["ki"]["seed"] % 8
        return {"outputs_data_hex": bytes(blob).hex()}

    def imported(self, p, fault):
        self.imports.append(p)
        return {"height": 5, "spent": 7, "unspent": 9}

    # ---------------------------------------------------------------- judgement
    def judge(self, c, line, d):
        k = c["cmd"]
        term = self.term
        fired = bool(self.net.fired or self.lk.fired or c["disk"])
        answers = [a for _, a, _ in term.prompts]
        text = term.out.getvalue()
        # 1. what was asked of the wallet
        for m, p in self.rpc.calls:
            if m in ("transfer_split", "transfer"):
                self.check_transfer(c, p)
            elif m in ("sweep_all", "sweep_single"):
                self.check_sweep(c, m, p)
            elif m == "sweep_dust":
                if not p or p.get("do_not_relay") is not True:
                    raise Violation("relayed", "sweep_dust asked without do_not_relay")
        if k == "key_image_sync":
            return self.judge_ki(c, fired)
        # 2. the device is used, and the result submitted, only after the user's answers
        effective = [x.strip().lower() for x in answers if x is not None and x.strip().lower() in ("y", "n", "q")]
        need_rpc, need_dev, need_sub = {"transfer": (1, 2, 3), "sweep_dust": (0, 0, 1), "sign": (0, 0, 0)}.get(
            k, (0, 1, 2))
        reached = [m for m, _ in self.rpc.calls]
        yes = 0
        for x in effective:
            if x != "y":
                break
            yes += 1
        if yes < need_rpc and any(m.startswith("transfer") for m in reached):
            raise Violation("unconfirmed", "%s: the wallet was asked without the user's confirmation" % k)
        if yes < need_dev and self.lk.sent:
            raise Violation("unconfirmed", "%s: the device was asked to sign without the user's confirmation" % k)
        if self.submits and (k == "sign" or yes < need_sub):
            raise Violation("unconfirmed", "%s: submitted without the user's confirmation" % k)
        if len(self.submits) > 1:
            raise Violation("resubmitted", "%s: submitted %d times" % (k, len(self.submits)))
        if c["other"] and k in ("transfer", "sign") and self.lk.sent:
            raise Violation("wrong-device", "%s: another wallet's device was asked to sign" % k)
        # amounts are shown before the second question
        if need_dev and self.lk.sent:
            upto = text[:self.sent_at_prompt[self.index_of_yes(answers, need_dev)][2]]
            for a, f in self.offered:
                for v in (a, f):
                    if not app.shown(upto, v):
                        raise Violation("shown", "%s: amount %d was not shown exactly before the confirmation: %s" % (
                            k, v, upto[-400:]))
        if self.damaged and self.lk.sent:
            raise Violation("damaged", "a damaged transaction set was passed to the device")
        # 3. what is submitted
        complete = len(self.acc) == len(self.wtxs) and all(self.acc) and self.wtxs
        signed_file = None
        if k == "sign" and os.path.isfile("signed_monero_tx") and not is_err(self.error):
            with open("signed_monero_tx", "rb") as fh:
                signed_file = fh.read()
        for data in [binascii.unhexlify(p["tx_data_hex"]) for p in self.submits] + (
                [signed_file] if signed_file is not None else []):
            if not complete:
                raise Violation("incomplete", "%s: submitted although the device did not confirm all transactions" % k)
            self.check_signed(data, c)
            self.check_records(d)
            self.st.count("submitted")
        # 4. an undisturbed command succeeds
        quiet = not fired and not c["other"] and c["reject"] is None
        if quiet and k != "sign" and yes >= need_sub and not self.submits:
            raise Violation("failed", "%s %r did not submit: %s: %s | %s" % (
                k, line, type(self.error).__name__, self.error, text[-300:]))
        if quiet and k == "sign" and signed_file is None:
            raise Violation("failed", "sign produced nothing: %s: %s | %s" % (
                type(self.error).__name__, self.error, text[-300:]))
        if is_err(self.error) and "SUCCESS" in text:
            raise Violation("false-success", "%s: success was reported although it failed" % k)
        if "SUCCESS" in text and not self.submits:
            raise Violation("false-success", "%s: success was reported although nothing was submitted" % k)
        self.st.shape(k, len(c["txs"]), effective, [f for _, f in self.net.fired], [f[1] for f in self.lk.fired],
                      len(self.submits), type(self.error).__name__, self.plan["account"] > 0)

    def index_of_yes(self, answers, n):
        seen = 0
        for i, a in enumerate(answers):
            if a is not None and a.strip().lower() == "y":
                seen += 1
                if seen == n:
                    return i
        return len(answers) - 1

    def check_common(self, c, m, p):
        if not isinstance(p, dict):
            raise Violation("params", "%s without parameters" % m)
        if p.get("do_not_relay") is not True:
            raise Violation("relayed", "%s asked without do_not_relay" % m)
        if (p.get("priority") or 0) != (c["prio"] or 0):
            raise Violation("params", "%s: priority %r, typed %r" % (m, p.get("priority"), c["prio"]))
        ring = p.get("ring_size")
        if ring is None and p.get("mixin") is not None:
            ring = p["mixin"] + 1
        if ring != c["ring"] and (ring or c["ring"]):
            raise Violation("params", "%s: ring size %r, typed %r" % (m, ring, c["ring"]))

    def check_pid(self, m, p):
        if (p.get("payment_id") or None) != self.spid:
            raise Violation("params", "%s: payment id %r, typed %r" % (m, p.get("payment_id"), self.spid))

    def check_source(self, c, m, p):
        if p.get("account_index", 0) != self.plan["account"]:
            raise Violation("params", "%s: account %r instead of %r" % (m, p.get("account_index"),
                                                                        self.plan["account"]))
        if list(p.get("subaddr_indices") or []) != (c["index"] or []):
            raise Violation("params", "%s: subaddresses %r, typed %r" % (m, p.get("subaddr_indices"), c["index"]))

    def check_transfer(self, c, p):
        self.check_common(c, "transfer", p)
        self.check_source(c, "transfer", p)
        self.check_pid("transfer", p)
        got = [(x.get("address"), x.get("amount")) for x in p.get("destinations", [])]
        for x in got:
            if not isinstance(x[1], int) or isinstance(x[1], bool):
                raise Violation("params", "transfer: amount %r is no integer" % (x[1],))
        if got != self.typed:
            raise Violation("params", "transfer: the wallet was asked to pay %r, typed was %r" % (got, self.typed))
        if p.get("unlock_time", 0) != 0:
            raise Violation("params", "transfer: unlock time %r" % p["unlock_time"])

    def check_sweep(self, c, m, p):
        self.check_common(c, m, p)
        self.check_pid(m, p)
        if p.get("address") != self.dest:
            raise Violation("params", "%s: address %r, typed %r" % (c["cmd"], p.get("address"), self.dest))
        if c["cmd"] == "sweep_single":
            if m != "sweep_single" or p.get("key_image") != self.ki:
                raise Violation("params", "%s: key image %r, typed %r" % (m, p.get("key_image"), self.ki))
            return
        if m != "sweep_all":
            raise Violation("params", "%s used for %s" % (m, c["cmd"]))
        self.check_source(c, m, p)
        below = p.get("below_amount") or 0
        want = c["amt"] if c["cmd"] == "sweep_below" else 0
        if below != want or isinstance(below, float):
            raise Violation("params", "%s: threshold %r, typed %d" % (c["cmd"], below, want))

    def check_signed(self, data, c):
        from monero_serialize import xmrtypes
        if data[:len(app.SIGNED)] != app.SIGNED:
            raise Violation("signed-set", "wrong header of the signed set")
        plain = app.unseal(self.me, data[len(app.SIGNED):])
        if plain is None:
            raise Violation("signed-set", "the signed set does not authenticate with the wallet's view key")
        try:
            s = app.boost_load(plain, xmrtypes.SignedTxSet())
        except Exception as e:
            raise Violation("signed-set", "the signed set does not parse: %s" % e)
        if len(s.ptx) != len(self.wtxs):
            raise Violation("signed-set", "%d transactions instead of %d" % (len(s.ptx), len(self.wtxs)))
        self.blobs = []
        for p, w, sel in zip(s.ptx, self.wtxs, self.where):
            blob = app.tx_blob(p.tx)
            self.blobs.append(blob)
            try:
                oracle.check_blob(blob, w)
            except oracle.Bad as e:
                raise Violation(e.kind, e.msg)
            if sorted(p.selected_transfers) != sorted(sel):
                raise Violation("signed-set", "spent transfers %r instead of %r" % (p.selected_transfers, sel))
            if len(p.dests) != len([o for o in w.outs if o is not w.change]):
                raise Violation("signed-set", "recipients of the pending transaction")
        want = list(self.kis0)
        if c["nolist"]:
            want = [None] * (max(x for sel in self.where for x in sel) + 1)
        for w, sel in zip(self.wtxs, self.where):
            for src, x in zip(w.srcs, sel):
                want[x] = src.ki
        got = [bytes(x) for x in s.key_images]
        if len(got) < len(want) or any(b is not None and a != b for a, b in zip(got, want)):
            bad = [i for i, (a, b) in enumerate(zip(got, want)) if b is not None and a != b]
            raise Violation("key-images", "key images of transfers %r are wrong (spent %r)" % (bad, self.where))

    def check_records(self, d):
        """the stored transaction files"""
        names = sorted(os.listdir(d))
        for i, b in enumerate(self.blobs):
            n = "transaction_%02d" % i
            if n in names:
                with open(n, "rb") as fh:
                    if fh.read() != b:
                        raise Violation("stored", "%s differs from the submitted transaction" % n)
        recs = {}
        for n in names:
            if n.startswith("transaction_") and n.endswith(".json"):
                with open(n) as fh:
                    js = json.load(fh)
                recs[js["hash"]] = js
        for w, b in zip(self.wtxs, self.blobs):
            t = ref.parse_tx(b)
            h = ref.keccak(t.prefix).hex()
            if h not in recs:
                raise Violation("stored", "no record of a signed transaction (keys for later proofs are lost)")
            js = recs[h]
            ks = keydev.open_tx_keys(self.me, bytes.fromhex(js["enc_salt1"]), bytes.fromhex(js["enc_salt2"]),
                                     bytes.fromhex(js["tx_keys"]), bytes.fromhex(h))
            if not ks:
                raise Violation("stored", "the stored transaction keys do not open")

    def judge_ki(self, c, fired):
        if (self.damaged or c["foreign"] or c["other"]) and self.lk.sent:
            raise Violation("foreign-outputs", "outputs of another wallet or damaged ones were passed to the device")
        for p in self.imports:
            if not all(self.acc) or not self.acc:
                raise Violation("unconfirmed", "key images imported although the device's user did not confirm")
            lst = p["signed_key_images"]
            if len(lst) != len(self.kw.outs):
                raise Violation("key-images", "%d key images for %d outputs" % (len(lst), len(self.kw.outs)))
            for x, o in zip(lst, self.kw.outs):
                ki, sg = bytes.fromhex(x["key_image"]), bytes.fromhex(x["signature"])
                if ki != o.ki:
                    raise Violation("key-images", "wrong key image imported")
                if len(sg) != 64 or not ref.verify_ki_sig(ki, o.dest, (sg[:32], sg[32:])):
                    raise Violation("key-images", "imported key image proof is invalid")
        if len(self.imports) > 1:
            raise Violation("resubmitted", "imported %d times" % len(self.imports))
        if not fired and not c["foreign"] and not c["other"] and c["reject"] is None:
            if not self.imports or self.error:
                raise Violation("failed", "key image sync failed: %s: %s" % (type(self.error).__name__, self.error))
            out = self.term.out.getvalue()
        self.st.shape("ki", len(self.kw.outs), [f for _, f in self.net.fired], [f[1] for f in self.lk.fired],
                      len(self.imports), type(self.error).__name__)


def is_err(e):
    return e is not None


def execute(plan, st):
    app.fast_kdf()
    r = Run(plan, st)
    term = app.Terminal()
    with app.scene(None, term):
        ag = r.start(term)
    try:
        for n, c in enumerate(plan["cmds"]):
            r.command(ag, c, n)
            st.count("commands")
            st.sim_time += 0.05 * len(r.lk.sent) + 0.02 * r.net.n
    finally:
        app.close(ag)
