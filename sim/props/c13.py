"""C13: accounts, wallet files and transaction data survive crashes and disk errors"""
import copy
import json
import os
import re

from sim import app, boot, core, device, disk, link, ref, world
from sim.core import Violation
from sim.device import run

LEVEL = "exploration"
RUNS = {"quick": 700, "thorough": 20000}
CAP = {"quick": 110, "thorough": 780}
RULE = ("A run creates an account (command line agent from typed keys or from the device, device server with a new "
        "wallet or typed keys) or signs a transaction, on a simulated disk; at drawn disk operations the process is "
        "killed, the power fails (losing what was not synced) or the operation fails. Then the program is started "
        "again, possibly with further faults, until a start is not disturbed. Non-trivial: the disk was written; "
        "distinct by the digest of faults, files and results.")
SHAPE = "(program, faults with the operation they hit, number of starts, files present)"
REAL = ["command line agent (account opening and saving, wallet file creation, signing)",
        "device server (wallet creation, account opening)", "wallet file formats", "host agent and device", "EC library"]
STUB = ["disk (page cache and durable state modelled over a scratch directory)", "terminal and user", "device link",
        "rounds of the password stretching (2)", "random source (seeded)"]
ASSUME = ["a file system keeps what was synced, applies directory changes in order and a sync of a file commits the "
          "directory changes before it", "the user repeats the same inputs after a crash"]
CROPS = ["kill", "power", "power", "kill", "full", "io"]


def warm():
    from sim import server
    server.server_class()
    app.warm()
    app.fast_kdf()


def plan(rng, tier, i):
    kind = rng.choice(["agent"] * 3 + ["agent-device"] * 2 + ["server"] * 3 + ["server-keys", "sign", "sign"])
    starts = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        f = {}
        if rng.random() < 0.85:
            f[str(rng.randint(1, rng.choice([3, 6, 10, 16])))] = rng.choice(CROPS)
        starts.append({"faults": f, "seed": rng.randint(0, 1 << 30), "after": rng.choice(["power", "power", "kill"])})
    p = {"kind": kind, "net": rng.choice([0, 1, 2] if kind.startswith("server") else [0, 1]), "wallet": "w%d" % rng.randint(0, 400), "starts": starts,
         "pw": rng.choice(["", "pw", "correct horse", "p\u00e4ss"]), "height": rng.choice(["0", "", "1234567"]),
         "watch": rng.random() < 0.8, "seed": rng.randint(0, 1 << 30), "account_file": rng.random() < 0.8, "again": rng.choice(["none", "same", "other"])}
    if kind == "sign":
        from sim.props import c26
        p["spec"] = c26.base_tx(rng, 0, p["net"], "transfer")
        p["wallet"] = "me"
    return p


def shrink(plan):
    for j in range(len(plan["starts"])):
        if len(plan["starts"]) > 1:
            c = copy.deepcopy(plan)
            del c["starts"][j]
            yield c
        if plan["starts"][j]["faults"]:
            c = copy.deepcopy(plan)
            c["starts"][j]["faults"] = {}
            yield c
    for k, v in (("pw", "pw"), ("height", "0"), ("watch", False)):
        if plan[k] != v:
            c = copy.deepcopy(plan)
            c[k] = v
            yield c
    if "spec" in plan:
        for s in core.shrink_spec(plan["spec"]):
            if s is not None and s["change"] is not None and s["client"] == 1:
                c = copy.deepcopy(plan)
                c["spec"] = s
                yield c


class Link(link.Link):
    async def ping(self, message=None, **k):
        return None


class Run(object):
    def __init__(self, plan, st):
        self.plan, self.st = plan, st
        self.wal = world.wallet(plan["wallet"])
        s, v = self.wal.addr()
        self.addr = ref.address_str(s, v, False, None, plan["net"])
        self.promised = {}     # what has to be there from now on
        self.state = "none"

    # ---------------------------------------------------------------- one start
    def start(self, n, last=False):
        p = self.plan
        s = {"faults": {}, "seed": 0, "after": "kill"} if last else p["starts"][n]
        self.d = d = disk.Disk(os.getcwd(), s["faults"], s["seed"] + n, self.st)
        term = self.term = app.Terminal(["n"] * 0, [])
        self.error = None
        app._state.term = term
        fn = getattr(self, p["kind"].replace("-", "_"))
        import contextlib
        with disk.mounted(d), contextlib.redirect_stdout(term.out), contextlib.redirect_stderr(term.out):
            try:
                fn()
                self.done()
            except disk.Crash:
                pass
            except (Exception, SystemExit) as e:
                if isinstance(e, Violation):
                    raise
                self.error = e
        if d.dead:
            self.st.count("crashed")
        elif self.error is not None:
            if not d.fired:
                raise Violation("start", "an undisturbed start fails after %s: %s: %s; output: %s" % (
                    self.history, type(self.error).__name__, self.error, term.out.getvalue()[-300:]))
            self.st.count("failed")
            d.crash(s["after"])
        else:
            self.st.count("completed")
            d.crash(s["after"])
        self.st.ev("start", n, d.n, d.fired, type(self.error).__name__, d.how)
        self.history.append([(f, w) for _, f, w in d.fired] or "no fault")
        d.recover()
        self.check_promises()

    def done(self):
        pass

    def check_promises(self):
        for f, why in self.promised.items():
            if not os.path.exists(f):
                raise Violation("lost", "%s is gone after %s although %s" % (f, self.history, why))
            if why == "the transaction was handed out":
                self.check_tx(f)
        if self.plan["kind"] == "sign":
            self.check_handed_out()

    def check_handed_out(self):
        """a complete signed transaction in the directory can be relayed by its user: its keys have to be kept"""
        from monero_serialize import xmrtypes
        acks = [r for _, q, r in self.dev.log if type(r).__name__ == "MoneroTransactionFinalAck"]
        if "Unable to save" in self.term.out.getvalue():
            self.stale = True  # a transaction without data was reported; its files may stay
        if not acks or getattr(self, "stale", False):
            return
        hashes = set()
        for f in os.listdir("."):
            with open(f, "rb") as fh:
                data = fh.read()
            try:
                if re.match(r"transaction_\d\d$", f):
                    hashes.add(ref.keccak(ref.parse_tx(data).prefix))
                elif f == "signed_monero_tx" and data[:len(app.SIGNED)] == app.SIGNED:
                    p = app.unseal(self.wal, data[len(app.SIGNED):])
                    for x in app.boost_load(p, xmrtypes.SignedTxSet()).ptx if p is not None else []:
                        hashes.add(ref.keccak(ref.parse_tx(app.tx_blob(x.tx)).prefix))
            except Violation:
                raise
            except Exception:
                continue  # an incomplete file, nobody can relay it
        for h in hashes:
            f = "transaction_%s.json" % h.hex()[:24]
            self.st.count("handed-out-checked")
            if not os.path.exists(f):
                raise Violation("lost", "a complete signed transaction is there after %s but its data is not" % self.history)
            fin = acks[-1]
            self.txdata = getattr(self, "txdata", {})
            self.txdata.setdefault(f, (bytes(fin.salt), bytes(fin.rand_mult), bytes(fin.tx_enc_keys)))
            self.check_tx(f)

    # ---------------------------------------------------------------- programs
    def fresh_agent(self):
        for t in getattr(self, "ags", []):
            app.close(t)
        ag = app.agent_class()()
        ag.stdout = self.term.out
        self.ags = [ag]
        return ag

    def agent(self, device_keys=False):
        from monero_glue.agent.agent_lite import Agent
        p = self.plan
        ag = self.fresh_agent()
        kw = {} if device_keys else dict(view_key=ref.i2b(self.wal.a).hex(), address=self.addr.decode())
        if os.path.exists("acc.json"):
            kw = {}        # from then on the account is opened by its file
        ag.args = app.args(account_file="acc.json", watch_wallet="wallet" if p["watch"] or device_keys else None,
                           monero_bin="bin", testnet=p["net"] == 1, **kw)
        if kw and not ag.args.watch_wallet:
            ag.args.watch_wallet = "wallet"
        dev = device.SimDevice(world.creds_of(self.wal, p["net"]))
        ag.trezor_proxy = Link(dev, pauses=False, st=self.st)
        ag.agent = Agent(ag.trezor_proxy, network_type=p["net"] if device_keys else None)
        self.term.answers = [p["height"], "y"] * 2
        self.term.passwords = [p["pw"]] * 3
        existed = os.path.exists("acc.json")
        run(ag.open_account())
        self.opened(ag)
        if os.path.exists("acc.json"):
            self.promised["acc.json"] = "the account was opened"
        if existed:
            self.st.count("opened-from-file")
        if os.path.exists("wallet.keys"):
            self.promised["wallet.keys"] = "the account was opened"
        elif ag.wallet_file:
            raise Violation("wallet", "no watch-only wallet was made")

    def opened(self, ag):
        if ag.priv_view is None or ref.i2b(self.wal.a) != self.enc(ag.priv_view):
            raise Violation("keys", "opened with another view key")
        if bytes(ag.address) != self.addr or ag.network_type != self.plan["net"]:
            raise Violation("keys", "opened with another address or network")

    def enc(self, sc):
        from monero_glue.xmr import crypto
        return bytes(crypto.encodeint(sc))

    def agent_device(self):
        return self.agent(True)

    def boot_server(self, **kw):
        import asyncio
        import types
        from sim import server

        class Pr(object):
            def print(_, text):
                self.term.out.write(text)
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        try:
            srv = server.server_class()()
        finally:
            loop.close()
        srv.rig = Pr()
        a = dict(account_file="acc.json" if self.plan["account_file"] or "spend_key" not in kw else None,
                 net=self.plan["net"])
        a.update(kw)
        server.start(srv, only_args=True, **a)
        return srv

    secret = None

    def server(self):
        srv = self.boot_server()
        run(srv.open_account())
        if srv.creds is None:
            if self.promised:
                raise Violation("lost", "the wallet reported as generated is not opened after %s" % self.history)
            try:
                srv.do_new_wallet("")
            finally:
                m = re.search(r"Spend key priv:\s+0x([0-9a-f]{64})", self.term.out.getvalue())
                if m:
                    self.secret = m.group(1)
            if "Wallet generated" in self.term.out.getvalue():
                self.promised["acc.json"] = "the wallet was reported as generated"
            elif not self.d.dead:
                raise Violation("wallet", "no wallet generated")
        else:
            self.st.count("opened-from-file")
            if self.secret is None or bytes.fromhex(self.secret) != self.enc(srv.creds.spend_key_private):
                raise Violation("keys", "the server opened another spend key than was generated")
            with open("acc.json") as fh:
                js = json.load(fh)
            if js.get("spend_key") != self.secret or "view_key" not in js or "seed" not in js:
                raise Violation("torn", "the account file is incomplete")
            self.promised["acc.json"] = "it was opened"
        if srv.trez is None or srv.trez.creds is not srv.creds:
            raise Violation("keys", "the device has other credentials")
        if self.secret is not None:
            b = int.from_bytes(bytes.fromhex(self.secret), "little")
            a = int.from_bytes(self.enc(srv.creds.view_key_private), "little")
            want = ref.address_str(ref.enc(ref.G(b)), ref.enc(ref.G(a)), False, None, self.plan["net"])
            if bytes(srv.creds.address) != want:
                raise Violation("keys", "the account has the address %r, not %r" % (srv.creds.address, want))

    def server_keys(self):
        kw = dict(spend_key=ref.i2b(self.wal.b).hex(), view_key=ref.i2b(self.wal.a).hex())
        existed = os.path.exists("acc.json")
        if self.promised:
            # started with the file alone, with its keys once more, or with others which do not replace the stored ones
            o = world.wallet("thief")
            kw = {"none": {}, "same": kw, "other": dict(spend_key=ref.i2b(o.b).hex(), view_key=ref.i2b(o.a).hex())}[
                self.plan.get("again", "none")]
        srv = self.boot_server(**kw)
        run(srv.open_account())
        if srv.creds is None:
            raise Violation("keys", "the account is not opened")
        if self.enc(srv.creds.spend_key_private) != ref.i2b(self.wal.b) or \
                self.enc(srv.creds.view_key_private) != ref.i2b(self.wal.a):
            raise Violation("keys", "opened with other keys")
        if bytes(srv.creds.address) != self.addr:
            raise Violation("keys", "opened with the address %r, not %r" % (srv.creds.address, self.addr))
        if srv.args.account_file:
            self.promised["acc.json"] = "the account was opened"
        if existed:
            self.st.count("opened-from-file")

    def sign(self):
        from monero_glue.agent.agent_lite import Agent
        from monero_serialize import xmrtypes
        p = self.plan
        w = world.WTx(p["spec"])
        ag = self.fresh_agent()
        ag.args = app.args(view_key=ref.i2b(self.wal.a).hex(), testnet=p["net"] == 1, address=self.addr.decode())
        dev = self.dev = device.SimDevice(world.creds_of(self.wal, p["net"]))
        ag.trezor_proxy = Link(dev, pauses=False, st=self.st)
        ag.agent = Agent(ag.trezor_proxy, network_type=p["net"])
        run(ag.open_account_passed())
        before = set(os.listdir("."))
        d = world.Drbg("c13", p["seed"])
        cd = w.construction_data()
        cd.selected_transfers = list(range(len(w.srcs)))
        for x in [cd.change_dts] + list(cd.splitted_dsts) + list(cd.dests):
            x.original = bytes(x.original).decode() if not isinstance(x.original, str) else x.original
        msg = xmrtypes.UnsignedTxSet(txes=[cd], transfers=[app.transfer_details(d, d.point(), s) for s in w.srcs])
        blob = app.UNSIGNED + app.seal(self.wal, app.boost_dump(msg, 10), d.bytes(8), d.scalar())
        res = run(ag.sign(fdata=blob))
        if not res:
            raise Violation("wallet", "signing gave nothing")
        out = self.term.out.getvalue()
        if "Unable to save" in out:
            if not self.d.fired:
                raise Violation("store", "transaction data could not be saved: %s" % out[-300:])
            self.st.count("reported-unsaved")
            return
        fin = [r for _, q, r in dev.log if type(r).__name__ == "MoneroTransactionFinalAck"][-1]
        new = [f for f in os.listdir(".") if re.match(r"transaction_[0-9a-f]{24}\.json$", f)
               and f not in before]
        if len(new) != 1:
            raise Violation("store", "transaction data not saved: %r" % os.listdir("."))
        self.txdata = getattr(self, "txdata", {})
        self.txdata[new[0]] = (bytes(fin.salt), bytes(fin.rand_mult), bytes(fin.tx_enc_keys))
        self.promised[new[0]] = "the transaction was handed out"

    def check_tx(self, f):
        try:
            with open(f) as fh:
                js = json.load(fh)
            got = tuple(bytes.fromhex(js[k]) for k in ("enc_salt1", "enc_salt2", "tx_keys"))
            h = js["hash"]
        except Exception as e:
            raise Violation("torn", "the data of a handed out transaction is damaged after %s: %s: %s" % (
                self.history, type(e).__name__, e))
        if got != self.txdata[f] or not f.startswith("transaction_" + h[:24]):
            raise Violation("torn", "the data of a handed out transaction is wrong")


def execute(plan, st):
    r = Run(plan, st)
    r.history = []
    term = app.Terminal()
    with app.scene(app.Net({}, {}, st), term, scratch=True):
        for n in range(len(plan["starts"])):
            r.start(n)
        r.start(len(plan["starts"]), last=True)
        # and once more, from what the last one left
        if plan["kind"] != "sign":
            r.start(len(plan["starts"]) + 1, last=True)
        files = sorted(f for f in os.listdir(".") if not re.match(r"transaction_", f))
    for t in getattr(r, "ags", []):
        app.close(t)
    if not st.counts.get("completed"):
        raise Violation("start", "no start completed")
    if plan["kind"] in ("agent", "agent-device", "server") and not st.counts.get("opened-from-file"):
        raise Violation("lost", "the account was never opened from its file")
    st.shape(plan["kind"], r.history, files)
    st.sim_time += 3.0 * (len(plan["starts"]) + 2)
