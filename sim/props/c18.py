"""C18: the restore height is the one the user confirmed, and one found by date skips no block of that date or later"""
import calendar
import copy
import datetime
import hashlib
import json
import os
import re

from sim import app, boot, core, ref, world
from sim.core import Violation
from sim.device import run
from sim.proc_util import pack_section, unpack_heights, block_blob

warm = app.warm
LEVEL = "exploration"
RUNS = {"quick": 3500, "thorough": 40000}
CAP = {"quick": 110, "thorough": 780}
RULE = ("A run creates a watch-only wallet with the real agent; the user types heights, dates, nonsense and answers; the "
        "simulated daemon serves a drawn chain (block times with jitter and gaps) which grows and reorganises between "
        "requests, while requests and answers are lost, cut or refused. Non-trivial: a height was asked; distinct by the "
        "digest of inputs and results.")
SHAPE = "(kinds of inputs, faults, way of finding the height, jitter)"
REAL = ["command line agent: restore height dialog and wallet creation", "search by date", "daemon RPC client",
        "binary storage codec of the installed monero_serialize", "block parser", "wallet key file"]
STUB = ["daemon and its chain", "terminal and user", "TCP", "rounds of the password stretching (2)"]
ASSUME = ["block times are out of order by no more than twice the drawn jitter", "dates are UTC as in Monero"]
GENESIS = 1397818193


def plan(rng, tier, i):
    n = rng.choice([1, 2, 3, 50, 1439, 1440, 1441, 5000, 100000, 2400000, rng.randint(1, 3000000)])
    p = {"n": n, "genesis0": rng.random() < 0.7, "step": rng.choice([60, 120]), "jit": rng.choice([0, 0, 0, 60, 7000]),
         "gaps": [[rng.randint(0, n), rng.choice([86400, 5 * 86400, 300 * 86400])] for _ in range(rng.choice([0, 0, 1, 3]))],
         "seed": rng.randint(0, 1 << 30), "grow": rng.choice([0, 0, 1, 3, 40]), "reorg": rng.choice([0, 0, 0, 2, 12]),
         "http": {}, "rpc_addr": rng.choice([None, "127.0.0.1:38081", "10.0.0.7:18089"]), "net": rng.choice([0, 1])}
    inp = []
    top = tstamp(p, n - 1)
    for _ in range(rng.choice([1, 1, 2, 4])):
        k = rng.choice(["date"] * 6 + ["num", "num", "dash", "empty", "junk", "future", "baddate"])
        if k == "date":
            lo = tstamp(p, min(n - 1, 1))
            t = rng.randint(min(lo, top), max(lo, top)) - rng.choice([0, 0, 86400, 0])
            if rng.random() < 0.25:
                t = top - rng.randint(0, 3 * 86400)
            d = datetime.datetime.fromtimestamp(max(t, 0), datetime.timezone.utc)
            a = rng.choice(["%04d-%02d-%02d", "%d-%d-%d"]) % (d.year, d.month, d.day)
        elif k == "num":
            a = rng.choice(["%d", " %d "]) % rng.randint(0, 3000000)
        elif k == "dash":
            a = "-"
        elif k == "empty":
            a = ""
        elif k == "future":
            d = datetime.datetime.fromtimestamp(top + 3 * 86400 + rng.randint(0, 10 ** 8), datetime.timezone.utc)
            a = "%04d-%02d-%02d" % (d.year, d.month, d.day)
        elif k == "baddate":
            a = rng.choice(["2018-02-30", "2018-13-01", "2018-00-10", "0000-01-01"])
        else:
            a = rng.choice(["x", "12x", "1.5", "2018/01/01", "2018-01-01-01", "?"])
        inp.append([k, a, rng.choice(["y", "y", "n", "Y", "y"])])
    p["inp"] = inp
    for _ in range(rng.choice([0, 0, 1, 2])):
        p["http"][str(rng.randint(0, 30))] = rng.choice(
            ["lost-request", "lost-response", "http-500", "cut-response", "busy", "missing", "rpc-error"])
    return p


def shrink(plan):
    for k, v in (("http", {}), ("gaps", []), ("jit", 0), ("grow", 0), ("reorg", 0), ("rpc_addr", None), ("net", 0), ("step", 120),
                 ("genesis0", True)):
        if plan[k] != v:
            c = copy.deepcopy(plan)
            c[k] = v
            yield c
    for k in ("inp", "gaps"):
        for j in range(len(plan[k])):
            if k == "inp" and len(plan[k]) == 1:
                continue
            c = copy.deepcopy(plan)
            del c[k][j]
            yield c
    for f in (2, 10, 100):
        if plan["n"] // f > 1:
            c = copy.deepcopy(plan)
            c["n"] //= f
            yield c


def truetime(p, h):
    return GENESIS + h * p["step"] + sum(g for at, g in p["gaps"] if h > at)


def tstamp(p, h, fork=0):
    if h == 0 and p["genesis0"]:
        return 0
    t = truetime(p, h)
    if p["jit"]:
        x = int.from_bytes(hashlib.sha256(b"%d/%d/%d" % (p["seed"], h, fork)).digest()[:4], "big")
        t += x % (2 * p["jit"] + 1) - p["jit"]
    return t


class Daemon(object):
    def __init__(self, r):
        self.r, self.p = r, r.plan
        self.n = self.p["n"]
        self.forkat = None
        self.reqs = 0
        self.k = 0

    def move(self):
        """time passes: the chain grows or its end is replaced"""
        self.k += 1
        if self.p["grow"] and self.k % 3 == 0:
            self.n += self.p["grow"]
        if self.p["reorg"] and self.k % 5 == 4:
            self.n = max(1, self.n - self.p["reorg"] // 2)
            self.forkat = max(1, self.n - self.p["reorg"])
            self.r.st.fault("reorg")

    def ts(self, h):
        return tstamp(self.p, h, 1 if self.forkat is not None and h >= self.forkat else 0)

    def __call__(self, path, method, body, fault):
        self.move()
        self.reqs += 1
        if path == "/json_rpc":
            js = json.loads(body.decode())
            if fault in ("rpc-error", "busy", "missing"):
                return 200, json.dumps({"id": "0", "jsonrpc": "2.0", "error": {"code": -9, "message": "Core is busy"}}).encode()
            if js["method"] != "get_info":
                return 200, json.dumps({"id": "0", "jsonrpc": "2.0", "error": {"code": -32601, "message": "?"}}).encode()
            self.r.tops.append(self.n)
            return 200, json.dumps({"id": "0", "jsonrpc": "2.0", "result": {
                "height": self.n, "status": "OK", "target": 120}}).encode()
        if path != "/getblocks_by_height.bin":
            return 404, b""
        hs = unpack_heights(body)
        self.r.asked.append(hs)
        if fault in ("busy", "rpc-error"):
            return 200, pack_section([(b"status", b"BUSY"), (b"untrusted", False)])
        bl = []
        for h in hs:
            if h >= self.n:
                return 200, pack_section([(b"status", b"Error retrieving block at height"), (b"untrusted", False)])
            bl.append([(b"block", block_blob(h, self.ts(h), self.p["seed"]))])
        if fault == "missing":
            bl = bl[:-1]
        return 200, pack_section([(b"blocks", bl), (b"status", b"OK"), (b"untrusted", False)])


class Net(app.Net):
    def send(self, req):
        import requests
        host = req.url.split("/")[2]
        if host != self.want:
            raise Violation("daemon", "the daemon %s was asked, the user's is %s" % (host, self.want))
        req2 = copy.copy(req)
        req2.url = "http://x:1" + "/" + req.url.split("/", 3)[3]
        return super().send(req2)


class Run(object):
    def __init__(self, plan, st):
        self.plan, self.st = plan, st
        self.me = world.wallet("me")
        self.asked, self.tops = [], []
        self.last = None
        self.confirmed = None
        self.inp = list(plan["inp"])
        self.err = None
        self.how = []

    def prompt(self, q, a):
        ql = q.lower()
        if "restore height" in ql:
            self.reqs0 = self.dm.reqs
            self.hs0 = len(self.asked)
            if not self.inp:
                self.cur = ["num", "5", "y"]
                self.ended = True
            else:
                self.cur = self.inp.pop(0)
            return self.cur[1]
        if "the height" in ql:
            m = re.search(r"(-?\d+)", q)
            if not m:
                raise Violation("dialog", "the height to confirm is not shown: %r" % q)
            h = int(m.group(1))
            self.judge(h)
            ans = "y" if getattr(self, "ended", False) else self.cur[2]
            if ans.lower() == "y":
                self.confirmed = h
            return ans
        if "again" in ql:
            if self.cur[0] == "date" and not self.net.fired and not self.plan["reorg"]:
                T = self.day(self.cur[1])
                if T <= min(tstamp(self.plan, h) for h in range(max(0, self.plan["n"] - 1), self.plan["n"])) - self.plan["jit"]:
                    raise Violation("unresolved", "the date %s was not resolved" % self.cur[1])
            self.how.append("failed")
            return "y"
        raise Violation("dialog", "unexpected question %r" % q)

    def day(self, a):
        y, m, d = [int(x) for x in a.strip().split("-")]
        return calendar.timegm((y, m, d, 0, 0, 0))

    def judge(self, h):
        k, a, _ = self.cur
        p = self.plan
        self.how.append(k)
        if k == "num" and h != int(a):
            raise Violation("height", "typed %r, %d is to be confirmed" % (a, h))
        if k == "empty" and h != 0:
            raise Violation("height", "nothing typed, %d is to be confirmed" % h)
        if k == "dash":
            if not self.tops or h > self.tops[-1] or h < self.tops[-1] - 1:
                raise Violation("height", "\"-\" typed, %d is to be confirmed, the chain has %s" % (h, self.tops[-1:]))
        if k in ("junk", "baddate"):
            raise Violation("height", "%r typed, %d is to be confirmed" % (a, h))
        if k in ("date", "future"):
            T = self.day(a)
            lo = max(0, h - 400)
            # all times below h are within the jitter of a rising line
            bad = [x for x in ([h - 1, h // 2] if h > 0 else []) + list(range(lo, h))
                   if 0 <= x < h and self.dm.ts(x) >= T + 2 * p["jit"]]
            if bad:
                raise Violation("skipped", "date %s: height %d skips block %d of %s" % (
                    a, h, bad[0], datetime.datetime.fromtimestamp(self.dm.ts(bad[0]), datetime.timezone.utc)))
            if k == "future" and not p["grow"] and not p["jit"] and not p["reorg"]:
                raise Violation("future", "the date %s after the last block gave the height %d" % (a, h))
            n = self.dm.reqs - self.reqs0
            if n > 64:
                raise Violation("endless", "%d requests for one date" % n)
            if not p["jit"] and not p["reorg"] and h + 1500 < self.dm.n:
                far = h + 1500
                if self.dm.ts(far) < T and T > self.dm.ts(h) + 2 * 86400:
                    raise Violation("early", "date %s: height %d although block %d is older too" % (a, h, far))

    def go(self):
        from monero_glue.agent.agent_lite import Agent
        from monero_glue.xmr import wallet as W
        p = self.plan
        self.dm = Daemon(self)
        self.net = Net({1: self.dm}, p["http"], self.st)
        self.net.want = p["rpc_addr"] or "127.0.0.1:18081"
        self.term = app.Terminal()
        self.term.on_prompt = self.prompt
        s, v = self.me.addr()
        with app.scene(None, self.term):
            ag = app.agent_class()()
        try:
            with app.scene(self.net, self.term) as d:
                ag.stdout = self.term.out
                ag.args = app.args(view_key=ref.i2b(self.me.a).hex(), testnet=p["net"] == 1, rpc_addr=p["rpc_addr"],
                                   address=ref.address_str(s, v, False, None, p["net"]).decode(),
                                   watch_wallet=os.path.join(d, "w"))
                ag.trezor_proxy = None
                ag.agent = Agent(None, network_type=p["net"])
                run(ag.open_account_passed())
                ag.load_params()
                ag.wallet_password = b"pw"
                try:
                    run(ag.ensure_watch_only())
                except Violation:
                    raise
                except (Exception, SystemExit) as e:
                    self.err = e
                    if not self.net.fired:
                        raise Violation("refused", "%r after %r typed" % (e, self.cur))
                    if os.path.exists(os.path.join(d, "w.keys")):
                        raise Violation("half", "wallet keys written although the height is not known")
                else:
                    wl = run(W.load_keys_file(os.path.join(d, "w.keys"), b"pw"))
                    got = wl["refresh_height"] if isinstance(wl, dict) else wl.refresh_height
                    if got != self.confirmed:
                        raise Violation("unconfirmed", "the wallet restores from %r, the user confirmed %r" % (got, self.confirmed))
                    self.st.ev("restored", got)
        finally:
            app.close(ag)
        self.st.ev("end", self.how, type(self.err).__name__, self.dm.reqs, self.asked[-3:])


def execute(plan, st):
    app.fast_kdf()
    r = Run(plan, st)
    r.go()
    for k in r.how:
        st.count("input-" + k)
    st.count("daemon-requests", r.dm.reqs)
    st.sim_time += 0.2 * r.dm.reqs + 2.0 * len(plan["inp"])
    st.shape(r.how, [f for _, f in r.net.fired], plan["jit"], bool(plan["grow"]), bool(plan["reorg"]), r.dm.reqs // 4)
