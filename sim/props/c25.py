"""C25: the agent supervises its wallet process: right arguments, secrets kept, ready only when ready, quitting ends it"""
import copy
import os
import json

from sim import app, boot, core, proc, ref, threads, world
from sim.core import Violation
from sim.device import run
from sim.props import common

warm = app.warm
LEVEL = "exploration"
RUNS = {"quick": 4500, "thorough": 30000}
CAP = {"quick": 110, "thorough": 780}
RULE = ("A run starts the real command line agent with its wallet thread against a simulated monero-wallet-rpc process "
        "(output cut into arbitrary pieces, start and sync times, crash, failed fork, slow end, HTTP faults), types "
        "commands at drawn times and ends the session; threads are preempted at drawn lines. Non-trivial: a process "
        "was started or a command answered; distinct by the digest of all exchanges.")
SHAPE = "(mode, fate of the process, commands with their outcome, faults)"
REAL = ["command line agent: entry, wallet thread, commands, shutdown", "wallet RPC client", "python-requests"]
STUB = ["process and pipes (model of sarge over a simulated wallet process)", "terminal and user", "clock",
        "thread scheduling", "TCP"]
ASSUME = ["a wallet process ends within a bounded time after an interrupt", "sarge runs the command line with a POSIX shell"]
NAMES = ["w", "my wallet", "w'q", 'w"d', "w$HOME", "w;touch x", "wällét", "-w", "w`id`", "w\\x", "w*"]
BINS = ["bin", "monero bin", "bin'q", "b$HOME", "b;c", "bïn", "b&"]
PWS = ["", "pw", "päss wörd", "p'\"$x", "x" * 40]
BOUND = 30.0


def noise(rng):
    k = rng.randint(0, 6)
    if k == 0:
        return ("2018-11-01 10:00:00.123\t 7f00\tINFO \t[global]\tsrc/x.cpp:1\tLoaded wällét 💰 file: %d" % rng.randint(0, 99)
                ).encode() + b"\n"
    if k == 1:
        return ("日本語の財布 %d\r\n" % rng.randint(0, 9)).encode()
    if k == 2:
        return b"\xff\xfe raw \xc3\n"
    if k == 3:
        return b"\n\n"
    if k == 4:
        return b"2018-11-01 10:00:00.123 7f00 [x] ERROR something failed\n"
    if k == 5:
        return b"progress 10%\rprogress 20%\r"
    return b"line %d\n" % rng.randint(0, 1 << 30)


def plan(rng, tier, i):
    lines, t = [], 0.0
    for _ in range(rng.choice([0, 1, 3, 6])):
        b = noise(rng)
        t += rng.choice([0.0, 0.01, 0.3, 2.0])
        e = rng.random() < 0.4
        for _ in range(rng.choice([0, 0, 1, 3])):
            c = rng.randint(0, len(b))
            lines.append([t, e, b[:c].hex()])
            b = b[c:]
            t += rng.choice([0.0, 0.005, 0.05, 0.5])
        lines.append([t, e, b.hex()])
    ready = rng.choice([0.1, 1.0, 3.0, 8.0, 20.0])
    p = {"mode": "own" if rng.random() < 0.9 else "existing", "net": rng.choice([0, 1]), "wallet": rng.choice(NAMES),
         "bin": rng.choice(BINS), "missing": rng.random() < 0.04, "password": rng.choice(PWS),
         "wrong": rng.random() < 0.04, "debug_rpc": rng.random() < 0.3, "rpc_addr": rng.choice([None, "127.0.0.1:38081", "[::1]:28081"]),
         "spawn": rng.choice([0.0, 0.01, 0.2, 1.5]), "nofork": rng.random() < 0.06, "lines": lines, "ready": ready,
         "cut": rng.choice([0, 5, 200, rng.randint(60, 130)]), "gap": rng.choice([0.0, 0.02, 2.0]),
         "eol": rng.choice(["\n", "\r\n"]), "upper": rng.random() < 0.7, "err": rng.random() < 0.3,
         "die": [round(rng.choice([0.0, 0.4, ready + 0.2, ready + 2, rng.random() * 15]), 3), rng.choice([0, 1, -9, -11])]
         if rng.random() < 0.25 else None,
         "sig": rng.choice([0.0, 0.1, 2.0, 8.0]), "stop": rng.choice([0.05, 0.5, 3.0]),
         "stall": rng.choice([0, 0, 0, 1.0, 4.0]), "http": {}, "rseed": rng.randint(0, 3)}
    p["cmds"] = [[rng.choice([0.0, 0.05, 0.5, 2.0, ready, ready + 1]), rng.choice(
        ["height", "height", "balance", "state", "transfer", "sign", "sweep_dust", "key_image_sync"])]
        for _ in range(rng.choice([0, 1, 2, 4]))]
    p["end"] = [rng.choice([0.0, 0.01, 0.3, 3.0, ready + 0.5]), rng.choice(["quit", "q", "eof"])]
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        p["http"][str(rng.randint(0, 6))] = rng.choice(["lost-request", "lost-response", "http-500", "cut-response"])
    if rng.random() < 0.5:
        for _ in range(rng.randint(1, 12)):
            p["switches"] = p.get("switches", {})
            p["switches"][str(int(2 ** (rng.random() * 14)))] = rng.randint(0, 3)
    p.setdefault("switches", {})
    # the other stream writes while the line is incomplete
    b = noise(rng)
    p["between"] = b[:rng.randint(1, len(b))].hex() if rng.random() < 0.4 else ""
    return p


def shrink(plan):
    for k, v in (("http", {}), ("switches", {}), ("cmds", []), ("lines", []), ("die", None), ("nofork", False),
                 ("missing", False), ("between", ""), ("wrong", False), ("debug_rpc", False), ("rpc_addr", None), ("spawn", 0.0), ("gap", 0.0),
                 ("cut", 0), ("eol", "\n"), ("stall", 0), ("sig", 0.0), ("stop", 0.05), ("ready", 0.1), ("wallet", "w"),
                 ("bin", "bin"), ("password", ""), ("err", False), ("upper", True), ("net", 0), ("end", [0.0, "quit"]),
                 ("end", [3.0, "quit"]), ("end", [0.0, "eof"])):
        if plan[k] != v:
            c = copy.deepcopy(plan)
            c[k] = v
            yield c
    for k in ("cmds", "lines"):
        for j in range(len(plan[k])):
            c = copy.deepcopy(plan)
            del c[k][j]
            yield c
    for k in ("switches", "http"):
        for j in plan[k]:
            c = copy.deepcopy(plan)
            del c[k][j]
            yield c


class TimeMod(object):
    def __init__(self, real, w):
        self.__dict__.update(real.__dict__)
        self.sleep = w.sleep
        self.time = w.time


class Wallet(object):
    """HTTP side of the wallet process"""

    def __init__(self, r):
        self.r = r

    def __call__(self, path, method, body, fault):
        r = self.r
        try:
            js = json.loads(body.decode())
        except Exception:
            return 400, b""
        m = js.get("method")
        r.done.append((boot.CLOCK.now, m))
        if m == "stop_wallet":
            if r.plan["mode"] == "existing":
                raise Violation("foreign-stopped", "the user's own running wallet was stopped")
            p = r.w.procs[-1]
            p.finish(boot.CLOCK.now + r.plan["stop"], 0, "stop")
            res = {}
        else:
            res = {"height": 77, "balance": 123, "unlocked_balance": 5}
        return 200, json.dumps({"id": "0", "jsonrpc": "2.0", "result": res}).encode()


class Net(app.Net):
    """HTTP with digest authentication, to whichever wallet listens"""

    def send(self, req):
        import requests
        r = self.r
        r.requests += 1
        now = boot.CLOCK.now
        port = int(req.url.split("/")[2].rsplit(":", 1)[1])
        own = r.plan["mode"] == "own"
        if own:
            ps = [p for p in r.w.procs if p.up()]
            want = ps[0].argv[ps[0].argv.index("--rpc-bind-port") + 1] if ps and "--rpc-bind-port" in ps[0].argv else None
            up = bool(ps) and want == str(port)
            if not up:
                raise requests.exceptions.ConnectionError("simulated: nobody listens")
            auth = ps[0].authorized(req)
        else:
            if port != 18083:
                raise requests.exceptions.ConnectionError("simulated: nobody listens at %d" % port)
            fake = proc.Proc.__new__(proc.Proc)
            fake.argv, fake.rpcpw = ["--rpc-login=user"], b"s3:cret"
            auth = fake.authorized(req)
        if not auth:
            n = r.sched.me()
            a = requests.adapters.HTTPAdapter()
            resp = self.resp(401, b"", req)
            resp.headers["www-authenticate"] = 'Digest qop="auth",algorithm=MD5,realm="monero-rpc",nonce="abc%d",stale=false' % self.n
            resp.connection = a
            if "Authorization" in req.headers:
                r.denied += 1
            return resp
        if r.plan["stall"]:
            r.w.sleep(r.plan["stall"])
            if own and not ps[0].up():
                raise requests.exceptions.ConnectionError("simulated: connection reset")
        return super().send(req)


class Run(object):
    def __init__(self, plan, st):
        self.plan, self.st = plan, st
        self.me = world.wallet("me")
        self.done = []
        self.requests = self.denied = 0
        self.outcomes = []
        self.finished = None
        self.quit_at = None
        self.wt = None

    # ---------------------------------------------------------------- the agent in its threads
    def main(self):
        ag = self.ag

        async def nothing():
            return None
        ag.connect = nothing
        ag.open_account = nothing
        ag.update_intro = lambda: None
        ag.cmdloop = self.cmdloop
        run(ag.entry())
        self.finished = boot.CLOCK.now

    def cmdloop(self, *a):
        for dt, c in self.plan["cmds"]:
            self.w.sleep(dt)
            self.command(c)
        dt, how = self.plan["end"]
        self.w.sleep(dt)
        self.quit_at = boot.CLOCK.now
        self.st.ev("end", how, round(self.quit_at, 3))
        if how != "eof":
            getattr(self.ag, "do_" + how)("")

    def command(self, c):
        ag, now = self.ag, boot.CLOCK.now
        before, req0 = len(self.done), self.requests
        pos = self.term.out.tell()
        alive = self.state(now)
        err = None
        try:
            getattr(ag, "do_" + c)("" if c != "transfer" else "")
        except (Exception, SystemExit) as e:
            err = e
        later = self.state(boot.CLOCK.now)
        text = self.term.out.getvalue()[pos:]
        asked = self.requests > req0
        refused = "not running" in text.lower() or "not yet ready" in text.lower()
        self.outcomes.append((c, alive, asked, refused))
        self.st.ev("cmd", c, round(now, 3), alive, later, asked, refused, type(err).__name__)
        if c == "state":
            run_ = "wallet: running" in text.lower()
            if self.plan["mode"] == "existing" and not ("running" in text and "wallet: ready" in text.lower()):
                raise Violation("state", "state of the user's running wallet shown as %r" % text)
            if self.plan["mode"] == "own":
                if alive == "ready" and later == "ready" and not (run_ and "wallet: ready" in text.lower()):
                    raise Violation("not-ready", "the wallet serves but its state is shown as %r" % text)
                if alive == "dead" and run_:
                    raise Violation("dead-running", "the wallet process is dead but its state is shown as %r" % text)
                if alive in ("starting", "none") and later == alive and "wallet: ready" in text.lower():
                    raise Violation("early", "the wallet is not ready but its state is shown as %r" % text)
            return
        if self.plan["mode"] == "existing":
            if refused or (c in ("height", "balance") and not asked):
                raise Violation("existing-refused", "%s refused although the user's wallet runs: %r" % (c, text[:120]))
            return
        if alive == "ready" and later == "ready" and refused:
            raise Violation("not-ready", "%s refused although the wallet serves: %r" % (c, text[:120]))
        if alive in ("starting", "dead", "none") and later == alive and not refused:
            raise Violation("accepted", "%s carried out while the wallet process is %s" % (c, alive))
        if later == alive and alive in ("starting", "dead", "none") and asked:
            raise Violation("accepted", "%s asked the wallet while its process is %s" % (c, alive))

    def state(self, now):
        """none, starting, ready, dead - or unclear within a second of a change"""
        if self.plan["mode"] == "existing":
            return "ready"
        if not self.w.procs:
            return "none"
        p = self.w.procs[-1]
        if p.end is not None and now >= p.end[0]:
            return "dead" if now > p.end[0] + 1.0 else "unclear"
        if p.text_at is None or now < p.text_at:
            return "starting"
        return "ready" if now > p.said + 1.0 else "unclear"

    # ---------------------------------------------------------------- all of it
    def go(self):
        import random
        from monero_poc import agent as A
        from monero_poc.utils import misc as M
        p = self.plan
        self.sched = threads.Sched(p["switches"], [A.__file__], self.st, limit=3000000)
        self.w = proc.World(self.sched, p, self.st)
        self.term = app.Terminal()
        self.net = Net({48084: Wallet(self), 18083: Wallet(self)}, p["http"], self.st)
        self.net.r = self
        boot.CLOCK.reset()
        random.seed(p["rseed"])
        s, v = self.me.addr()
        with app.scene(None, self.term):
            ag = self.ag = app.agent_class()()
        from monero_glue.agent.agent_lite import Agent
        ag.trezor_proxy = None
        ag.agent = Agent(None, network_type=p["net"])
        ag.args = app.args(view_key=ref.i2b(self.me.a).hex(), testnet=p["net"] == 1, debug_rpc=p["debug_rpc"],
                           address=ref.address_str(s, v, False, None, p["net"]).decode(), rpc_addr=p["rpc_addr"],
                           rpc_wallet="127.0.0.1:18083" if p["mode"] == "existing" else None,
                           rpc_wallet_creds="user:s3:cret" if p["mode"] == "existing" else None)
        run(ag.open_account_passed())
        ag.set_account(0)
        ag.load_params()
        ag.wallet_file = p["wallet"]
        ag.monero_bin = p["bin"]
        ag.wallet_password = (p["password"] + ("x" if p["wrong"] else "")).encode()
        old = A.time, M.run, M.Capture, M.Feeder, A.threading
        r = self

        class Thread(object):
            def __init__(self, target=None, args=(), kwargs=None, **k):
                self.f = lambda: target(*args, **(kwargs or {}))
                self.t = None
                self.daemon = False

            def setDaemon(self, d):
                self.daemon = d

            def start(self):
                self.t = r.w.spawn("wallet", self.f)
                r.wt = self

            def is_alive(self):
                return self.t is not None and not self.t.done

            isAlive = is_alive

            def join(self, timeout=None):
                r.w.until(lambda: not self.is_alive(), timeout, None)

        class Th(object):
            pass
        th = Th()
        th.__dict__.update(old[4].__dict__)
        th.Thread = Thread
        A.time = TimeMod(old[0], self.w)
        M.run, M.Capture, M.Feeder, A.threading = self.w.run, self.w.capture, self.w.feeder, th
        try:
            with app.scene(self.net, self.term):
                ag.stdout = self.term.out
                if not p["missing"]:
                    os.makedirs(p["bin"], exist_ok=True)
                    open(os.path.join(p["bin"], "monero-wallet-rpc"), "w").close()
                t = self.sched.spawn("main", self.main)
                self.watch()
                stuck = None
                try:
                    stuck = self.sched.run()
                finally:
                    self.sched.over = True
        finally:
            A.time, M.run, M.Capture, M.Feeder, A.threading = old
            app.close(ag)
        self.judge(t, stuck or [])

    def watch(self):
        """ends runs that do not end by themselves"""
        def f():
            self.w.until(lambda: self.quit_at is not None, None, None)
            self.w.until(lambda: self.over() or boot.CLOCK.now > self.quit_at + BOUND, None, None)
            if not self.over():
                self.late = [t.name for t in self.sched.ts if not t.done and t.name != "watch"]
                self.orphan = [p for p in self.w.procs if not p.dead()]
                self.w.stop = True
        self.late, self.orphan = [], []
        self.sched.spawn("watch", f)

    def over(self):
        return self.finished is not None and all(t.done for t in self.sched.ts if t.name in ("main", "wallet"))

    def judge(self, main, stuck):
        p = self.plan
        for t in self.sched.ts:
            if t.name in ("main", "watch") and t.error is not None:
                if isinstance(t.error, Violation):
                    raise t.error
                if t.name == "main":
                    raise Violation("agent-died", "the agent ended with %r" % t.error)
                raise t.error
        if self.late or self.orphan:
            raise Violation("no-end", "%d s after the end of the session still running: %s%s" % (
                BOUND, ", ".join(self.late), " and the wallet process" if self.orphan else ""))
        if [t for t in stuck if t.name != "watch"]:
            raise Violation("no-end", "blocked for ever: %s" % [t.name for t in stuck])
        if self.finished is None:
            raise Violation("no-end", "the agent did not end")
        if [q for q in self.w.procs if not q.dead()]:
            # it was asked to end and will do so
            if [q for q in self.w.procs if q.end is None]:
                raise Violation("orphan", "the wallet process goes on after the agent's end")
        if self.denied:
            raise Violation("credentials", "the wallet refused the agent's credentials")
        ag = self.ag
        if p["mode"] == "existing":
            if self.w.runs:
                raise Violation("extra-wallet", "a wallet was started although the user's own is to be used")
            return
        for (cmd, kw), n in zip(self.w.runs, range(99)):
            self.judge_cmd(cmd, kw)
        for q in self.w.procs:
            got = b"".join(d for _, d in q.stdin)
            want = ag.wallet_password + b"\n" + ag.rpc_passwd.encode() + b"\n"
            if got != want and got != want + b"quit\n\n" and not got.startswith(want + b"quit\n\n") and not q.dead(q.start + 0.2):
                raise Violation("stdin", "the wallet was given %r" % got)
            if q.why == "signal" and q.signals and self.quit_at is not None and q.signals[0] < self.quit_at:
                raise Violation("killed", "the wallet was interrupted before the session's end")
        if len(self.w.runs) > 1:
            raise Violation("twice", "%d wallet processes were started" % len(self.w.runs))
        secret = ag.wallet_password.decode()
        if not p["debug_rpc"] and ag.rpc_passwd and ag.rpc_passwd in self.term.out.getvalue():
            raise Violation("secret-shown", "the RPC password was printed")

    def judge_cmd(self, cmd, kw):
        import shlex
        p, ag = self.plan, self.ag
        want = [os.path.join(p["bin"], "monero-wallet-rpc"), "--daemon-address", p["rpc_addr"] or "127.0.0.1:18081",
                "--wallet-file", p["wallet"], "--prompt-for-password", "--rpc-login=trezor", "--rpc-bind-port", "48084"]
        try:
            got = shlex.split(cmd)
            safe = shell_words(cmd)
        except ValueError as e:
            raise Violation("argv", "unparsable command line %r: %s" % (cmd, e))
        if got[:1] != want[:1] or norm(got) != norm(want + (["--testnet"] if p["net"] == 1 else [])):
            raise Violation("argv", "the wallet is started with %r, wanted %r" % (got, want))
        if not safe:
            raise Violation("argv", "the command line %r is expanded by the shell" % cmd)
        if kw.get("env") and any(ag.rpc_passwd in str(x) for x in kw["env"].values()):
            raise Violation("secret-env", "the RPC password is in the environment")
        if not kw.get("preexec_fn"):
            raise Violation("group", "the wallet shares the terminal's process group: Ctrl-C would kill it")
        pw = ag.rpc_passwd
        if pw in self.predicted():
            raise Violation("guessable", "the RPC password can be computed from the state of the ordinary random module")

    def predicted(self):
        import random
        import string
        r = random.Random(self.plan["rseed"])
        s = "".join(r.choice(string.ascii_uppercase + string.digits) for _ in range(64))
        return s


def norm(argv):
    """options in any order, in both spellings"""
    out, i = [], 1
    while i < len(argv):
        a = argv[i]
        if a.startswith("--") and "=" not in a and i + 1 < len(argv) and not (
                argv[i + 1].startswith("--")) and a not in ("--prompt-for-password", "--testnet"):
            out.append(a + "=" + argv[i + 1])
            i += 2
        else:
            out.append(a)
            i += 1
    return sorted(out)


def shell_words(cmd):
    """no character outside quotes which the shell would expand or obey"""
    i, q = 0, None
    while i < len(cmd):
        c = cmd[i]
        if q is None:
            if c == "\\":
                i += 1
            elif c in "'\"":
                q = c
            elif c in "$`;&|<>()*?[]#~!{}\n":
                return False
        elif q == "'":
            if c == "'":
                q = None
        else:
            if c == "\\":
                i += 1
            elif c == '"':
                q = None
            elif c in "$`":
                return False
        i += 1
    return True


def execute(plan, st):
    app.fast_kdf()
    r = Run(plan, st)
    try:
        r.go()
    finally:
        st.count("commands", len(r.outcomes))
        if r.quit_at:
            st.sim_time += boot.CLOCK.now - 1_600_000_000.0
    st.count("processes", len(r.w.procs))
    q = r.w.procs[-1] if r.w.procs else None
    if q is not None and q.why == "die":
        st.fault("process-died")
    if plan["stall"] and r.done:
        st.fault("slow-answer")
    st.shape(plan["mode"], q and q.why, q and q.serving is not None, r.outcomes, [f for _, f in r.net.fired], plan["nofork"],
             plan["missing"], plan["wrong"], plan["end"][1])
