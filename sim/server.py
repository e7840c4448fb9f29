"""
The device server (monero_poc.trezor) in one process: its REST thread, its console thread with a user, and host
threads talking to it over simulated HTTP.  Threads are scheduled by sim.threads.

Requests are served one after another, as by the shipped default server (green threads of one thread, in which the
wait for the user blocks).
"""
import json
import os
import re
import sys
import types

from sim import app, boot, ref, threads, world
from sim.core import Violation
from sim.device import run

PORT = 46123
_cls = None


def server_class():
    global _cls
    if _cls is None:
        from monero_poc import trezor

        class SimServer(trezor.TrezorServer):
            """the real server; only printing and the choice menu are replaced"""
            rig = None

            def poutput(self, *objects, sep=" ", end="\n", **k):
                self.rig.print(sep.join(str(o) for o in objects) + end)

            def select(self, opts, prompt="Your choice? "):
                return self.rig.choose(opts, prompt)

            def rest_server_boot(self):
                pass

            def cmdloop(self, *a):
                pass

            def terminating(self):
                pass
        _cls = SimServer
    return _cls


def start(srv, account_file=None, net=0, spend_key=None, view_key=None, only_args=False):
    """the server's own entry point, with a command line; the REST thread and the prompt loop are run by the simulation"""
    argv = ["server"] + (["--testnet"] if net == 1 else ["--stagenet"] if net == 2 else [])
    for n, v in (("--account-file", account_file), ("--spend-key", spend_key), ("--view-key", view_key)):
        if v is not None:
            argv += [n, v]
    if only_args:
        async def no():
            pass
        srv.open_account = no
    mod = sys.modules[server_class().__mro__[1].__module__]
    old, real_time = sys.argv, mod.time
    sys.argv = argv
    mod.time = types.SimpleNamespace(sleep=lambda t: None, time=real_time.time)
    try:
        run(srv.main())
    finally:
        sys.argv, mod.time = old, real_time
        srv.__dict__.pop("open_account", None)
    return srv


def src_files():
    r = boot.REPO
    return [os.path.join(r, "monero_poc", "trezor.py"), os.path.join(r, "monero_poc", "utils", "misc.py")]


class Req(object):
    def __init__(self, n, path, method, body, who):
        self.n, self.path, self.method, self.body, self.who = n, path, method, body, who
        self.done = False
        self.status = self.content = None
        self.dialogs = []      # (command, text, decision)
        self.msg = self.res = None


class Rig(object):
    """
    user: {"yes": [bool...], "stray": {turn: command}, "slow": bool}
    down: {request number: how many requests are refused while the server restarts}
    """

    def __init__(self, wal, net, plan, st):
        self.wal, self.net, self.st = wal, net, st
        self.plan = plan
        self.out = []
        self.reqs = []
        self.queue = []
        self.user_yes = list(plan["yes"])
        self.stray = {int(k): v for k, v in plan["stray"].items()}
        self.turns = 0
        self.choices = 0
        self.cur = None            # request in service
        self.start = 0             # output position at which the command at the console started
        self.cmd = None
        self.running_clients = 0
        self.pending = []          # commands the server asked for
        self.restarts = 0
        self.down = {int(k): v for k, v in plan.get("down", {}).items()}
        self.refuse = 0
        self.hot_len = 0
        self.sched = threads.Sched(plan["switches"], src_files(), st)
        self.hots = [list(h) for h in plan["hot"]]
        self.sched.hot = []
        self.console_errors = []
        self.loops = []

    # ---------------------------------------------------------------- server
    def boot(self):
        s, v = self.wal.addr()
        with open("account.json", "w") as fh:
            json.dump({"spend_key": ref.i2b(self.wal.b).hex(), "view_key": ref.i2b(self.wal.a).hex()}, fh)
        self.srv = self._server()

    def _server(self):
        import asyncio
        # the main thread of a new process has a loop
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        self.loops.append(loop)
        srv = server_class()()
        srv.rig = self
        start(srv, "account.json", self.net)
        if srv.creds is None:
            raise Violation("account", "the server does not open its account file")
        srv.init_rest()
        self.http = srv.flask.test_client()
        return srv

    def restart(self):
        """the process is killed and started again: nothing but the account file survives"""
        self.restarts += 1
        try:
            self.srv = self._server()
        except Exception as e:
            raise Violation("restart", "the server does not start again: %s: %s" % (type(e).__name__, e))

    # ---------------------------------------------------------------- terminal
    def print(self, text):
        self.out.append(text)
        m = re.search(r"[Ee]nter ([A-Z]{1,2}) to", text)
        if m:
            self.pending.append([m.group(1)])
            if self.hots:
                self.sched.hot = self.hots.pop(0)

    def choose(self, opts, prompt):
        opts = [(o, o) if isinstance(o, str) else o for o in opts]
        text = "".join(self.out[self.start:]) + "\n".join(str(t) for _, t in opts) + "\n" + prompt
        self.choices += 1
        yes = self.user_yes.pop(0) if self.user_yes else True
        want = [v for v, t in opts if bool(re.match(r"(?i)\s*(confirm|accept|yes|allow|approve)", str(t))) == yes]
        if len(want) != 1:
            raise Violation("menu", "the user cannot tell the choices apart: %r" % (opts,))
        r = self.cur
        self.st.ev("dialog", self.cmd, yes, r.n if r is not None else None)
        if r is None:
            # nothing is waiting: must not have an effect, judged by the answers sent
            self.st.count("dialogs-without-request")
        else:
            r.dialogs.append((self.cmd, text, yes))
        self.sched.point("dialog")
        return want[0]

    def type(self, cmd):
        self.cmd = cmd
        self.start = len(self.out)
        before = self.choices
        try:
            getattr(self.srv, "do_" + cmd)("")
        except (Violation, threads.Killed, threads.Deadlock):
            raise
        except Exception as e:
            # cmd2 prints it and goes on
            self.console_errors.append("%s: %s: %s" % (cmd, type(e).__name__, e))
        self.cmd = None
        return self.choices > before

    def console(self):
        """the user: answers what is asked, types something else now and then"""
        idle = 0
        while True:
            self.turns += 1
            c = self.stray.get(self.turns)
            if c is not None:
                self.st.fault("stray-command")
                self.type(c)
                continue
            if self.pending:
                c = self.pending[0]
                if self.type(c[0]):
                    self.pending = [x for x in self.pending if x is not c]
                    idle = 0
                    continue
            if not self.running_clients:
                return
            self.sched.rest()
            if self.progress():
                idle = 0
                continue
            idle += 1
            if idle > 3:
                # nobody else moves: the user tries everything there is
                if any([self.type(x) for x in ("T", "W", "K")]):
                    self.pending = []
                    idle = 0
                elif idle > 6:
                    raise Violation("hang", "the server waits for an answer which the user can no longer give "
                                    "(pending %r, console errors %r)" % (self.pending, self.console_errors[-2:]))

    _last = None

    def progress(self):
        now = (len(self.reqs), sum(1 for r in self.reqs if r.done), self.running_clients)
        r = now != self._last
        self._last = now
        return r

    # ---------------------------------------------------------------- REST thread
    def rest(self):
        while True:
            self.sched.block(lambda: self.queue or not self.running_clients)
            if not self.queue:
                return
            r = self.queue.pop(0)
            self.serve(r)
            r.done = True
            self.sched.point("served")

    def serve(self, r):
        self.cur = r
        try:
            resp = self.http.open(r.path, method=r.method, data=r.body, content_type="application/json")
            r.status, r.content = resp.status_code, resp.get_data()
        finally:
            self.cur = None
            self.pending = []
        self.st.ev("http", r.n, r.path, r.status, r.content)
        self.judge(r)

    def peer(self, path, method, body, fault):
        """HTTP request of a host thread"""
        n = len(self.reqs)
        if n in self.down and self.cur is None and not self.queue:
            self.refuse = self.down.pop(n)
            self.restart()
            self.st.fault("server-restart")
        if self.refuse:
            self.refuse -= 1
            import requests
            raise requests.exceptions.ConnectionError("simulated: server restarting")
        me = self.sched.me()
        r = Req(n, path, method, body, me.name if me else None)
        self.reqs.append(r)
        self.queue.append(r)
        self.sched.block(lambda: r.done)
        return r.status, r.content

    def client(self, name, fn):
        self.running_clients += 1

        def go():
            try:
                return fn()
            finally:
                self.running_clients -= 1
        return self.sched.spawn(name, go)

    # ---------------------------------------------------------------- the run
    def run(self, net):
        term = app.Terminal()
        with app.scene(net, term, scratch=True):
            with threads.patched(self.sched):
                self.boot()
                self.sched.spawn("rest", self.rest)
                self.sched.spawn("console", self.console)
                stuck = self.sched.run()
        for l in self.loops:
            l.close()
        for t in self.sched.ts:
            if isinstance(t.error, Violation):
                raise t.error
        for t in self.sched.ts:
            if isinstance(t.error, threads.Deadlock):
                raise Violation("hang", "%s: %s" % (t.name, t.error))
            if t.name in ("rest", "console") and t.error is not None:
                raise t.error
        if stuck:
            raise Violation("hang", "threads blocked for ever: %r" % [t.name for t in stuck])

    # ---------------------------------------------------------------- oracle
    def judge(self, r):
        hx = r.content.lower()
        if ref.i2b(self.wal.b).hex().encode() in hx or ref.i2b(self.wal.b) in r.content:
            raise Violation("secret", "the answer to %s contains the spend key" % r.path)
        view = ref.i2b(self.wal.a).hex().encode() in hx
        r.msg, r.res = decode(r.body), decode(r.content)
        yes = [(c, t) for c, t, y in r.dialogs if y]
        kind = type(r.res).__name__ if r.res is not None else None
        if r.res is not None and r.status != 200:
            raise Violation("status", "content with status %d" % r.status)
        if view or kind == "MoneroWatchKey":
            if not any(c in ("W", "w") for c, t in yes):
                raise Violation("unconfirmed", "the view key was given out without confirmation")
            if kind == "MoneroWatchKey":
                s, v = self.wal.addr()
                if bytes(r.res.watch_key) != ref.i2b(self.wal.a) or \
                        bytes(r.res.address) != ref.address_str(s, v, net=self.net):
                    raise Violation("watch-key", "wrong watch-only credentials")
            self.st.count("watch-only")
            return
        if kind in (None, "Failure"):
            if r.dialogs and yes and r.path.endswith(("tx_sign", "ki_sync")) is False and r.status == 403:
                raise Violation("lost-answer", "confirmed by the user, yet refused")
            if r.dialogs and r.dialogs[-1][2] and "reject" in str(getattr(r.res, "message", "")).lower():
                raise Violation("lost-answer", "confirmed by the user, yet reported as rejected")
            return
        if kind == "MoneroTransactionInitAck":
            t = [t for c, t in yes if c in ("T", "t")]
            if not t or not r.dialogs[-1][2]:
                raise Violation("unconfirmed", "transaction accepted without the confirmation of the user: %r" % (
                    [(c, y) for c, _, y in r.dialogs],))
            shows(t[-1], r.msg.tsx_data, self.net)
            self.st.count("tx-confirmed")
        if kind == "MoneroKeyImageExportInitAck":
            t = [t for c, t in yes if c in ("K", "k")]
            if not t or not r.dialogs[-1][2]:
                raise Violation("unconfirmed", "key image export accepted without the confirmation of the user")
            if int(r.msg.num or 0) not in app.numbers(t[-1]):
                raise Violation("dialog", "the number of outputs is not shown: %s" % t[-1])
            self.st.count("ki-confirmed")


def decode(body):
    """the protocol message in an HTTP body"""
    from monero_glue import protobuf
    from monero_glue.protocol_base import messages
    from monero_serialize import xmrserialize
    try:
        js = json.loads(body.decode())
        p = js["payload"]
        b = bytes.fromhex(p["msg"])
        cls = messages.get_message_from_type(p["msg_type"])
    except Exception:
        return None
    try:
        return run(protobuf.load_message(xmrserialize.MemoryReaderWriter(bytearray(b)), cls))
    except Exception:
        return None


def shows(text, td, net):
    """the dialog tells the user exactly what the transaction is"""
    def bad(m):
        raise Violation("dialog", m + "; shown:\n" + text)
    lines = text.split("\n")
    addr = re.compile(r"[1-9A-HJ-NP-Za-km-z]{90,}")
    with_addr = [(i, addr.findall(l)) for i, l in enumerate(lines) if addr.search(l)]
    left = list(with_addr)
    chg = td.change_dts
    for n, o in enumerate(td.outputs or []):
        a = ref.address_str(bytes(o.addr.spend_public_key), bytes(o.addr.view_public_key), bool(o.is_subaddress), None,
                            net).decode()
        for j, (i, found) in enumerate(left):
            # the amount may stand on the line of its address or next to it
            near = lines[i] + "\n" + (lines[i + 1] if i + 1 < len(lines) and not addr.search(lines[i + 1]) else "")
            if found == [a] and app.shown(near.replace(a, ""), o.amount or 0):
                own = chg is not None and (bytes(chg.addr.spend_public_key), bytes(chg.addr.view_public_key)) == \
                    (bytes(o.addr.spend_public_key), bytes(o.addr.view_public_key))
                if re.search(r"(?i)change", lines[i]) and not own:
                    bad("output %d is called change" % n)
                del left[j]
                break
        else:
            bad("output %d of %d piconero to %s is not shown" % (n, o.amount or 0, a))
    if left:
        bad("more outputs shown than the transaction has")
    rest = "\n".join(l for l in lines if not addr.search(l))
    if not app.shown(rest, td.fee or 0):
        bad("the fee of %d piconero is not shown" % (td.fee or 0))
    nums = app.numbers(rest)
    if int(td.unlock_time or 0) not in nums:
        bad("the unlock time %d is not shown" % td.unlock_time)
    if int(td.account or 0) not in nums:
        bad("the account %d is not shown" % td.account)
    if td.payment_id and bytes(td.payment_id).hex() not in text.lower():
        bad("the payment id is not shown")
