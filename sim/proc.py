"""Simulated child process monero-wallet-rpc behind a model of the sarge interface, in simulated time"""
import hashlib
import re
import shlex

from sim import boot, threads


class Proc(object):
    """
    The wallet: reads two lines, writes logs, serves HTTP from the moment it says so, dies by plan, signal or request.
    plan: open, ready (delays), die (None or [delay, code]), sig, stop (delays to the end), lines [[delay, err, bytes]]
    """

    def __init__(self, plan, cmd, start):
        self.plan, self.cmd, self.start = plan, cmd, start
        self.argv = shlex.split(cmd)
        self.stdin = []                 # (time, bytes)
        self.end = None                 # (time, code)
        self.why = None
        self.readat = {False: 0, True: 0}
        self.emit = []                  # (time, err, bytes)
        self.pw = self.rpcpw = None
        self.said = None                # time at which the ready line is complete
        self.text_at = None             # ... at which its text is there
        self.serving = None
        self.signals = []
        self.requests = []
        for dt, err, data in plan["lines"]:
            self.emit.append((start + dt, bool(err), bytes.fromhex(data)))
        if plan["die"]:
            self.finish(start + plan["die"][0], plan["die"][1], "die")

    def finish(self, t, code, why):
        if self.end is None or t < self.end[0]:
            self.end = (t, code)
            self.why = why

    def dead(self, t=None):
        return self.end is not None and (boot.CLOCK.now if t is None else t) >= self.end[0]

    def write(self, data):
        now = boot.CLOCK.now
        self.stdin.append((now, data))
        text = b"".join(d for _, d in self.stdin).split(b"\n")
        if len(text) > 1 and self.pw is None:
            self.pw = text[0]
        if len(text) > 2 and self.rpcpw is None:
            self.rpcpw = text[1]
            if self.pw != self.plan["password"].encode():
                self.emit.append((now + 0.3, True, b"Error: invalid password\n"))
                self.finish(now + 0.5, 1, "password")
                return
            t = now + self.plan["ready"]
            cut = self.plan["cut"]
            line = ("2018-11-01 10:00:00.123\t    7f0000000001\tWARN \twallet.rpc\tsrc/wallet/wallet_rpc_server.cpp:1\t"
                    + ("Starting wallet RPC server" if self.plan["upper"] else "starting wallet rpc server")
                    + self.plan["eol"]).encode()
            a, b = line[:cut], line[cut:]
            gap = self.plan["gap"]
            self.emit.append((t, self.plan["err"], a))
            self.emit.append((t + gap, self.plan["err"], b))
            if self.plan.get("between"):
                self.emit.append((t + gap / 2, not self.plan["err"], bytes.fromhex(self.plan["between"])))
            self.text_at = t if b"tarting wallet" in a else t + gap
            self.said = t + gap if b"\n" in b else t
            self.serving = t
            self.emit.sort(key=lambda e: e[0])

    def read(self, err):
        """bytes written so far and not read yet"""
        now = boot.CLOCK.now
        out, n = b"", 0
        for t, e, d in sorted(self.emit, key=lambda e: e[0]):
            if e != err or t > now or (self.end is not None and t > self.end[0]):
                continue
            out += d
        k = self.readat[err]
        self.readat[err] = len(out)
        return out[k:]

    def sigint(self):
        now = boot.CLOCK.now
        if self.dead():
            return
        self.signals.append(now)
        self.finish(now + (self.plan["sig"] if self.serving and now >= self.serving else 0.05), 0, "signal")

    # ---------------------------------------------------------------- HTTP
    def up(self):
        return self.serving is not None and boot.CLOCK.now >= self.serving and not self.dead()

    def authorized(self, req):
        h = req.headers.get("Authorization", "")
        if not h.startswith("Digest "):
            return False
        f = dict((k, a or b) for k, a, b in re.findall(r'(\w+)=(?:"([^"]*)"|([^\s,]+))', h))
        md = lambda s: hashlib.md5(s.encode()).hexdigest()
        a1 = md("%s:%s:%s" % (self.user(), f.get("realm"), (self.rpcpw or b"").decode("utf8", "replace")))
        a2 = md("%s:%s" % (req.method, f.get("uri")))
        want = md(":".join([a1, f.get("nonce", ""), f.get("nc", ""), f.get("cnonce", ""), f.get("qop", ""), a2]))
        return f.get("username") == self.user() and f.get("response") == want

    def user(self):
        for a in self.argv:
            if a.startswith("--rpc-login="):
                return a.split("=", 1)[1].split(":")[0]
        return None


class Popen(object):
    def __init__(self, proc):
        self.proc = proc
        self.returncode = None

    def poll(self):
        if self.returncode is None and self.proc.dead():
            self.returncode = self.proc.end[1]
        return self.returncode

    def send_signal(self, s):
        import signal
        if self.poll() is None:
            if s == signal.SIGINT:
                self.proc.sigint()
            else:
                self.proc.signals.append(boot.CLOCK.now)
                self.proc.finish(boot.CLOCK.now + 0.01, -int(s), "signal")

    def terminate(self):
        import signal
        self.send_signal(signal.SIGTERM)

    def kill(self):
        import signal
        self.send_signal(signal.SIGKILL)


class Ready(object):
    def wait(self, timeout=None):
        return True

    def is_set(self):
        return True


class Command(object):
    """one command of a pipeline; without process when it could not be started"""

    def __init__(self, world, proc):
        self.world = world
        self.process_ready = Ready()
        self.process = Popen(proc) if proc is not None else None
        self.exception = None if proc is not None else OSError("simulated: cannot fork")

    @property
    def returncode(self):
        return self.process.returncode

    def poll(self):
        if not self.process:
            raise ValueError("There is no subprocess")
        return self.process.poll()

    def wait(self, timeout=None):
        if not self.process:
            raise ValueError("There is no subprocess")
        self.world.until(lambda: self.process.proc.dead(), timeout, self.process.proc)
        return self.process.poll()

    def terminate(self):
        self.process.terminate()

    def kill(self):
        self.process.kill()


class Stream(object):
    def __init__(self, world, err):
        self.world, self.err = world, err
        self.proc = None

    def read(self, size=-1, block=True, timeout=None):
        if self.proc is None:
            return b""
        r = self.proc.read(self.err)
        if not r and block and not self.proc.dead():
            self.world.sleep(timeout or 0.1)
            r = self.proc.read(self.err)
        return r

    def close(self, stop_threads=False):
        if self.proc is not None:
            self.world.until(lambda: self.proc.dead(), None, self.proc)


class Pipeline(object):
    def __init__(self, world, out, err):
        self.world = world
        self.commands = []
        self.stdout, self.stderr = out, err

    def close(self):
        self.world.until(lambda: bool(self.commands), 60, None)
        for c in self.commands:
            c.wait()

    wait = close


class World(object):
    """what the agent's module misc and time are replaced by"""

    def __init__(self, sched, plan, st):
        self.sched, self.plan, self.st = sched, plan, st
        self.procs = []
        self.runs = []

    # time
    stop = False

    def sleep(self, s):
        if self.stop:
            raise threads.Killed()
        self.sched.block(lambda: False, max(float(s), 0.0))

    def time(self):
        return boot.CLOCK.now

    def until(self, cond, timeout, proc):
        t0 = boot.CLOCK.now
        while not cond():
            left = None if timeout is None else t0 + timeout - boot.CLOCK.now
            if left is not None and left <= 0:
                return False
            step = 0.5
            if proc is not None and proc.end is not None:
                step = max(proc.end[0] - boot.CLOCK.now, 0.0)
            self.sleep(min(step, left) if left is not None else step)
        return True

    # sarge
    def feeder(self):
        return Feeder(self)

    def capture(self, timeout=None, buffer_size=0):
        return Stream(self, None)

    def run(self, cmd, input=None, async_=False, stdout=None, stderr=None, **kw):
        assert async_
        stdout.err, stderr.err = False, True
        p = Pipeline(self, stdout, stderr)
        self.runs.append((cmd, kw))

        def start():
            self.sleep(self.plan["spawn"])
            if self.plan["nofork"]:
                self.st.fault("fork-failed")
                p.commands.append(Command(self, None))
                return
            proc = Proc(self.plan, cmd, boot.CLOCK.now)
            self.procs.append(proc)
            stdout.proc = stderr.proc = proc
            if input is not None:
                input.proc = proc
                for d in input.early:
                    proc.write(d)
            p.commands.append(Command(self, proc))
        self.spawn("starter", start)
        return p

    def spawn(self, name, fn):
        import _thread
        t = self.sched.spawn(name, fn)
        _thread.start_new_thread(self.sched._boot, (t,))
        return t


class Feeder(object):
    def __init__(self, world):
        self.world = world
        self.early = []
        self.proc = None

    def feed(self, data):
        if isinstance(data, str):
            data = data.encode("utf8")
        if not isinstance(data, bytes):
            raise TypeError("Bytes expected")
        if self.proc is None:
            self.early.append(data)
        elif not self.proc.dead():
            self.proc.write(data)

    def close(self):
        pass
