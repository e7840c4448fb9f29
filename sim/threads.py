"""
Deterministic threads: real threads of which exactly one runs at any time.

Control changes hands only at yield points: lines of the traced source files and blocking operations.  Lock, RLock
(and everything the standard library builds from them: Event, Condition, Semaphore, Queue) are replaced while a
simulation runs.  Which yield points switch, and to whom, comes from the plan.
"""
import _thread
import os
import sys
import threading

from sim import boot


class Killed(BaseException):
    """ends a simulated thread at the end of the run"""


class Deadlock(Exception):
    pass


class T(object):
    def __init__(self, sched, name, fn):
        self.sched, self.name, self.fn = sched, name, fn
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.done = False
        self.error = None
        self.result = None
        self.wait = None        # callable: may continue?
        self.deadline = None
        self.idle = False       # runs only when nobody else can
        self.ident = None


class Sched(object):
    """switches: {number of the yield point: index of the thread among the runnable ones}"""

    def __init__(self, switches, files=(), st=None, limit=200000):
        self.switches = {}
        for k, v in dict(switches).items():
            for j, x in enumerate(v if isinstance(v, (list, tuple)) else [v]):
                self.switches[int(k) + j] = x
        self.hot = []           # choices for the next yield points, before those of switches
        self.files = set(os.path.realpath(f) for f in files)
        self.ts = []
        self.cur = None
        self.n = 0
        self.st = st
        self.limit = limit
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.killing = False
        self.trace_log = []
        self.fname = {}
        self.over = False

    # ------------------------------------------------------------ threads
    def spawn(self, name, fn):
        t = T(self, name, fn)
        self.ts.append(t)
        return t

    def _boot(self, t):
        t.gate.acquire()
        t.ident = _thread.get_ident()
        if self.files:
            sys.settrace(self._trace)
        try:
            if not self.killing:
                t.result = t.fn()
        except Killed:
            pass
        except BaseException as e:
            t.error = e
        finally:
            sys.settrace(None)
            t.done = True
            self._leave(t)

    def _leave(self, t):
        nxt = self._pick(None) if not self.killing else None
        if nxt is None:
            self.cur = None
            self.main.release()
        else:
            self.cur = nxt
            nxt.gate.release()

    def run(self):
        """runs until every thread is done or blocked for ever; returns the blocked ones"""
        for t in self.ts:
            _thread.start_new_thread(self._boot, (t,))
        first = self._pick(None)
        self.cur = first
        first.gate.release()
        self.main.acquire()
        stuck = [t for t in self.ts if not t.done]
        self.killing = True
        for t in stuck:
            self.cur = t
            t.gate.release()
            self.main.acquire()
        self.over = True
        return stuck

    def me(self):
        c = self.cur
        return c if c is not None and c.ident == _thread.get_ident() else None

    def _ready(self, t):
        return not t.done and (t.wait is None or t.wait())

    def _pick(self, idx):
        rd = [t for t in self.ts if self._ready(t)]
        act = [t for t in rd if not t.idle] or rd
        if not act:
            # let virtual time pass for the earliest timeout
            w = [t for t in self.ts if not t.done and t.deadline is not None]
            if not w:
                return None
            t = min(w, key=lambda x: x.deadline)
            boot.CLOCK.now = max(boot.CLOCK.now, t.deadline)
            t.wait = None
            return t
        if idx is None:
            return act[0]
        return rd[idx % len(rd)]

    def _switch(self, t, nxt):
        if nxt is t:
            return
        self.cur = nxt
        if nxt is None:
            self.main.release()
        else:
            nxt.gate.release()
        t.gate.acquire()
        if self.killing:
            raise Killed()

    # ------------------------------------------------------------ yield points
    def point(self, what):
        t = self.me()
        if t is None or self.killing:
            return
        self.n += 1
        if self.n > self.limit:
            raise Deadlock("no end within %d steps" % self.limit)
        if self.hot:
            s = self.hot.pop(0)
        else:
            s = self.switches.get(self.n)
        if s is None:
            return
        nxt = self._pick(s)
        self.trace_log.append((self.n, t.name, what, nxt.name if nxt else None))
        if self.st is not None and nxt is not t:
            self.st.fault("preemption")
            self.st.ev("switch", self.n, t.name, what, nxt.name if nxt else None)
        if nxt is not None:
            self._switch(t, nxt)

    def block(self, cond, timeout=None):
        """waits until cond() holds; False on timeout"""
        t = self.me()
        if t is None:
            return cond()
        if self.killing:
            raise Killed()
        self.point("block")
        if cond():
            return True
        t.wait = cond
        t.deadline = None if timeout is None else boot.CLOCK.now + timeout
        self._switch(t, self._pick(None))
        t.wait, t.deadline = None, None
        return bool(cond())

    def rest(self):
        """gives way; continues when nobody else can run (or a switch says so)"""
        t = self.me()
        t.idle = True
        try:
            self._switch(t, self._pick(None))
        finally:
            t.idle = False

    def _trace(self, frame, event, arg):
        f = frame.f_code.co_filename
        ok = self.fname.get(f)
        if ok is None:
            ok = self.fname[f] = os.path.realpath(f) in self.files
        if not ok:
            return None
        return self._local

    def _local(self, frame, event, arg):
        if event == "line":
            self.point("%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
        return self._local


class SimLock(object):
    sched = None

    def __init__(self):
        self.held = False
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        s = SimLock.sched
        if self.held:
            if not blocking:
                return False
            if s is None or s.me() is None:
                raise Deadlock("lock held outside of the simulation")
            if not s.block(lambda: not self.held, None if timeout is None or timeout < 0 else timeout):
                return False
        self.held = True
        self.owner = _thread.get_ident()
        return True

    def release(self):
        if not self.held:
            raise RuntimeError("release unlocked lock")
        self.held = False
        self.owner = None

    def locked(self):
        return self.held

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.held = False


class SimRLock(SimLock):
    def __init__(self):
        super().__init__()
        self.n = 0

    def acquire(self, blocking=True, timeout=-1):
        if self.held and self.owner == _thread.get_ident():
            self.n += 1
            return True
        if not super().acquire(blocking, timeout):
            return False
        self.n = 1
        return True

    def release(self):
        if not self.held or self.owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self.n -= 1
        if self.n == 0:
            super().release()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.held and self.owner == _thread.get_ident()

    def _release_save(self):
        n = self.n
        self.n = 0
        SimLock.release(self)
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self.n = n


class patched(object):
    """replaces the lock primitives within the block"""

    def __init__(self, sched):
        self.sched = sched

    def __enter__(self):
        SimLock.sched = self.sched
        self.old = threading.Lock, threading.RLock, threading._allocate_lock, threading._CRLock, threading._PyRLock
        threading.Lock = SimLock
        threading._allocate_lock = SimLock
        threading.RLock = SimRLock
        return self

    def __exit__(self, *a):
        threading.Lock, threading.RLock, threading._allocate_lock, threading._CRLock, threading._PyRLock = self.old
        SimLock.sched = None
