"""
Host side of the wire: a seeded scheduler for host tasks and a link with faults between a host agent and the device.
"""
from sim import device
from sim.device import LinkDown


class Pause(object):
    """a point where the scheduler may switch to another task"""

    def __init__(self, what):
        self.what = what

    def __await__(self):
        yield self.what


class Link(object):
    """
    What a host agent sees as the device.  faults: {request number: kind}
      lost-request   the request does not arrive, transport error
      lost-response  the device processed the request, the response is lost, transport error
      dup-request    the request arrives twice, the answer to the second one is returned
      dup-response   the previous response is delivered instead of the new one
      restart-before the device restarts before the request (its RAM is lost)
      restart-after  the device restarts after processing, the response arrives
      garble         one byte of the encoded response is changed
      failure        the device answers Failure without doing anything
      wrong-type     a response of another step
    """

    def __init__(self, dev, name="h", faults=None, pauses=True, st=None, rng=None):
        self.dev, self.name = dev, name
        self.faults = faults or {}
        self.pauses = pauses
        self.n = 0
        self.last = {}
        self.fired = []
        self.st = st
        self.rng = rng
        self.calls = []      # (request, response delivered)

    async def _go(self, kind, fn, msg):
        n = self.n
        self.n += 1
        if self.pauses:
            await Pause((self.name, "send", n))
        f = self.faults.get(n) or self.faults.get(str(n))
        if f:
            self.fired.append((n, f, type(msg).__name__))
            if self.st is not None:
                self.st.fault("link-" + f)
        if f == "lost-request":
            raise LinkDown("simulated: request lost")
        if f == "restart-before":
            self.dev.restart()
        if f == "failure":
            from monero_glue.messages import Failure
            return Failure(code=99, message="simulated device failure")
        if f == "dup-request":
            await fn(msg)
        res = await fn(msg)
        if f == "restart-after":
            self.dev.restart()
        if f == "lost-response":
            raise LinkDown("simulated: response lost")
        if f == "dup-response" and kind in self.last:
            res = self.last[kind]
        if f == "wrong-type":
            res = self.other(res)
        if f == "garble":
            res = await self.garble(res)
        self.last[kind] = res
        if self.pauses:
            await Pause((self.name, "recv", n))
        return res

    def other(self, res):
        from monero_glue import messages as M
        c = [M.MoneroTransactionInputViniAck, M.MoneroTransactionInputsPermutationAck, M.MoneroWatchKey,
             M.MoneroTransactionAllInputsSetAck, M.MoneroKeyImageExportInitAck, M.MoneroTransactionFinalAck]
        return [x for x in c if x is not type(res)][self.rng.randrange(3)]()

    async def garble(self, res):
        from sim import host
        fs = [f for f in host.fields_of(res) if f[1] == "leaf"]
        fs = [f for f in fs if isinstance(host.get_path(res, f[0]), (bytes, bytearray)) and host.get_path(res, f[0])]
        if not fs:
            return res
        p = self.rng.choice(fs)[0]
        b = bytearray(host.get_path(res, p))
        b[self.rng.randrange(len(b))] ^= 1 << self.rng.randint(0, 7)
        host.set_path(res, p, bytes(b))
        return res

    async def tsx_sign(self, msg):
        return await self._go("tx", self.dev.tsx_sign, msg)

    async def key_image_sync(self, msg, *a, **k):
        return await self._go("ki", self.dev.key_image_sync, msg)

    async def get_view_key(self, msg):
        return await self._go("vk", self.dev.get_view_key, msg)


class Task(object):
    def __init__(self, name, coro):
        self.name, self.coro = name, coro
        self.done = False
        self.result = None
        self.error = None
        self.steps = 0

    def step(self):
        self.steps += 1
        try:
            return self.coro.send(None)
        except StopIteration as e:
            self.done, self.result = True, e.value
        except Exception as e:
            self.done, self.error = True, e
        return None


class Scheduler(object):
    """runs tasks; every choice comes from the plan (a list of integers), then round robin"""

    def __init__(self, choices, st=None, limit=4000):
        self.choices = list(choices)
        self.n = 0
        self.st = st
        self.limit = limit
        self.trace = []

    def run(self, tasks, on_step=None):
        from sim.core import Violation
        k = 0
        while True:
            live = [t for t in tasks if not t.done]
            if not live:
                return
            self.n += 1
            if self.n > self.limit:
                raise Violation("no-progress", "tasks %s did not finish within %d steps" % (
                    [t.name for t in live], self.limit))
            if k < len(self.choices):
                t = live[self.choices[k] % len(live)]
                k += 1
            else:
                t = live[0]
            w = t.step()
            self.trace.append(t.name)
            if self.st is not None:
                self.st.ev("step", t.name, w if w is None else list(w))
            if on_step is not None:
                on_step(t, w)


def run1(coro, choices=(), st=None):
    t = Task("h", coro)
    Scheduler(choices, st).run([t])
    if t.error is not None:
        raise t.error
    return t.result
