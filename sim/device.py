"""
Simulated hardware device: the real TokenLite behind a simulated wire.

Every request and response crosses the real protobuf encoder and decoder.  The device can be restarted (RAM lost),
its user interface is driven by a scripted user, its random source can fail at any draw, and its user interface
callbacks can fail at any call.
"""
import copy
import io

from sim.boot import ENTROPY


TAP = None      # when a list: (device, kind, request, response) of every exchange of every device


class LinkDown(Exception):
    """transport error seen by the host"""


class UiFault(Exception):
    """injected failure of a device callback"""


def run(coro):
    """Runs a coroutine that never really waits"""
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    coro.close()
    raise RuntimeError("coroutine waits outside of the simulator")


async def wire(msg):
    """message -> bytes -> message"""
    from monero_glue import protobuf
    from monero_serialize import xmrserialize
    w = xmrserialize.MemoryReaderWriter()
    await protobuf.dump_message(w, msg)
    blob = bytes(w.get_buffer())
    r = xmrserialize.MemoryReaderWriter(bytearray(blob))
    return await protobuf.load_message(r, msg.__class__), blob


class User(object):
    """Scripted user at the device"""

    def __init__(self, sim):
        self.sim = sim
        self.calls = 0
        self.fail_at = None     # number of the callback that fails
        self.fired = 0
        self.accept = True      # or callable(kind, data) -> bool
        self.confirmed = None   # snapshot of the last accepted transaction
        self.shown = []         # (kind, snapshot, decision)
        self.signed = 0
        self.finished = 0
        self.errors = 0

    def _tick(self):
        self.calls += 1
        if self.fail_at is not None and self.calls == self.fail_at:
            self.fired += 1
            raise UiFault("simulated display failure")

    def _decide(self, kind, data):
        snap = copy.deepcopy(data)
        dec = self.accept(kind, snap) if callable(self.accept) else self.accept
        self.shown.append((kind, snap, dec))
        return dec, snap

    async def confirm_transaction(self, tsx_data, creds=None, ctx=None):
        self._tick()
        dec, snap = self._decide("tx", tsx_data)
        self.confirmed = snap if dec else None
        return dec

    async def confirm_ki_sync(self, init_msg, ctx=None):
        self._tick()
        return self._decide("ki", init_msg)[0]

    async def transaction_error(self, *a, **k):
        self.errors += 1

    async def transaction_signed(self, ctx=None):
        self._tick()
        self.signed += 1

    async def transaction_finished(self, ctx=None):
        self._tick()
        self.finished += 1

    async def transaction_step(self, *a, **k):
        self._tick()

    async def ki_error(self, *a, **k):
        pass

    async def ki_step(self, *a, **k):
        self._tick()

    async def ki_finished(self, *a, **k):
        pass


class SimDevice(object):
    def __init__(self, creds):
        self.creds = creds
        self.user = None
        self.log = []          # (kind, request, response)
        self.restarts = 0
        self.reqs = 0
        self.token = None
        self.boot()

    def boot(self):
        from monero_glue.hwtoken.token import TokenLite
        from monero_glue.hwtoken.iface import TokenInterface
        old = self.user
        self.user = User(self)
        if old is not None:
            self.user.accept = old.accept
        # anything a newer firmware may call on the interface falls back to the shipped no-op
        base = TokenInterface()
        u = self.user

        class Face(TokenInterface):
            pass

        face = Face()
        for n in dir(u):
            if not n.startswith("_") and hasattr(base, n) and callable(getattr(u, n)):
                setattr(face, n, getattr(u, n))
        self.token = TokenLite()
        self.token.creds = self.creds
        self.token.iface = face
        self.token.debug = False

    def restart(self):
        self.restarts += 1
        self.boot()

    async def _call(self, kind, fn, msg):
        self.reqs += 1
        req, blob = await wire(msg)
        # the device may modify the request while processing: log an independent copy
        logged, _ = await wire(msg)
        res = await fn(req)
        res2, _ = await wire(res)
        self.log.append((kind, logged, res2))
        if TAP is not None:
            TAP.append((self, kind, logged, res2))
        res3, _ = await wire(res)
        return res3

    async def tsx_sign(self, msg):
        return await self._call("tx", self.token.tsx_sign, msg)

    async def key_image_sync(self, msg):
        return await self._call("ki", self.token.key_image_sync, msg)

    async def get_view_key(self, msg):
        return await self._call("vk", self.token.get_view_key, msg)


def is_failure(res):
    return type(res).__name__ == "Failure"


def short(msg):
    return type(msg).__name__.replace("MoneroTransaction", "").replace("MoneroKeyImage", "Ki")
