"""
A simulated Trezor on a simulated USB cable.

The host side is real code down to the 64-byte chunks: the agent's Trezor manager, its message conversion and the
installed trezorlib (client, wire format).  The device side assembles the chunks, keeps firmware state (a signing
workflow is dropped by any other message, a fresh Initialize or a reset), asks for buttons, PIN and passphrase, and
gives the Monero messages to the real TokenLite and to the model of the key services.
"""
import struct

from sim import device, keydev, world
from sim.core import Violation
from sim.device import run

PATH = "sim:trezor"
CUR = None      # the cable of this run
CABLES = []     # all that are plugged in


class UnknownMessage(Exception):
    pass


class Cable(object):
    """
    faults {exchange number: [kind, n]}: an exchange is one request of the host with the chunks of its answer
      write-error   the n-th chunk of the request cannot be written
      read-error    the n-th chunk of the answer cannot be read; the device has done its work
      reset-before / reset-after  the device loses its memory, the cable stays
      unplug-before / unplug-after  the device loses its memory and has to be found again
      failure       the firmware answers with a failure
      button        n button requests precede the answer
      pin / pin-wrong / pin-cancel       the device asks for its PIN first
      passphrase / passphrase-cancel     and for the passphrase
      cancel        the user presses cancel at a button request
    """

    def __init__(self, wal, net, st, faults, path=PATH):
        self.me, self.net, self.st = wal, net, st
        self.path = path
        self.faults = {int(k): v for k, v in (faults or {}).items()}
        self.fired = []
        self.n = -1
        self.gen = 0            # number of times plugged in
        self.open = None        # the handle in use
        self.opens = 0
        self.dev = device.SimDevice(world.creds_of(wal, net))
        self.keys = keydev.KeyDevice(wal, world.Drbg("trezor", 1))
        self.rx = bytearray()
        self.tx = []            # chunks for the host
        self.later = []         # messages after buttons
        self.got = []           # Monero messages as the firmware read them
        self.gave = []
        self.ui_log = []
        self.pending = None
        self.signing = False
        self.chunk = 0
        self.rchunk = 0
        self.fault = None
        self.given = b""

    # ------------------------------------------------------------------ cable
    def err(self, text):
        from trezorlib.transport import TransportException
        return TransportException("simulated: " + text)

    def attach(self, handle):
        if handle.gen != self.gen:
            raise self.err("device disconnected")
        if self.open is not None:
            raise self.err("device is used by another process")
        self.open = handle
        self.opens += 1
        self.tx = []
        self.rx = bytearray()

    def detach(self, handle):
        if self.open is handle:
            self.open = None

    def alive(self, handle):
        if self.open is not handle:
            raise Violation("closed-link", "the device is used without having been opened")
        if handle.gen != self.gen:
            raise self.err("device disconnected")

    def reset(self):
        self.st.count("device-reset")
        self.dev.restart()
        self.keys.restart()
        self.rx, self.tx, self.later, self.pending = bytearray(), [], [], None
        self.signing = False

    def unplug(self):
        self.reset()
        self.gen += 1

    def fire(self, kind):
        self.fired.append((self.n, kind))
        self.st.fault("trezor-" + kind)
        self.fault = None

    def write(self, handle, c):
        self.alive(handle)
        if bytes(c[:3]) == b"?##":
            # a new message begins
            self.rx = bytearray()
            self.chunk = 0
            if self.pending is None:
                self.n += 1
                self.fault = self.faults.get(self.n)
        self.chunk += 1
        f = self.fault
        if f and f[0] == "write-error" and self.chunk >= f[1]:
            self.fire("write-error")
            raise self.err("write failed")
        if len(c) != 64 or c[0] != 0x3F:
            raise Violation("wire", "malformed chunk")
        self.rx += c[1:]
        if len(self.rx) < 8 or self.rx[:2] != b"##":
            return
        kind, ln = struct.unpack(">HL", self.rx[2:8])
        if len(self.rx) >= 8 + ln:
            body, self.rx = bytes(self.rx[8:8 + ln]), bytearray()
            self.message(kind, body)

    def read(self, handle):
        self.alive(handle)
        f = self.fault
        self.rchunk += 1
        if f and f[0] == "read-error" and self.rchunk >= f[1]:
            self.fire("read-error")
            raise self.err("read failed")
        if f and f[0] == "unplug-after":
            self.fire(f[0])
            self.unplug()
            raise self.err("device disconnected")
        if not self.tx:
            raise Violation("hang", "the host waits for an answer the device does not owe")
        c = self.tx.pop(0)
        if not self.tx and f and f[0] == "reset-after" and self.pending is None:
            self.fire(f[0])
            self.reset()
        return c

    # --------------------------------------------------------------- firmware
    def send(self, kind, body):
        buf = b"##" + struct.pack(">HL", kind, len(body)) + bytes(body)
        self.tx = [(b"?" + buf[i:i + 63]).ljust(64, b"\0") for i in range(0, len(buf), 63)]
        self.rchunk = 0

    def tsend(self, msg):
        """a message of the general firmware"""
        import io
        from trezorlib import protobuf
        w = io.BytesIO()
        protobuf.dump_message(w, msg)
        self.send(type(msg).MESSAGE_WIRE_TYPE, w.getvalue())

    def fail(self, code, text):
        from trezorlib import messages as T
        self.tsend(T.Failure(code=code, message=text))

    def message(self, kind, body):
        import io
        from trezorlib import messages as T, protobuf
        f = self.fault
        if f and f[0] == "unplug-before":
            self.fire(f[0])
            self.unplug()
            raise self.err("device disconnected")
        if f and f[0] == "reset-before":
            self.fire(f[0])
            self.reset()
        name = NAMES().get(kind)
        if name is None:
            raise Violation("wire", "unknown message type %d" % kind)
        if self.pending is not None:
            return self.dialog(name, kind, body)
        if name == "Initialize":
            self.dev.boot()
            self.keys.restart()
            self.signing = False
            return self.tsend(T.Features(vendor="trezor.io", major_version=2, minor_version=3, patch_version=0,
                                         device_id="sim", model="T", initialized=True, session_id=b"s" * 32,
                                         capabilities=[]))
        if name in ("Ping", "GetEntropy", "GetFeatures", "Cancel"):
            if self.signing:
                # any other message ends a running workflow
                self.dev.boot()
                self.signing = False
            m = protobuf.load_message(io.BytesIO(body), getattr(T, name))
            if name == "Ping":
                return self.tsend(T.Success(message=m.message))
            if name == "Cancel":
                return self.fail(T.FailureType.ActionCancelled, "cancelled")
            if name != "GetEntropy":
                return self.fail(1, "unexpected")
            b = self.keys.d.bytes(min(m.size, 1024))    # the firmware's limit
            self.given += b
            return self.tsend(T.Entropy(entropy=b))
        if f and f[0] in ("button", "cancel", "pin", "pin-wrong", "pin-cancel", "passphrase", "passphrase-cancel"):
            self.pending = [f[0], f[1], kind, body]
            self.fire(f[0])
            return self.ask()
        if f and f[0] == "failure":
            self.fire("failure")
            self.dev.boot()
            return self.fail(99, "simulated firmware error")
        return self.monero(kind, body)

    def ask(self):
        from trezorlib import messages as T
        k = self.pending[0]
        if k.startswith("pin"):
            self.tsend(T.PinMatrixRequest(type=1))
        elif k.startswith("pass"):
            self.tsend(T.PassphraseRequest())
        else:
            self.tsend(T.ButtonRequest(code=8))

    def dialog(self, name, kind, body):
        import io
        from trezorlib import messages as T, protobuf
        p, n, k0, b0 = self.pending
        want = "PinMatrixAck" if p.startswith("pin") else "PassphraseAck" if p.startswith("pass") else "ButtonAck"
        if name != want:
            # the dialog is given up
            self.pending = None
            self.dev.boot()
            self.signing = False
            if name == "Cancel":
                return self.fail(T.FailureType.ActionCancelled, "cancelled")
            return self.message(kind, body)
        m = protobuf.load_message(io.BytesIO(body), getattr(T, name))
        if want == "PinMatrixAck" and m.pin != "1234":
            self.pending = None
            return self.fail(T.FailureType.PinInvalid, "PIN invalid")
        if want == "PassphraseAck" and m.passphrase != "words":
            raise Violation("passphrase", "the passphrase typed reaches the device as %r" % (m.passphrase,))
        if p == "cancel":
            self.pending = None
            self.dev.boot()
            self.signing = False
            return self.fail(T.FailureType.ActionCancelled, "cancelled by user")
        if n > 1 and want == "ButtonAck":
            self.pending[1] -= 1
            return self.ask()
        self.pending = None
        self.monero(k0, b0)

    def monero(self, kind, body):
        from monero_glue import messages as M, protobuf
        from monero_serialize import xmrserialize
        name = NAMES()[kind]
        cls = getattr(M, name)
        req = run(protobuf.load_message(xmrserialize.MemoryReaderWriter(bytearray(body)), cls))
        self.got.append(run(device.wire(req))[1])
        if name.startswith("MoneroTransaction"):
            fn = self.dev.tsx_sign
            self.signing = True
        elif name.startswith("MoneroKeyImage"):
            fn = self.dev.key_image_sync
            self.signing = True
        elif name == "MoneroGetWatchKey":
            fn = self.dev.get_view_key
        elif name == "MoneroGetTxKeyRequest":
            fn = self.keys.get_tx_key
        elif name.startswith("MoneroLiveRefresh"):
            fn = self.keys.live_refresh
        else:
            raise Violation("wire", "the device was asked for %s" % name)
        res = run(fn(req))
        res, blob = run(device.wire(res))
        self.gave.append((type(res).__name__, res))
        self.send(getattr(M.MessageType, type(res).__name__), blob)


_names = {}


def NAMES():
    if not _names:
        from monero_glue.messages import MessageType as T
        for n in dir(T):
            if not n.startswith("_") and isinstance(getattr(T, n), int):
                _names[getattr(T, n)] = n
        from trezorlib.messages import MessageType as T
        for n in dir(T):
            if not n.startswith("_") and isinstance(getattr(T, n), int):
                _names.setdefault(getattr(T, n), n)
    return _names


class Handle(object):
    def __init__(self, cable):
        self.cable = cable
        self.gen = cable.gen

    def open(self):
        self.cable.attach(self)

    def close(self):
        self.cable.detach(self)

    def write_chunk(self, c):
        self.cable.write(self, c)

    def read_chunk(self):
        return self.cable.read(self)


_done = []


class Ui(object):
    """the user at the computer"""

    def __init__(self, *a, **k):
        pass

    def button_request(self, code):
        CUR.ui_log.append("button")

    def get_pin(self, code=None):
        from trezorlib import exceptions
        CUR.ui_log.append("pin")
        k = (CUR.pending or [""])[0]
        if k == "pin-cancel":
            raise exceptions.Cancelled
        return "4321" if k == "pin-wrong" else "1234"

    def get_passphrase(self, available_on_device=False):
        from trezorlib import exceptions
        CUR.ui_log.append("passphrase")
        if (CUR.pending or [""])[0] == "passphrase-cancel":
            raise exceptions.Cancelled
        return "words"


def patch():
    if _done:
        return
    _done.append(1)
    import trezorlib.transport as tt
    from trezorlib import ui
    from trezorlib.transport import protocol

    class SimTransport(protocol.ProtocolBasedTransport):
        PATH_PREFIX = "sim"
        ENABLED = True

        def __init__(self, cable):
            self.cable = cable
            super().__init__(protocol.ProtocolV1(Handle(cable)))

        def get_path(self):
            return self.cable.path

        @classmethod
        def enumerate(cls):
            return [cls(c) for c in CABLES]
    tt.all_transports = lambda: {SimTransport}
    ui.ClickUI = Ui
