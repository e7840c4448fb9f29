"""
Simulated surroundings of the command line agent (monero_poc.agent): HTTP peers (wallet-RPC, daemon, device server),
the terminal with its user, a scratch directory, and the device link.

The HTTP seam is requests' transport adapter, so URL building, JSON encoding and status handling are real code.
"""
import builtins
import contextlib
import decimal
import getpass
import io
import json
import os
import re
import shutil
import sys
import tempfile
import types

from sim import ref, world
from sim.device import run

_state = types.SimpleNamespace(net=None, term=None, patched=False)


class Terminal(object):
    """scripted user at the keyboard; everything printed is kept"""

    def __init__(self, answers=(), passwords=()):
        self.answers = list(answers)
        self.passwords = list(passwords)
        self.out = io.StringIO()
        self.prompts = []     # (question, answer, length of the output at that time)
        self.on_prompt = None

    def input(self, q=None):
        q = "" if q is None else str(q)
        self.out.write(q)
        a = self.answers.pop(0) if self.answers else None
        if self.on_prompt is not None:
            a = self.on_prompt(q, a)
        self.prompts.append((q, a, self.out.tell()))
        if a is None:
            raise EOFError("simulated end of input")
        self.out.write(a + "\n")
        return a

    def getpass(self, q=None, stream=None):
        self.prompts.append((q, "***", self.out.tell()))
        if not self.passwords:
            raise EOFError("simulated end of input")
        return self.passwords.pop(0)


class Net(object):
    """HTTP peers by port, with faults {request number: kind}"""

    def __init__(self, peers, faults=None, st=None):
        self.peers = peers
        self.faults = {int(k): v for k, v in (faults or {}).items()}
        self.n = 0
        self.fired = []
        self.st = st
        self.log = []

    def send(self, req):
        import requests
        m = re.match(r"http://([^/:]+):(\d+)(/.*)$", req.url)
        n = self.n
        self.n += 1
        if not m or int(m.group(2)) not in self.peers:
            raise requests.exceptions.ConnectionError("simulated: nobody listens at %s" % req.url)
        f = self.faults.get(n)
        if f:
            self.fired.append((n, f))
            if self.st is not None:
                self.st.fault("http-" + f)
        if f == "lost-request":
            raise requests.exceptions.ConnectionError("simulated: request lost")
        body = req.body
        if isinstance(body, str):
            body = body.encode()
        if f == "http-500":
            return self.resp(500, b"simulated server error", req)
        self.log.append((m.group(3), body))
        status, content = self.peers[int(m.group(2))](m.group(3), req.method, body or b"", f)
        if f == "dup-request":
            status, content = self.peers[int(m.group(2))](m.group(3), req.method, body or b"", f)
        if f == "lost-response":
            raise requests.exceptions.ConnectionError("simulated: response lost")
        if f == "cut-response":
            content = content[:len(content) // 2]
        return self.resp(status, content, req)

    def resp(self, status, content, req):
        import requests
        r = requests.Response()
        r.status_code = status
        r._content = content
        r.url = req.url
        r.request = req
        r.encoding = "utf-8"
        r.reason = "simulated"
        return r


def patch():
    """installs the seams once per process; they are inert while no Net / Terminal is active"""
    if _state.patched:
        return
    _state.patched = True
    import requests.adapters
    real_send = requests.adapters.HTTPAdapter.send
    real_input, real_getpass = builtins.input, getpass.getpass

    def send(self, request, *a, **k):
        if _state.net is None:
            raise RuntimeError("network access outside of the simulation: %s" % request.url)
        return _state.net.send(request)

    def inp(q=None):
        if _state.term is None:
            return real_input(q)
        return _state.term.input(q)

    def gp(prompt="Password: ", stream=None):
        if _state.term is None:
            return real_getpass(prompt, stream)
        return _state.term.getpass(prompt, stream)
    requests.adapters.HTTPAdapter.send = send
    builtins.input = inp
    getpass.getpass = gp


@contextlib.contextmanager
def scene(net=None, term=None, scratch=True):
    """activates the seams, with a scratch working directory"""
    patch()
    old = _state.net, _state.term
    cwd = os.getcwd()
    d = None
    try:
        if scratch:
            d = tempfile.mkdtemp(prefix="simapp")
            os.chdir(d)
        _state.net, _state.term = net, term
        if term is not None:
            with contextlib.redirect_stdout(term.out), contextlib.redirect_stderr(term.out):
                yield d
        else:
            yield d
    finally:
        _state.net, _state.term = old
        os.chdir(cwd)
        if d:
            shutil.rmtree(d, ignore_errors=True)


_cls = None


def agent_class():
    global _cls
    if _cls is None:
        import threading
        from monero_poc import agent

        class SimAgent(agent.HostAgent):
            """the real command line agent; coroutines run in the caller instead of the worker thread"""

            def submit_coro(self, coro):
                import concurrent.futures
                f = concurrent.futures.Future()
                try:
                    f.set_result(run(coro))
                except Exception as e:
                    f.set_exception(e)
                return f
        _cls = SimAgent
        real_start = threading.Thread.start

        def start(self):
            # the agent's own event loop thread is not needed
            if getattr(getattr(self, "_target", None), "__name__", "") == "looper":
                return
            return real_start(self)
        threading.Thread.start = start
    return _cls


def args(**kw):
    """the agent's own reading of this command line"""
    opts = dict(poc=True)
    opts.update(kw)
    argv = ["agent"]
    for k, v in opts.items():
        if v is True:
            argv.append("--" + k.replace("_", "-"))
        elif v not in (None, False):
            # one word each, as values may start with a dash
            argv.append("--%s=%s" % (k.replace("_", "-"), v))
    host = types.SimpleNamespace()

    async def entry():
        pass
    host.entry = entry
    old = sys.argv
    sys.argv = argv
    try:
        run(agent_class().main(host))
    finally:
        sys.argv = old
    return host.args


def close(ag):
    """frees the unused loop"""
    try:
        ag.worker_loop.close()
    except Exception:
        pass


def numbers(text):
    """all decimal numbers printed"""
    res = set()
    for m in re.finditer(r"(?<![0-9A-Za-z.])[0-9]+(?:\.[0-9]+)?(?:[eE][+-]?[0-9]+)?(?![0-9A-Za-z])", text):
        try:
            res.add(decimal.Decimal(m.group(0)))
        except decimal.InvalidOperation:
            pass
    return res


PICO = decimal.Decimal(10) ** 12


def shown(text, amount):
    """is this exact amount of piconeros printed in XMR?"""
    with decimal.localcontext() as c:
        c.prec = 60
        return decimal.Decimal(amount) / PICO in numbers(text)


# ------------------------------------------------------------------ files of the Monero wallet, independently
def slow_hash(b):
    import pycryptonight
    return pycryptonight.cn_slow_hash(bytes(b))


_keys = {}


def view_key(wal):
    if wal.a not in _keys:
        _keys[wal.a] = slow_hash(ref.i2b(wal.a))
    return _keys[wal.a]


def seal(wal, plain, nonce, k):
    """Monero's authenticated file encryption"""
    from Crypto.Cipher import ChaCha20
    ct = nonce + ChaCha20.new(key=view_key(wal), nonce=nonce).encrypt(bytes(plain))
    h = ref.keccak(ct)
    pub = ref.enc(ref.G(wal.a))
    c = ref.hs(h + pub + ref.enc(ref.G(k)))
    r = (k - c * wal.a) % ref.L
    return ct + ref.i2b(c) + ref.i2b(r)


def unseal(wal, data):
    """None if the authentication fails"""
    from Crypto.Cipher import ChaCha20
    data = bytes(data)
    ct, s = data[:-64], data[-64:]
    if len(data) < 72:
        return None
    c, r = ref.b2i(s[:32]), ref.b2i(s[32:])
    if c >= ref.L or r >= ref.L:
        return None
    pub = ref.enc(ref.G(wal.a))
    t = ref.enc(ref.gpq(r, c, ref.dec(pub)))
    if ref.hs(ref.keccak(ct) + pub + t) != c:
        return None
    return ChaCha20.new(key=view_key(wal), nonce=ct[:8]).decrypt(ct[8:])


def boost_dump(msg, hf=None, container=None, tup=None):
    from monero_serialize import xmrboost, xmrserialize, xmrtypes
    w = xmrserialize.MemoryReaderWriter()
    ar = xmrboost.Archive(w, True, xmrtypes.hf_versions(hf)) if hf else xmrboost.Archive(w, True)

    async def go():
        await ar.root()
        if tup is not None:
            await ar.tuple(msg, elem_type=tup)
        elif container is not None:
            await ar.container(msg, container_type=container)
        else:
            await ar.message(msg)
    run(go())
    return bytes(w.get_buffer())


def boost_load(data, msg, hf=None):
    from monero_serialize import xmrboost, xmrserialize, xmrtypes
    r = xmrserialize.MemoryReaderWriter(bytearray(data))
    ar = xmrboost.Archive(r, False, xmrtypes.hf_versions(hf)) if hf else xmrboost.Archive(r, False)

    async def go():
        await ar.root()
        await ar.message(msg)
    run(go())
    return msg


def tx_blob(tx, hf=10):
    from monero_serialize import xmrserialize, xmrtypes
    w = xmrserialize.MemoryReaderWriter()
    ar = xmrserialize.Archive(w, True, xmrtypes.hf_versions(hf))
    run(ar.message(tx, msg_type=xmrtypes.Transaction))
    return bytes(w.get_buffer())


UNSIGNED = b"Monero unsigned tx set\x04"
SIGNED = b"Monero signed tx set\x04"
OUTPUTS = b"Monero output export"


def transfer_details(d, ki, src=None):
    """one entry of the wallet's transfer list"""
    from monero_serialize.xmrtypes import (SubaddressIndex, TransactionPrefix, TransferDetails, TxOut, TxoutToKey)
    key = src.dest if src is not None else d.point()
    tx = TransactionPrefix(version=2, unlock_time=0, vin=[], vout=[TxOut(amount=0, target=TxoutToKey(key=key))],
                           extra=list(b"\x01" + d.point()))
    return TransferDetails(
        m_block_height=d.below(1 << 20), m_tx=tx, m_txid=d.bytes(32), m_internal_output_index=0,
        m_global_output_index=d.below(1 << 20), m_spent=False, m_spent_height=0, m_key_image=ki, m_mask=d.bytes(32),
        m_amount=d.below(1 << 40), m_rct=True, m_key_image_known=False, m_key_image_requested=False, m_pk_index=0,
        m_subaddr_index=SubaddressIndex(major=0, minor=d.below(5)), m_key_image_partial=False, m_multisig_k=[],
        m_multisig_info=[], m_uses=[])


class WalletRpc(object):
    """
    Model of monero-wallet-rpc in watch-only mode.  offers: {method: function(params) -> result dict} is filled by
    the check; every call is recorded.
    """

    def __init__(self):
        self.calls = []
        self.offers = {}

    def __call__(self, path, method, body, fault):
        try:
            js = json.loads(body.decode())
        except Exception:
            return 400, b"bad request"
        if path != "/json_rpc" or js.get("jsonrpc") != "2.0":
            return 404, b"not found"
        m, p = js.get("method"), js.get("params")
        self.calls.append((m, p))
        if fault == "rpc-error":
            return 200, json.dumps({"id": "0", "jsonrpc": "2.0", "error": {
                "code": -4, "message": "simulated wallet error"}}).encode()
        if m not in self.offers:
            return 200, json.dumps({"id": "0", "jsonrpc": "2.0",
                                    "error": {"code": -32601, "message": "Method not found"}}).encode()
        res = self.offers[m](p, fault)
        return 200, json.dumps({"id": "0", "jsonrpc": "2.0", "result": res}).encode()


def fast_kdf():
    """key stretching with two rounds instead of thousands (the number still enters the key)"""
    import sys
    import Crypto.Protocol.KDF as kdf
    if getattr(kdf.PBKDF2, "sim", False):
        return
    real = kdf.PBKDF2

    def PBKDF2(password, salt, dkLen=16, count=1000, prf=None, hmac_hash_module=None):
        return real(password, bytes(salt) + b"|%d" % count, dkLen, 2, prf, hmac_hash_module)
    PBKDF2.sim = True
    kdf.PBKDF2 = PBKDF2
    for m in list(sys.modules.values()):
        if getattr(m, "PBKDF2", None) is real:
            m.PBKDF2 = PBKDF2


def warm():
    """what every run of the command line agent loads"""
    import requests          # noqa: F401
    import monero_glue.agent.agent_lite          # noqa: F401
    import monero_glue.xmr.wallet          # noqa: F401
    term = Terminal()
    with scene(None, term):
        ag = agent_class()()
    close(ag)
