"""
Model of the firmware's key services the repository only has the host side of: recovery of transaction keys and
live refresh.  Written from the protocol (independent of monero_glue), with faults on the answers.
"""
import hashlib
import hmac

from Crypto.Hash import keccak as _k
from cryptography.exceptions import InvalidTag
from cryptography.hazmat.primitives.ciphers.aead import ChaCha20Poly1305

from sim import ref
from sim.ref import L


class _Kk(object):
    """keccak-256 for hmac"""
    block_size = 136
    digest_size = 32

    def __init__(self, data=b""):
        self.b = bytearray(data)

    def update(self, d):
        self.b += d

    def copy(self):
        return _Kk(self.b)

    def digest(self):
        return _k.new(digest_bits=256, data=bytes(self.b)).digest()


def hmac_k(key, msg):
    h = hmac.new(bytes(key), digestmod=_Kk)
    h.update(bytes(msg))
    return h.digest()


def k2(b):
    return ref.keccak(ref.keccak(bytes(b)))


def seal(key, plain, nonce):
    return nonce + ChaCha20Poly1305(key).encrypt(nonce, bytes(plain), None)


def unseal(key, blob):
    blob = bytes(blob)
    return ChaCha20Poly1305(key).decrypt(blob[:12], blob[12:], None)


def tx_keys_key(wal, salt1, salt2, prefix_hash):
    return hmac_k(salt1, k2(ref.i2b((wal.b + ref.b2i(bytes(salt2))) % L) + bytes(prefix_hash)))


def view_key_key(wal, prefix, salt):
    return hmac_k(salt, k2(ref.i2b(wal.a) + bytes(prefix)))


def open_tx_keys(wal, salt1, salt2, enc, prefix_hash):
    """list of scalars or None"""
    try:
        b = unseal(tx_keys_key(wal, salt1, salt2, prefix_hash), enc)
    except (InvalidTag, ValueError):
        return None
    if len(b) % 32:
        return None
    return [ref.b2i(b[i:i + 32]) for i in range(0, len(b), 32)]


class KeyDevice(object):
    """answers of the hardware; lie(kind, response, request) may replace an answer"""

    def __init__(self, wal, drbg):
        self.w, self.d = wal, drbg
        self.started = False
        self.lie = None
        self.done = []

    def restart(self):
        self.started = False

    async def _wire(self, msg):
        from sim.device import wire
        return (await wire(msg))[0]

    def _fail(self, text):
        from monero_glue.messages import Failure
        return Failure(code=99, message=text)

    async def get_tx_key(self, msg):
        from monero_glue import messages as M
        msg = await self._wire(msg)
        keys = open_tx_keys(self.w, msg.salt1, msg.salt2, msg.tx_enc_keys, msg.tx_prefix_hash)
        if keys is None:
            return await self._wire(self._fail("cannot decrypt"))
        salt = self.d.bytes(32)
        key = view_key_key(self.w, msg.tx_prefix_hash, salt)
        if not msg.reason:
            r = M.MoneroGetTxKeyAck(salt=salt, tx_keys=seal(key, b"".join(ref.i2b(x) for x in keys), self.d.bytes(12)))
        else:
            ders = [ref.derivation(bytes(msg.view_public_key), x) for x in keys]
            r = M.MoneroGetTxKeyAck(salt=salt, tx_derivations=seal(key, b"".join(ders), self.d.bytes(12)))
        return await self._out("key", r, msg)

    async def live_refresh(self, msg):
        from monero_glue import messages as M
        msg = await self._wire(msg)
        n = type(msg).__name__
        if n == "MoneroLiveRefreshStartRequest":
            self.started = True
            return await self._wire(M.MoneroLiveRefreshStartAck())
        if not self.started:
            return await self._wire(self._fail("not started"))
        if n == "MoneroLiveRefreshFinalRequest":
            self.started = False
            return await self._wire(M.MoneroLiveRefreshFinalAck())
        pair = (msg.sub_addr_major or 0, msg.sub_addr_minor or 0)
        h = ref.der_scalar(bytes(msg.recv_deriv), msg.real_out_idx or 0)
        x = (h + self.w.spend_secret(*pair)) % L
        if ref.enc(ref.G(x)) != bytes(msg.out_key):
            return await self._wire(self._fail("not own output"))
        return await self._out("ki", self.ki_answer(bytes(msg.out_key), x, bytes(msg.out_key)), msg)

    def ki_answer(self, pub, x, enc_for, ki=None, signer=None):
        from monero_glue import messages as M
        ki = ref.key_image(pub, x) if ki is None else ki
        k = self.d.scalar()
        s = x if signer is None else signer
        c = ref.hs(ki + ref.enc(ref.G(k)) + ref.enc(ref.mul(ref.hp(pub), k)))
        r = (k - c * s) % L
        salt = self.d.bytes(32)
        return M.MoneroLiveRefreshStepAck(salt=salt, key_image=seal(
            view_key_key(self.w, enc_for, salt), ki + ref.i2b(c) + ref.i2b(r), self.d.bytes(12)))

    async def _out(self, kind, res, msg):
        if self.lie is not None:
            res = self.lie(kind, res, msg)
        res = await self._wire(res)
        self.done.append((kind, msg, res))
        return res
