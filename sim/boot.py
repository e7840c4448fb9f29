"""
Nondeterminism seams.  Imported before anything of the repository.

Every random draw of the code under test (os.urandom, pycryptodome's Crypto.Random, the python `random`
module, the C library's random buffer / scalar generator) is served by one seeded stream owned by the
simulator.  The clock is a virtual clock.  Draws are counted, and any draw can be made to fail (fault kind
"rng").
"""
import hashlib
import os
import random as _random
import sys
import time as _time

REAL_URANDOM = os.urandom
REAL_TIME = _time.time
REAL_MONOTONIC = _time.monotonic
REAL_PERF = _time.perf_counter
REAL_SLEEP = _time.sleep

REPO = os.environ.get("SIM_REPO", "/repo")
ORD = 2 ** 252 + 27742317777372353535851937790883648493


class RngFault(OSError):
    """Injected failure of the random source"""


class SimTimeout(Exception):
    pass


class Entropy(object):
    def __init__(self):
        self.key = b""
        self.ctr = 0
        self.draws = 0
        self.fail_at = None
        self.fired = 0
        self.near = None        # (position, mask): the only bytes of a draw which differ from the undisturbed stream

    def reset(self, seed):
        self.key = hashlib.sha256(b"sim-entropy" + str(seed).encode()).digest()
        self.ctr = 0
        self.draws = 0
        self.fail_at = None
        self.fired = 0
        self.near = None
        _random.seed(int.from_bytes(self.key[:8], "big"))

    def take(self, n):
        self.draws += 1
        if self.fail_at is not None and self.draws == self.fail_at:
            self.fired += 1
            raise RngFault("simulated entropy source failure")
        out = b""
        while len(out) < n:
            self.ctr += 1
            out += hashlib.sha512(self.key + self.ctr.to_bytes(8, "big")).digest()
        out = out[:n]
        if self.near is not None and n:
            at, mask = self.near
            out = bytes(x ^ mask if i % min(n, 32) == at % min(n, 32) else x for i, x in enumerate(out))
        return out


ENTROPY = Entropy()
ENTROPY.reset("boot")


def _urandom(n):
    return ENTROPY.take(n)


class Clock(object):
    def __init__(self):
        self.now = 1_600_000_000.0
        self.sleeps = 0
        self.on_sleep = None

    def reset(self, start=1_600_000_000.0):
        self.now = start
        self.sleeps = 0
        self.on_sleep = None

    def time(self):
        return self.now

    def sleep(self, d):
        self.sleeps += 1
        self.now += max(0.0, d)
        if self.on_sleep is not None:
            self.on_sleep(d)


CLOCK = Clock()
_installed = False


def install():
    """Puts the seams in place; call once per process, before importing the repository"""
    global _installed
    if _installed:
        return
    _installed = True

    import warnings
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    os.environ.setdefault("EC_BACKEND_FORCE", "1")
    os.environ.setdefault("EC_BACKEND", "1")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)

    # stdlib modules that must keep the real source are imported first
    import tempfile, uuid, asyncio, threading, subprocess, socket, ssl, selectors  # noqa
    import importlib.util

    os.urandom = _urandom
    _random._urandom = _urandom

    from trezor_crypto import trezor_cfunc as tc
    from trezor_crypto import trezor_cfunc_gen as tcg
    tc.open_lib()

    def random_buffer_r(sz):
        return ENTROPY.take(sz)

    def _scalar_bytes():
        return (int.from_bytes(ENTROPY.take(64), "little") % ORD).to_bytes(32, "little")

    def xmr_random_scalar(m):
        tc.expand256_modm(m, tc.KEY_BUFF(*_scalar_bytes()), 32)

    def xmr_random_scalar_r():
        return tc.expand256_modm_r(tc.KEY_BUFF(*_scalar_bytes()))

    for mod in (tc, tcg):
        mod.random_buffer_r = random_buffer_r
        mod.xmr_random_scalar = xmr_random_scalar
        mod.xmr_random_scalar_r = xmr_random_scalar_r

    import Crypto.Random as cr
    cr.urandom = _urandom
    cr.get_random_bytes = _urandom


def import_repo_quiet():
    """Imports the modules used by most checks, silencing syntax warnings of the sources"""
    install()
    import logging
    logging.disable(logging.CRITICAL)
    import traceback
    traceback.print_exc = lambda *a, **k: None  # device prints injected failures; not an observable here
