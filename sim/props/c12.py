"""C12: wallet files read back exactly; damaged, foreign or half written ones are refused"""
import binascii
import copy
import json
import os
import random

from sim import app, boot, core, kiworld, ref, world
from sim.core import Violation
from sim.device import run

LEVEL = "exploration"
RUNS = {"quick": 800, "thorough": 20000}
CAP = {"quick": 110, "thorough": 780}
RULE = ("A run writes one to four files (watch-only wallet keys, unsigned and signed transaction sets, exported "
        "outputs, agent accounts) of generated wallets with the real code or an independent writer, damages the stored "
        "bytes (bits, bytes, cut or doubled ranges, zeroed blocks, parts of another file), and reads them with the real "
        "code and an independent reader, with right and wrong keys and with a failing random source while writing. "
        "Non-trivial: a file was read; distinct by the digest of files and results.")
SHAPE = "(kind of file, writer, damage, reader's key, result)"
REAL = ["wallet file reading and writing (keys, unsigned, signed, outputs)", "account file encryption and opening",
        "chacha20 file encryption with signatures", "command line agent's account opening", "EC library"]
STUB = ["storage (bytes with seeded damage)", "terminal", "rounds of the password stretching (2)",
        "random source (seeded)"]
ASSUME = ["the boost containers of the installed monero_serialize library are correct for both sides",
          "the creation time of wallet keys is cut to one byte by the installed monero_serialize library: not judged",
          "the two legal version numbers of output exports are not swapped (the header is not authenticated)",
          "wallet key files are not authenticated by Monero's format: damage is judged through the address check"]
DAMAGE = ["none", "none", "none", "bit", "bit", "byte", "cut", "double", "zero", "splice", "extend", "key"]


def warm():
    app.warm()
    app.fast_kdf()


def plan(rng, tier, i):
    fs = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        k = rng.choice(["keys", "keys", "unsigned", "unsigned", "outputs", "outputs", "signed", "account", "account"])
        f = {"k": k, "seed": rng.randint(0, 1 << 40), "damage": rng.choice(DAMAGE), "at": rng.random(),
             "bit": rng.randint(0, 7), "len": rng.choice([1, 2, 8, 32, 64, 200]), "wallet": "w%d" % rng.randint(0, 300),
             "pw": rng.choice(["", "pw", "long password with spaces", "p\u00e4ss"]), "ours": rng.random() < 0.5,
             "rng": rng.randint(1, 3) if rng.random() < 0.08 else None, "version": rng.choice([3, 4])}
        if k in ("unsigned", "signed"):
            f["specs"] = [world.gen_spec(rng, max_in=2, max_out=2, hfs=(10,), clients=(1,))
                          for _ in range(rng.choice([1, 1, 2]))]
            for s in f["specs"]:
                while s["change"] is None:
                    s.update(world.gen_spec(rng, max_in=2, max_out=2, hfs=(10,), clients=(1,)))
        if k == "outputs":
            f["ki"] = kiworld.gen(rng, 4)
        fs.append(f)
    return {"files": fs}


def shrink(plan):
    yield from core.generic_shrink(plan, ("files",))
    for j, f in enumerate(plan["files"]):
        for k, v in (("damage", "none"), ("rng", None), ("pw", "pw"), ("at", 0.5), ("len", 1)):
            if f[k] != v:
                c = copy.deepcopy(plan)
                c["files"][j][k] = v
                yield c


def hurt(f, data, other):
    """the stored bytes after damage"""
    b = bytearray(data)
    d, n = f["damage"], len(data)
    at = int(f["at"] * n)
    ln = f["len"]
    if d == "bit":
        b[at] ^= 1 << f["bit"]
    elif d == "byte":
        b[at] = (b[at] + 1 + f["seed"] % 255) % 256
    elif d == "cut":
        del b[at:]
    elif d == "double":
        b[at:at] = b[at:at + ln]
    elif d == "zero":
        b[at:at + ln] = bytes(len(b[at:at + ln]))
    elif d == "splice" and other is not None:
        b[at:] = other[at:]
    elif d == "extend":
        b += b"\0" * ln
    return bytes(b)


class Case(object):
    def __init__(self, f, st, nr):
        self.f, self.st = f, st
        self.wal = world.wallet(f["wallet"])
        self.drbg = world.Drbg("c12", f["seed"], nr)
        self.rng = random.Random(f["seed"])

    # ---------------------------------------------------------------- transaction sets and outputs
    def view(self):
        from monero_glue.xmr import crypto
        return crypto.decodeint(ref.i2b(self.wal.a))

    def thief(self):
        from monero_glue.xmr import crypto
        return crypto.decodeint(ref.i2b(world.wallet(self.f["wallet"] + "x").a))

    def cds(self):
        res = []
        for s in self.f["specs"]:
            w = world.WTx(s)
            cd = w.construction_data()
            cd.selected_transfers = list(range(len(w.srcs)))
            for x in [cd.change_dts] + list(cd.splitted_dsts) + list(cd.dests):
                x.original = bytes(x.original).decode() if not isinstance(x.original, str) else x.original
            res.append((w, cd))
        return res

    def make_unsigned(self):
        from monero_glue.xmr import wallet
        from monero_serialize import xmrtypes
        cs = self.cds()
        msg = xmrtypes.UnsignedTxSet(txes=[c for _, c in cs], transfers=[
            app.transfer_details(self.drbg, self.drbg.point(), s) for w, _ in cs for s in w.srcs])
        self.plain = app.boost_dump(msg, 10)
        if self.f["ours"]:
            return app.UNSIGNED + app.seal(self.wal, self.plain, self.drbg.bytes(8), self.drbg.scalar())
        data = bytes(self.write(lambda: run(wallet.dump_unsigned_tx(self.view(), msg, hf=10))))
        p = app.unseal(self.wal, data[len(app.UNSIGNED):])
        if data[:len(app.UNSIGNED)] != app.UNSIGNED or p != self.plain:
            raise Violation("written", "the unsigned set is not written as a wallet reads it")
        return data

    def read_unsigned(self, data, key):
        from monero_glue.xmr import wallet
        m = run(wallet.load_unsigned_tx(key, data, hf=10))
        return app.boost_dump(m, 10) == self.plain

    def make_signed(self):
        from monero_glue.xmr import wallet
        from monero_serialize import xmrtypes
        ptx = []
        for w, cd in self.cds():
            d = self.drbg
            tx = xmrtypes.Transaction(version=2, unlock_time=0, vin=[], vout=[], extra=list(b"\x01" + d.point()),
                                      signatures=[])
            tx.rct_signatures = xmrtypes.RctSig(type=0, txnFee=0, message=b"\0" * 32, mixRing=[], pseudoOuts=[], ecdhInfo=[],
                                                  outPk=[])
            ptx.append(wallet.construct_pending_tsx(tx, cd))
        msg = xmrtypes.SignedTxSet(ptx=ptx, key_images=[self.drbg.point() for _ in range(3)])
        self.kis = list(msg.key_images)
        data = bytes(self.write(lambda: run(wallet.dump_signed_tx(self.view(), msg))))
        p = app.unseal(self.wal, data[len(app.SIGNED):])
        if data[:len(app.SIGNED)] != app.SIGNED or p is None:
            raise Violation("written", "the signed set is not sealed as a wallet reads it")
        m = app.boost_load(p, xmrtypes.SignedTxSet())
        if [bytes(k) for k in m.key_images] != self.kis or len(m.ptx) != len(ptx):
            raise Violation("written", "the signed set reads back different")
        return None

    def make_outputs(self):
        from monero_glue.xmr import wallet
        from monero_glue.xmr import crypto
        d = self.drbg
        k = kiworld.KiWorld(self.f["ki"])
        tds = [app.transfer_details(d, d.point()) for _ in k.outs]
        self.tds = tds
        keys = ref.enc(ref.G(self.wal.b)) + ref.enc(ref.G(self.wal.a))
        if self.f["ours"]:
            if self.f["version"] == 4:
                body = app.boost_dump([0, tds], None, tup=wallet.ExportedOutputsV4)
            else:
                body = app.boost_dump(tds, None, container=wallet.ExportedOutputs)
            return app.OUTPUTS + bytes([self.f["version"]]) + app.seal(self.wal, keys + body, d.bytes(8), d.scalar())
        spend = crypto.decodeint(ref.i2b(self.wal.b))
        data = bytes(self.write(lambda: run(wallet.save_exported_outputs(spend, self.view(), tds))))
        p = app.unseal(self.wal, data[len(app.OUTPUTS) + 1:])
        if p is None or p[:64] != keys or p[64:] != app.boost_dump(tds, None, container=wallet.ExportedOutputs):
            raise Violation("written", "outputs are not written as a wallet reads them")
        return data

    def read_outputs(self, data, key):
        from monero_glue.xmr import wallet
        o = run(wallet.load_exported_outputs(key, data))
        same = bytes(o.m_spend_public_key) == ref.enc(ref.G(self.wal.b)) and \
            bytes(o.m_view_public_key) == ref.enc(ref.G(self.wal.a))
        return same and app.boost_dump(list(o.tds), None, container=wallet.ExportedOutputs) == \
            app.boost_dump(self.tds, None, container=wallet.ExportedOutputs)

    # ---------------------------------------------------------------- watch-only wallet
    def make_keys(self):
        from monero_glue.xmr import wallet
        from monero_serialize import xmrtypes
        pub = ref.enc(ref.G(self.wal.b)), ref.enc(ref.G(self.wal.a))
        ak = xmrtypes.AccountKeys()
        ak.m_account_address = xmrtypes.AccountPublicAddress(m_spend_public_key=pub[0], m_view_public_key=pub[1])
        ak.m_spend_secret_key = b"\0" * 32
        ak.m_view_secret_key = ref.i2b(self.wal.a)
        kd = wallet.WalletKeyData()
        kd.m_creation_timestamp = self.rng.randint(0, 1 << 32)
        kd.m_keys = ak
        self.pub, self.height = pub, self.rng.randint(0, 1 << 22)
        wf = wallet.WalletKeyFile()
        wf.key_data, wf.watch_only, wf.refresh_height = kd, 1, self.height
        data = self.write(lambda: run(wallet.gen_keys_file(self.f["pw"].encode(), wf)))
        if self.f["version"] == 4:
            # saving the same wallet again must work
            data2 = run(wallet.gen_keys_file(self.f["pw"].encode(), wf))
            if bytes(data)[:8] == bytes(data2)[:8]:
                raise Violation("nonce", "two files encrypted with the same nonce")
            data = data2
        self.check_keys(data)
        return bytes(data)

    def check_keys(self, data):
        """independent reading: varint-length blob after the nonce, chacha20, JSON"""
        from Crypto.Cipher import ChaCha20
        b = bytes(data)
        iv, r = b[:8], ref.Reader(b[8:]) if hasattr(ref, "Reader") else None
        n = o = sh = 0
        while True:
            x = b[8 + o]
            n |= (x & 127) << sh
            sh += 7
            o += 1
            if x < 128:
                break
        ct = b[8 + o:]
        if len(ct) != n:
            raise Violation("written", "length of the key file is wrong")
        dec = ChaCha20.new(key=app.slow_hash(self.f["pw"].encode()), nonce=iv).decrypt(ct)
        js = json.loads(dec.decode("latin1"))
        if self.pub[0] not in js["key_data"].encode("latin1") or js["watch_only"] != 1 or \
                js["refresh_height"] != self.height or ref.i2b(self.wal.b) in js["key_data"].encode("latin1"):
            raise Violation("written", "content of the key file is wrong")

    def read_keys(self, data, pw):
        from monero_glue.xmr import wallet
        w = run(wallet.load_keys_data(data, pw))
        k = w["key_data"]["m_keys"]
        a = k["m_account_address"]
        self.found = bytes(a["m_spend_public_key"]), bytes(a["m_view_public_key"])
        return self.found == self.pub and bytes(k["m_view_secret_key"]) == ref.i2b(self.wal.a) and \
            w["refresh_height"] == self.height and w["watch_only"] == 1

    # ---------------------------------------------------------------- account file of the agent
    def agent(self):
        ag = app.agent_class()()
        ag.args = app.args()
        from monero_glue.agent.agent_lite import Agent
        ag.agent = Agent(None, network_type=0)
        return ag

    def make_account(self):
        ag = self.agent()
        try:
            s, v = self.wal.addr()
            self.net = self.f["seed"] % 2
            self.addr = ref.address_str(s, v, False, None, self.net)
            ag.priv_view = self.view()
            ag.set_network_type(self.net)
            ag.set_address(self.addr)
            ag.wallet_password = self.f["pw"].encode()
            self.write(lambda: run(ag.save_account("acc.json")))
        finally:
            app.close(ag)
        with open("acc.json", "rb") as fh:
            data = fh.read()
        if ref.i2b(self.wal.a).hex().encode() in data.lower():
            raise Violation("secret", "the account file contains the view key in clear")
        return data

    def read_account(self, data, pw):
        with open("acc.json", "wb") as fh:
            fh.write(data)
        ag = self.agent()
        app._state.term.passwords = [pw.decode()]
        try:
            run(ag.open_account_file("acc.json"))
            from monero_glue.xmr import crypto
            if bytes(crypto.encodeint(ag.priv_view)) != ref.i2b(self.wal.a):
                return False
            if bytes(ag.address) == self.addr and ag.network_type == self.net:
                return True
            # the network number itself is not authenticated
            return bytes(ag.address) == self.addr
        finally:
            app.close(ag)

    # ---------------------------------------------------------------- common
    def write(self, fn):
        """writing with a random source which may fail"""
        if self.f["rng"]:
            boot.ENTROPY.fail_at = boot.ENTROPY.draws + self.f["rng"]
            n = boot.ENTROPY.fired
            try:
                fn()
            except Exception:
                pass
            else:
                if boot.ENTROPY.fired > n:
                    raise Violation("entropy", "a file was written although the random source failed")
            finally:
                boot.ENTROPY.fail_at = None
            if boot.ENTROPY.fired > n:
                self.st.fault("rng")
            if self.f["k"] == "keys" and boot.ENTROPY.fired > n:
                pass
        return fn()

    def keys(self):
        if self.f["k"] in ("keys", "account"):
            return self.f["pw"].encode(), (self.f["pw"] + "!").encode()
        return self.view(), self.thief()

    def go(self, other):
        f = self.f
        data = getattr(self, "make_" + f["k"])()
        self.st.ev(f["k"], data)
        self.st.count("written-" + f["k"])
        if data is None:
            self.st.shape(f["k"], "written")
            return None
        read = getattr(self, "read_" + f["k"])
        good, wrong = self.keys()
        bad = hurt(f, data, other)
        key = wrong if f["damage"] == "key" else good
        try:
            same = read(bad, key)
            res = "same" if same else "different"
        except Exception as e:
            res = "refused"
            if bad == data and key is good:
                raise Violation("refused", "%s file does not read back: %s: %s" % (f["k"], type(e).__name__, e))
        self.st.ev("read", f["damage"], res)
        self.st.shape(f["k"], f["ours"], f["damage"], res)
        if bad == data and key is good:
            if res != "same":
                raise Violation("different", "%s file reads back different" % f["k"])
            self.st.count("read-back")
        else:
            self.st.fault("storage-" + f["damage"])
            if f["k"] == "keys":
                # not authenticated: the agent relies on the address
                if key is wrong and res != "refused" and self.found == self.pub:
                    raise Violation("accepted", "wallet keys opened with a wrong password")
            elif key is wrong:
                if res != "refused":
                    raise Violation("accepted", "%s file opened with a foreign key" % f["k"])
            elif res == "different":
                raise Violation("accepted", "damaged %s file was accepted with other content" % f["k"])
        return data


def execute(plan, st):
    prev = {}
    with app.scene(app.Net({}, {}, st), app.Terminal(), scratch=True):
        for n, f in enumerate(plan["files"]):
            d = Case(f, st, n).go(prev.get(f["k"]))
            if d is not None:
                prev[f["k"]] = d
