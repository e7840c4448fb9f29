"""
Simulated world: wallets, transaction outputs they own, and transactions spending them.

A transaction is described by a small JSON spec (see gen_spec); everything else (keys, rings, one-time outputs)
is derived from the spec deterministically using the independent reference in ref.py.
"""
import hashlib

from sim import ref
from sim.ref import L

MAX64 = (1 << 64) - 1


class Drbg(object):
    def __init__(self, *seed):
        self.k = hashlib.sha256(repr(seed).encode()).digest()
        self.c = 0

    def bytes(self, n):
        out = b""
        while len(out) < n:
            self.c += 1
            out += hashlib.sha512(self.k + self.c.to_bytes(8, "big")).digest()
        return out[:n]

    def scalar(self):
        return int.from_bytes(self.bytes(64), "little") % (L - 1) + 1

    def point(self):
        return ref.enc(ref.G(self.scalar()))

    def below(self, n):
        return int.from_bytes(self.bytes(16), "little") % n

    def rng(self):
        import random
        return random.Random(int.from_bytes(self.bytes(16), "little"))


_WAL = {}


def wallet(name):
    if name not in _WAL:
        d = Drbg("wallet", name)
        _WAL[name] = ref.Wallet(d.scalar(), d.scalar())
    return _WAL[name]


def spread(rng, total, n):
    """splits total to n non-negative parts"""
    cuts = sorted(rng.randint(0, total) for _ in range(n - 1))
    cuts = [0] + cuts + [total]
    return [cuts[i + 1] - cuts[i] for i in range(n)]


def gen_spec(rng, small=True, max_in=4, max_out=8, hfs=(10, 10, 9), clients=(1, 1, 0), force=None):
    """Random valid transaction"""
    nin = rng.choice([1, 1, 2, 2, 3, max_in]) if small else rng.randint(1, max_in)
    nout = rng.choice([2, 2, 2, 3, 4, max_out]) if small else rng.randint(2, max_out)
    nin, nout = min(nin, max_in), min(nout, max_out)
    account = rng.choice([0, 0, 0, 0, 1, 3, 1000, (1 << 32) - 1])
    mag = rng.choice([8, 16, 32, 40, 52, 61] + ([63] if nin == 1 else []))
    while nin << mag > 1 << 63:
        mag -= 4  # the amounts of a transaction add up to less than 2^64
    fee = rng.randint(1, 1 << min(mag, 36))
    srcs = []
    ring = rng.choice([2, 2, 3, 5, 11]) if small else 11
    for _ in range(nin):
        minor = rng.choice([0, 0, 0, 0, 1, 5, 200, 70000, (1 << 32) - 1])
        srcs.append({
            "minor": minor,
            "amount": rng.randint(1, 1 << mag),
            "add": rng.random() < 0.25,
            "ring": ring,
            "oidx": rng.choice([0, 1, 2, 7, 130, 300]),
        })
    total = sum(s["amount"] for s in srcs)
    if total < fee + nout:
        srcs[0]["amount"] += fee + nout
        total = sum(s["amount"] for s in srcs)
    kind = rng.choice(["change"] * 5 + ["sweep", "nochange"])
    if nout != 2 and kind == "sweep":
        kind = "change"
    pid = rng.choice([None, None, None, None, "short", "long"])
    dest_wallets = ["r%d" % rng.randint(0, 3) for _ in range(nout)]
    dests = []
    rest = total - fee
    n_pay = nout - (1 if kind in ("change", "sweep") else 0)
    if kind == "change":
        parts = spread(rng, rest, nout)
        if parts[-1] == 0 and nout == 2:
            if parts[0] > 1:
                parts[0] -= 1
                parts[-1] = 1
    else:
        parts = spread(rng, rest, n_pay)
    one = rng.random() < 0.2
    for i in range(n_pay):
        sub = rng.random() < 0.35
        w = dest_wallets[0] if one else dest_wallets[i]
        if rng.random() < 0.06:
            w = "me"
        dests.append({"w": w, "major": rng.choice([0, 1, 2]) if sub else 0,
                      "minor": rng.choice([1, 2, 9]) if sub else 0, "amount": parts[i]})
    if pid == "short":
        # exactly one receiving address with non-zero amount
        for d in dests:
            d.update(w=dests[0]["w"], major=dests[0]["major"], minor=dests[0]["minor"])
        if len(dests) > 1 and rng.random() < 0.3 and not (dests[0]["major"] or dests[0]["minor"]):
            # nothing for somebody else
            j = rng.randrange(len(dests))
            o = (j + 1) % len(dests)
            dests[o]["amount"] += dests[j]["amount"]
            dests[j].update(w="r3" if dests[o]["w"] != "r3" else "r2", amount=0)
    spec = {
        "seed": rng.randint(0, 1 << 40), "net": rng.choice([0, 1, 2]),
        "hf": rng.choice(hfs), "client": rng.choice(clients),
        "account": account, "srcs": srcs, "dests": dests, "fee": fee,
        "change": None, "pid": pid,
        "unlock": rng.choice([0, 0, 0, 1, 10, 127, 128, 500000, 1600000000, (1 << 32) - 1, 1 << 32, (1 << 63), (1 << 64) - 1]),
        "kind": kind,
    }
    if kind == "change":
        spec["change"] = {"amount": parts[-1], "pos": rng.randint(0, len(dests))}
    elif kind == "sweep":
        spec["change"] = {"amount": 0, "pos": rng.randint(0, len(dests)), "dummy": True}
    if force:
        spec.update(force)
    return spec


class Src(object):
    pass


class WTx(object):
    """Concrete transaction built from the spec"""

    def __init__(self, spec, owner="me"):
        self.spec = spec
        self.owner = owner
        self.me = wallet(owner)
        self.net = spec["net"]
        self.hf, self.client = spec["hf"], spec["client"]
        self.account = spec["account"]
        self.fee = spec["fee"]
        self.unlock = spec["unlock"]
        d = Drbg("tx", spec["seed"])
        self.srcs = [self._src(d, s, i) for i, s in enumerate(spec["srcs"])]
        self.minors = sorted(set(s["minor"] for s in spec["srcs"]))
        self.pid = None
        if spec["pid"] == "short":
            self.pid = d.bytes(8)
        elif spec["pid"] == "long":
            self.pid = d.bytes(32)
        self.outs = []  # (wallet name, pair, (spend, view), amount, is_sub)
        for x in spec["dests"]:
            w = wallet(x["w"])
            pair = (x["major"], x["minor"])
            self.outs.append((x["w"], pair, w.addr(*pair), x["amount"], pair != (0, 0)))
        self.change = None
        c = spec["change"]
        if c is not None:
            if c.get("dummy"):
                w = wallet("dummy%d" % (spec["seed"] % 3))
                self.change = ("dummy%d" % (spec["seed"] % 3), (0, 0), w.addr(), 0, False)
            else:
                pair = (self.account, 0)
                self.change = (owner, pair, self.me.addr(*pair), c["amount"], pair != (0, 0))
            self.outs.insert(min(c["pos"], len(self.outs)), self.change)

    def _src(self, d, s, i):
        r = Src()
        r.amount = s["amount"]
        r.pair = (self.account, s["minor"])
        spend, view = self.me.addr(*r.pair)
        sub = r.pair != (0, 0)
        x = d.scalar()
        r.oidx = s["oidx"]
        main_R = ref.enc(ref.mul(ref.dec(spend), x)) if sub and not s["add"] else ref.enc(ref.G(x))
        r.additional = []
        if s["add"]:
            n = r.oidx + 1 + d.below(2)
            n = min(n, 20)
            if r.oidx >= n:
                r.oidx = n - 1
            r.additional = [d.point() for _ in range(n)]
            y = d.scalar()
            if sub:
                r.additional[r.oidx] = ref.enc(ref.mul(ref.dec(spend), y))
            else:
                # standard address inside a transaction with additional keys: the main key is used
                y = x
                r.additional[r.oidx] = ref.enc(ref.G(d.scalar()))
            x = y
        r.tx_key = main_R
        der = ref.derivation(view, x)
        r.der = der
        r.mask = d.scalar()
        h = ref.der_scalar(der, r.oidx)
        r.dest = ref.enc(ref.add(ref.G(h), ref.dec(spend)))
        r.secret = (h + self.me.spend_secret(*r.pair)) % L
        r.ki = ref.key_image(r.dest, r.secret)
        r.commit = ref.enc(ref.commit(r.mask, r.amount))
        n = s["ring"]
        r.real = d.below(n)
        r.ring = []
        idx = d.below(1 << (5, 30, 30, 45)[d.below(4)]) - 1
        gap = (1, 200, 10000, 10000)[d.below(4)]
        for k in range(n):
            idx += 1 + d.below(gap)
            if k == r.real:
                r.ring.append((idx, r.dest, r.commit))
            else:
                r.ring.append((idx, d.point(), d.point()))
        return r

    # --- host side objects
    def _dst(self, o):
        from monero_serialize.xmrtypes import AccountPublicAddress, TxDestinationEntry
        return TxDestinationEntry(
            amount=o[3], is_subaddress=o[4],
            addr=AccountPublicAddress(m_spend_public_key=o[2][0], m_view_public_key=o[2][1]),
            original=ref.address_str(o[2][0], o[2][1], o[4], None, self.net), is_integrated=False)

    def construction_data(self):
        """TxConstructionData as the wallet exports it"""
        from monero_serialize.xmrtypes import (CtKey, MultisigKLRki, RCTConfig, TxConstructionData, TxSourceEntry)
        srcs = []
        for s in self.srcs:
            e = TxSourceEntry()
            e.outputs = [(i, CtKey(dest=k, mask=c)) for i, k, c in s.ring]
            e.real_output = s.real
            e.real_out_tx_key = s.tx_key
            e.real_out_additional_tx_keys = list(s.additional)
            e.real_output_in_tx_index = s.oidx
            e.amount = s.amount
            e.rct = True
            e.mask = ref.i2b(s.mask)
            z = b"\x00" * 32
            e.multisig_kLRki = MultisigKLRki(K=z, L=z, R=z, ki=z)
            srcs.append(e)
        extra = b""
        if self.pid is not None and len(self.pid) == 32:
            extra = b"\x02\x21\x00" + self.pid
        elif self.pid is not None:
            extra = b"\x02\x09\x01" + self.pid
        change = self._dst(self.change) if self.change else None
        outs = [self._dst(o) for o in self.outs]
        dests = [self._dst(o) for o in self.outs if o is not self.change]
        return TxConstructionData(
            sources=srcs, change_dts=change, splitted_dsts=outs, selected_transfers=list(range(len(srcs))),
            extra=list(extra), unlock_time=self.unlock, use_rct=True, use_bulletproofs=True,
            rct_config=RCTConfig(range_proof_type=4, bp_version=2 if self.hf >= 10 else 1), dests=dests,
            subaddr_account=self.account, subaddr_indices=list(self.minors))

    # --- raw protocol messages
    def pb_src(self, i):
        from monero_glue.messages import (MoneroOutputEntry, MoneroRctKeyPublic, MoneroTransactionSourceEntry)
        s = self.srcs[i]
        return MoneroTransactionSourceEntry(
            outputs=[MoneroOutputEntry(idx=x, key=MoneroRctKeyPublic(dest=k, commitment=c)) for x, k, c in s.ring],
            real_output=s.real, real_out_tx_key=s.tx_key, real_out_additional_tx_keys=list(s.additional),
            real_output_in_tx_index=s.oidx, amount=s.amount, rct=True, mask=ref.i2b(s.mask))

    def pb_dst(self, o):
        from monero_glue.messages import MoneroAccountPublicAddress, MoneroTransactionDestinationEntry
        return MoneroTransactionDestinationEntry(
            amount=o[3], is_subaddress=o[4],
            addr=MoneroAccountPublicAddress(spend_public_key=o[2][0], view_public_key=o[2][1]))

    def batches(self):
        n = len(self.outs)
        if n <= 16:
            return [n]
        res = []
        left = n
        while left:
            b = 1
            while b * 2 <= left and b * 2 <= 16:
                b *= 2
            res.append(b)
            left -= b
        return res

    def pb_init(self):
        from monero_glue.messages import (MoneroTransactionData, MoneroTransactionInitRequest,
                                          MoneroTransactionRsigData)
        rd = MoneroTransactionRsigData(rsig_type=3 if len(self.outs) <= 16 else 2, grouping=self.batches())
        if self.hf >= 10:
            rd.bp_version = 2
        td = MoneroTransactionData(
            version=1, client_version=self.client, payment_id=self.pid or b"", unlock_time=self.unlock,
            outputs=[self.pb_dst(o) for o in self.outs],
            change_dts=self.pb_dst(self.change) if self.change else None,
            num_inputs=len(self.srcs), mixin=len(self.srcs[0].ring), fee=self.fee, account=self.account,
            minor_indices=list(self.minors), rsig_data=rd, integrated_indices=[])
        return MoneroTransactionInitRequest(
            version=0, address_n=[0x8000002C, 0x80000080, 0x80000000], network_type=self.net, tsx_data=td)

    # --- facts for oracles
    def offloading(self):
        return len(self.outs) > 2

    def det_masks(self):
        return self.hf >= 10 or self.client > 0


def creds_of(w, net=1):
    from monero_glue.xmr import crypto
    from monero_glue.xmr.sub.creds import AccountCreds
    return AccountCreds.new_wallet(crypto.decodeint(ref.i2b(w.a)), crypto.decodeint(ref.i2b(w.b)), net)
