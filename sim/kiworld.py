"""Outputs received by a simulated wallet, for key image export"""
from sim import ref, world
from sim.ref import L


def gen(rng, mx):
    n = rng.randint(0, mx)
    outs = []
    for _ in range(n):
        outs.append({"major": rng.choice([0, 0, 0, 1, 7]), "minor": rng.choice([0, 0, 1, 2, 30, 500]),
                     "add": rng.random() < 0.3, "oidx": rng.choice([0, 0, 1, 2, 5, 127, 128, 300]),
                     "nonce": rng.random() < 0.3})
    return {"seed": rng.randint(0, 1 << 40), "outs": outs}


class KOut(object):
    pass


class KiWorld(object):
    def __init__(self, spec, owner="me"):
        self.spec = spec
        self.me = world.wallet(owner)
        d = world.Drbg("ki", spec["seed"])
        self.outs = [self._out(d, s) for s in spec["outs"]]

    def _out(self, d, s):
        o = KOut()
        o.pair = (s["major"], s["minor"])
        spend, view = self.me.addr(*o.pair)
        sub = o.pair != (0, 0)
        o.oidx = s["oidx"]
        if s["add"]:
            o.oidx = min(o.oidx, 9)
        x = d.scalar()
        o.R = ref.enc(ref.mul(ref.dec(spend), x)) if sub and not s["add"] else ref.enc(ref.G(x))
        o.add = []
        if s["add"]:
            o.add = [d.point() for _ in range(o.oidx + 1 + d.below(3))]
            if sub:
                x = d.scalar()
                o.add[o.oidx] = ref.enc(ref.mul(ref.dec(spend), x))
        der = ref.derivation(view, x)
        h = ref.der_scalar(der, o.oidx)
        o.der = der
        o.dest = ref.enc(ref.add(ref.G(h), ref.dec(spend)))
        o.secret = (h + self.me.spend_secret(*o.pair)) % L
        o.ki = ref.key_image(o.dest, o.secret)
        o.extra = b"\x01" + o.R
        if s["nonce"]:
            o.extra += b"\x02\x09\x01" + d.bytes(8)
        if o.add:
            o.extra += b"\x04" + ref.varint(len(o.add)) + b"".join(o.add)
        o.n_vout = o.oidx + 1 + d.below(2)
        o.filler = d.point()
        return o

    def subs(self):
        r = {}
        for o in self.outs:
            r.setdefault(o.pair[0], set()).add(o.pair[1])
        return {k: sorted(v) for k, v in r.items()}

    def commitment(self):
        h = b""
        for o in self.outs:
            h += ref.keccak(o.dest + o.R + b"".join(o.add) + ref.varint(o.oidx))
        return ref.keccak(h)

    def messages(self, net=1, batch=10):
        """init request and step requests built from the protocol's definition"""
        from monero_glue import messages as M
        init = M.MoneroKeyImageExportInitRequest(
            num=len(self.outs), hash=self.commitment(), address_n=[0x8000002C], network_type=net,
            subs=[M.MoneroSubAddressIndicesList(account=k, minor_indices=v) for k, v in sorted(self.subs().items())])
        td = [M.MoneroTransferDetails(out_key=o.dest, tx_pub_key=o.R, additional_tx_pub_keys=list(o.add),
                                      internal_output_index=o.oidx) for o in self.outs]
        return init, [M.MoneroKeyImageSyncStepRequest(tdis=td[i:i + batch]) for i in range(0, len(td), batch)]

    def transfers(self):
        """TransferDetails as the wallet exports them"""
        from monero_serialize.xmrtypes import (SubaddressIndex, TransactionPrefix, TransferDetails, TxOut,
                                               TxoutToKey)
        res = []
        for o in self.outs:
            vout = []
            for i in range(o.n_vout):
                vout.append(TxOut(amount=0, target=TxoutToKey(key=o.dest if i == o.oidx else o.filler)))
            tx = TransactionPrefix(version=2, unlock_time=0, vin=[], vout=vout, extra=list(o.extra))
            res.append(TransferDetails(
                m_tx=tx, m_internal_output_index=o.oidx,
                m_subaddr_index=SubaddressIndex(major=o.pair[0], minor=o.pair[1])))
        return res
