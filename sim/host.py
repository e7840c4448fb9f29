"""
Scripted host: drives the signing protocol message by message, in any order, and never validates what the device
answers.  An operation is a small list: ["init"], ["in", i], ["perm"], ["vini", k], ["allin"], ["out", i],
["bp", b], ["allout"], ["sign", k], ["final"].
"""
import copy

from sim import ref
from sim.device import is_failure


def canonical(wtx):
    """The sequence of operations of the protocol for the transaction"""
    n, m = len(wtx.srcs), len(wtx.outs)
    ops = [["init"]] + [["in", i] for i in range(n)] + [["perm"]] + [["vini", k] for k in range(n)] + [["allin"]]
    bt = wtx.batches()
    b = acc = 0
    for i in range(m):
        ops.append(["out", i])
        if wtx.offloading() and wtx.det_masks() and i + 1 == acc + bt[b]:
            ops.append(["bp", b])
            acc += bt[b]
            b += 1
    ops.append(["allout"])
    ops += [["sign", k] for k in range(n)] + [["final"]]
    return ops


class Store(object):
    """What a host remembers of one signing session"""

    def __init__(self):
        self.hmacs = []
        self.inp = {}      # orig idx -> SetInputAck
        self.perm = None
        self.masks = {}    # out idx -> 32 bytes
        self.out = {}
        self.bps = {}
        self.allout = None
        self.sigs = {}
        self.final = None


class Script(object):
    def __init__(self, wtx, dev):
        self.wtx, self.dev = wtx, dev
        self.st = Store()

    def order(self):
        """source permutation: by key image, descending"""
        if self.st.perm is None:
            keys = {}
            for i in range(len(self.wtx.srcs)):
                a = self.st.inp.get(i)
                keys[i] = bytes(a.vini)[-32:] if a is not None else b""
            self.st.perm = sorted(keys, key=lambda i: keys[i], reverse=True)
        return self.st.perm

    async def message(self, op):
        from monero_glue import messages as M
        w, st = self.wtx, self.st
        k = op[0]
        if k == "init":
            return w.pb_init()
        if k == "in":
            return M.MoneroTransactionSetInputRequest(src_entr=w.pb_src(op[1]))
        if k == "perm":
            return M.MoneroTransactionInputsPermutationRequest(perm=list(self.order()))
        if k == "vini":
            o = self.order()[op[1]]
            a = st.inp.get(o)
            return M.MoneroTransactionInputViniRequest(
                src_entr=w.pb_src(o), vini=a.vini if a else b"", vini_hmac=a.vini_hmac if a else b"",
                orig_idx=o)
        if k == "allin":
            return M.MoneroTransactionAllInputsSetRequest()
        if k == "out":
            i = op[1]
            msg = M.MoneroTransactionSetOutputRequest(
                dst_entr=w.pb_dst(w.outs[i]), dst_entr_hmac=st.hmacs[i] if i < len(st.hmacs) else b"")
            if w.offloading() and not w.det_masks():
                bt = w.batches()
                acc = 0
                for b, sz in enumerate(bt):
                    if i + 1 == acc + sz:
                        msg.rsig_data = M.MoneroTransactionRsigData(rsig=await self.prove(b))
                    acc += sz
            return msg
        if k == "bp":
            return M.MoneroTransactionSetOutputRequest(
                rsig_data=M.MoneroTransactionRsigData(rsig=await self.prove(op[1])), is_offloaded_bp=True)
        if k == "allout":
            return M.MoneroTransactionAllOutSetRequest()
        if k == "sign":
            o = self.order()[op[1]]
            a = st.inp.get(o)
            return M.MoneroTransactionSignInputRequest(
                src_entr=w.pb_src(o), vini=a.vini if a else b"", vini_hmac=a.vini_hmac if a else b"",
                pseudo_out=a.pseudo_out if a else b"", pseudo_out_hmac=a.pseudo_out_hmac if a else b"",
                pseudo_out_alpha=a.pseudo_out_alpha if a else b"", spend_key=a.spend_key if a else b"",
                orig_idx=o)
        if k == "final":
            return M.MoneroTransactionFinalRequest()
        raise ValueError(op)

    def batch_range(self, b):
        bt = self.wtx.batches()
        lo = sum(bt[:b])
        return range(lo, lo + bt[b])

    async def prove(self, b):
        from monero_glue.hwtoken import misc as tmisc
        from monero_glue.xmr import crypto, ring_ct
        if b in self.st.bps:
            return self.st.bps[b]
        idx = list(self.batch_range(b))
        masks = [crypto.decodeint(self.st.masks.get(i, b"\x01" + b"\x00" * 31)) for i in idx]
        bp = await ring_ct.prove_range_bp_batch([self.wtx.outs[i][3] % (1 << 64) for i in idx], masks)
        blob = bytes(await tmisc.dump_msg(bp))
        self.st.bps[b] = blob
        return blob

    def absorb(self, op, res):
        """remembers the answer of the device"""
        if is_failure(res):
            return
        st, k = self.st, op[0]
        if k == "init":
            st.hmacs = list(res.hmacs or [])
        elif k == "in":
            if st.inp.get(op[1]) is None:
                st.inp[op[1]] = res
        elif k == "allin":
            rd = res.rsig_data
            if rd is not None and rd.mask:
                for i in range(len(rd.mask) // 32):
                    st.masks[i] = bytes(rd.mask[32 * i:32 * i + 32])
        elif k == "out":
            st.out[op[1]] = res
            rd = res.rsig_data
            if rd is not None and rd.mask and self.wtx.det_masks():
                st.masks[op[1]] = bytes(rd.mask)
        elif k == "allout":
            st.allout = res
        elif k == "sign":
            st.sigs[op[1]] = res
        elif k == "final":
            st.final = res

    async def do(self, op, msg=None):
        if msg is None:
            msg = await self.message(op)
        res = await self.dev.tsx_sign(msg)
        self.absorb(op, res)
        return msg, res


# ---------------------------------------------------------------- tampering
def fields_of(msg, prefix=()):
    """all leaf positions of a message, as paths"""
    from monero_glue import protobuf as p
    out = []
    for tag, (name, ftype, flags) in sorted(msg.get_fields().items()):
        v = getattr(msg, name, None)
        if flags & p.FLAG_REPEATED:
            v = v or []
            out.append((prefix + (name,), "list"))
            for i, x in enumerate(v):
                if isinstance(x, p.MessageType):
                    out += fields_of(x, prefix + (name, i))
                else:
                    out.append((prefix + (name, i), "leaf"))
        elif isinstance(v, p.MessageType):
            out.append((prefix + (name,), "msg"))
            out += fields_of(v, prefix + (name,))
        else:
            out.append((prefix + (name,), "leaf" if v is not None else "none"))
    return out


def get_path(msg, path):
    for x in path:
        msg = msg[x] if isinstance(x, int) else getattr(msg, x)
    return msg


def set_path(msg, path, val):
    o = get_path(msg, path[:-1])
    if isinstance(path[-1], int):
        o[path[-1]] = val
    else:
        setattr(o, path[-1], val)


def mutate_leaf(rng, v, donors):
    """a different value for a leaf"""
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return max(0, rng.choice([v + 1, v - 1 if v else 1, v ^ (1 << rng.randint(0, 40)), 0 if v else 7,
                                  v + (1 << rng.randint(0, 62)), rng.choice(donors["int"] or [v + 3])]))
    if isinstance(v, (bytes, bytearray)):
        v = bytes(v)
        c = rng.randint(0, 4)
        same = [x for x in donors["bytes"].get(len(v), []) if x != v]
        if c <= 1 and same:
            return rng.choice(same)
        if c == 2 and v:
            b = bytearray(v)
            b[rng.randrange(len(b))] ^= 1 << rng.randint(0, 7)
            return bytes(b)
        if c == 3 and v:
            return v[:-1]
        if c == 4:
            return v + b"\x00"
        if v:
            b = bytearray(v)
            b[rng.randrange(len(b))] ^= 1 << rng.randint(0, 7)
            return bytes(b)
        return b"\x01"
    if isinstance(v, str):
        return v + "x"
    return v


def clone(msg):
    return copy.deepcopy(msg)
