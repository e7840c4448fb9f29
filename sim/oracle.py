"""
Judges a signing session from the transcript of the device: what the device released against what its user
confirmed.
"""
from sim import ref
from sim.device import is_failure
from sim.ref import L


class Bad(Exception):
    def __init__(self, kind, msg):
        super().__init__("%s: %s" % (kind, msg))
        self.kind, self.msg = kind, msg


def tname(m):
    return type(m).__name__


class Session(object):
    """Accepted steps of one device session (from one confirmed init to the next init / restart)"""

    def __init__(self, confirmed):
        self.confirmed = confirmed
        self.acc = []

    def get(self, name):
        return [(q, r) for q, r in self.acc if tname(q) == name]


def sessions(log):
    """splits the device log; confirmed snapshots are attached by the caller"""
    res = []
    cur = None
    for kind, q, r in log:
        if kind != "tx":
            continue
        if tname(q) == "MoneroTransactionInitRequest":
            cur = Session(None)
            cur.init = (q, r)
            res.append(cur)
            continue
        if cur is None:
            cur = Session(None)
            cur.init = None
            res.append(cur)
        if not is_failure(r):
            cur.acc.append((q, r))
    return res


def rebuild(s):
    """Transaction reassembled from what the device acknowledged.  Returns ref.Tx-like object or raises Bad"""
    t = ref.Tx()
    ti = s.confirmed
    perm_steps = s.get("MoneroTransactionInputsPermutationRequest")
    vini_steps = s.get("MoneroTransactionInputViniRequest")
    in_steps = s.get("MoneroTransactionSetInputRequest")
    out_all = s.get("MoneroTransactionSetOutputRequest")
    outs = [(q, r) for q, r in out_all if not q.is_offloaded_bp]
    allout = s.get("MoneroTransactionAllOutSetRequest")
    if len(allout) != 1:
        raise Bad("steps", "signature released after %d accepted all-outputs steps" % len(allout))
    ack = allout[0][1]
    t.version = 2
    t.unlock_time = ti.unlock_time
    t.vin_blobs = [bytes(q.vini) for q, r in vini_steps]
    known = [bytes(r.vini) for q, r in in_steps]
    for b in t.vin_blobs:
        if b not in known:
            raise Bad("foreign-input", "an input entered the transaction which the device never processed")
    t.vin = []
    for b in t.vin_blobs:
        r = ref.Rd(b)
        if r.u8() != 2:
            raise Bad("vin", "bad input encoding")
        t.vin.append((r.varint(), [r.varint() for _ in range(r.varint())], r.take(32)))
    t.vout_blobs = [bytes(r.tx_out) for q, r in outs]
    t.vout = [(0, b[2:34]) for b in t.vout_blobs]
    t.extra = bytes(ack.extra)
    t.prefix = (ref.varint(2) + ref.varint(t.unlock_time or 0) + ref.varint(len(t.vin)) + b"".join(t.vin_blobs)
                + ref.varint(len(t.vout)) + b"".join(t.vout_blobs) + ref.varint(len(t.extra)) + t.extra)
    t.type = ack.rv.rv_type
    t.fee = ack.rv.txn_fee
    t.ecdh = [bytes(r.ecdh_info) for q, r in outs]
    t.outpk = [bytes(r.out_pk)[32:] for q, r in outs]
    t.base = bytes([t.type]) + ref.varint(t.fee or 0) + b"".join(t.ecdh) + b"".join(t.outpk)
    t.bps = []
    t.bp_cover = []
    separate = any(q.is_offloaded_bp for q, r in out_all)
    for q, r in out_all:
        if separate and not q.is_offloaded_bp:
            continue        # a proof in the output message itself is not looked at in this variant
        blob = None
        if q.rsig_data is not None and q.rsig_data.rsig:
            blob = q.rsig_data.rsig
        elif r.rsig_data is not None and r.rsig_data.rsig:
            blob = r.rsig_data.rsig
        elif r.rsig_data is not None and r.rsig_data.rsig_parts:
            blob = b"".join(r.rsig_data.rsig_parts)
        if blob:
            try:
                t.bps.append(ref.parse_bp_blob(bytes(blob)))
            except ref.RefError:
                raise Bad("range-proof", "the device accepted an undecodable range proof")
    t.tx_prefix_hash = bytes(ack.tx_prefix_hash)
    t.full_message_hash = bytes(ack.full_message_hash)
    return t


def covered(t):
    """commitments covered by each range proof, in order"""
    res = []
    pos = 0
    left = len(t.outpk)
    for bp in t.bps:
        cap = (1 << len(bp["L"])) // 64 if len(bp["L"]) >= 6 else 0
        n = min(cap, left - pos)
        res.append(t.outpk[pos:pos + n])
        pos += n
    return res, pos


def check_session(s, wtx, full_bp=True, owner_wallets=None, require_owned_change=True):
    try:
        return _check_session(s, wtx, full_bp, owner_wallets, require_owned_change)
    except ref.RefError as e:
        raise Bad("malformed", "the device signed malformed data: %s" % e)
    except (TypeError, ValueError, IndexError, KeyError, AttributeError) as e:
        raise Bad("malformed", "the device signed on missing or malformed data: %s %s" % (type(e).__name__, e))


def check_blob(blob, wtx):
    try:
        return _check_blob(blob, wtx)
    except ref.RefError as e:
        raise Bad("malformed", "malformed data in the signed transaction: %s" % e)
    except (TypeError, ValueError, IndexError, KeyError, AttributeError) as e:
        raise Bad("malformed", "missing or malformed data in the signed transaction: %s %s" % (type(e).__name__, e))


def _check_session(s, wtx, full_bp=True, owner_wallets=None, require_owned_change=True):
    """
    Checks everything that has to hold if the session released at least one input signature.
    Returns number of released signatures.
    """
    signs = s.get("MoneroTransactionSignInputRequest")
    if not signs:
        return 0
    ti = s.confirmed
    if ti is None:
        raise Bad("unconfirmed", "signature released without a confirmed transaction")
    t = rebuild(s)
    n = len(ti_outputs(ti))
    if len(t.vin) != ti.num_inputs:
        raise Bad("inputs", "%d inputs in the transaction, %s confirmed" % (len(t.vin), ti.num_inputs))
    if len(t.vout) != n:
        raise Bad("outputs", "%d outputs in the transaction, %d confirmed" % (len(t.vout), n))
    if len(set(v[2] for v in t.vin)) != len(t.vin):
        raise Bad("double-spend", "the same output is spent twice by the transaction")
    if ref.keccak(t.prefix) != t.tx_prefix_hash:
        raise Bad("prefix", "the device hashed a different transaction prefix than the one it acknowledged")
    if ref.full_message(t) != t.full_message_hash:
        raise Bad("message", "the signed message is not the message of the acknowledged transaction")
    check_content(t, ti, wtx, require_owned_change)
    # range proofs
    if full_bp:
        cov, pos = covered(t)
        if pos != len(t.outpk):
            raise Bad("range-proof", "range proofs cover %d of %d outputs" % (pos, len(t.outpk)))
        for bp, coms in zip(t.bps, cov):
            if not ref.verify_bp(bp, coms):
                raise Bad("range-proof", "signature released with an invalid range proof")
    # signatures
    pseudo = []
    seen = set()
    for i, (q, r) in enumerate(signs):
        if i >= len(t.vin):
            raise Bad("signatures", "more signatures than inputs")
        po = bytes(r.pseudo_out) if r.pseudo_out else bytes(q.pseudo_out)
        pseudo.append(po)
        mg = parse_mg(bytes(r.signature), len(t.vin[i][1]))
        ring = [(bytes(o.key.dest), bytes(o.key.commitment)) for o in q.src_entr.outputs]
        offs = []
        last = 0
        for o in q.src_entr.outputs:
            offs.append(o.idx - last)
            last = o.idx
        if bytes(q.vini) != t.vin_blobs[i] or offs != t.vin[i][1]:
            raise Bad("ring", "signature released for another input than the one in the transaction")
        if not ref.verify_mlsag(t.full_message_hash, ring, t.vin[i][2], mg, po):
            raise Bad("mlsag", "released ring signature %d does not verify" % i)
        if t.vin[i][2] in seen:
            raise Bad("double-sign", "two signatures for the same input")
        seen.add(t.vin[i][2])
    if len(signs) == len(t.vin):
        check_balance(t.outpk, pseudo, t.fee)
    t.pseudo = pseudo
    s.tx = t
    return len(signs)


def ti_outputs(ti):
    return list(ti.outputs or [])


def parse_mg(blob, n):
    """MgSig as the device serialises it (with container sizes)"""
    r = ref.Rd(blob)
    rows = r.varint()
    ss = []
    for _ in range(rows):
        ss.append(r.keys(r.varint()))
    cc = r.take(32)
    if r.o != len(r.b):
        raise Bad("mlsag", "trailing bytes in the signature")
    if any(len(x) != 2 for x in ss):
        raise Bad("mlsag", "bad signature shape")
    return ss, cc


def check_balance(outpk, pseudo, fee):
    lhs = ref.ident()
    for p in pseudo:
        lhs = ref.add(lhs, ref.dec(p))
    rhs = ref.mul(ref.H, fee or 0)
    for c in outpk:
        rhs = ref.add(rhs, ref.dec(c))
    if not ref.eq(lhs, rhs):
        raise Bad("balance", "inputs do not equal outputs plus fee")


def find_wallet(wtx, spend, view):
    """simulated owner of an address: (wallet, pair) or None"""
    for o in wtx.outs:
        if o[2] == (bytes(spend), bytes(view)):
            from sim.world import wallet
            return wallet(o[0]), o[1]
    me = wtx.me
    for pair in ((0, 0), (wtx.account, 0)):
        if me.addr(*pair) == (bytes(spend), bytes(view)):
            return me, pair
    return None


def check_content(t, ti, wtx, require_owned_change=True):
    """reassembled transaction against the confirmed data"""
    if (t.fee or 0) != (ti.fee or 0):
        raise Bad("fee", "fee %s in the transaction, %s confirmed" % (t.fee, ti.fee))
    bpv = (ti.rsig_data.bp_version if ti.rsig_data is not None else None) or 1
    if t.type != (4 if bpv == 2 else 3):
        raise Bad("type", "rct type %s" % t.type)
    try:
        ex = ref.parse_extra(t.extra)
    except ref.RefError as e:
        raise Bad("extra", "undecodable extra: %s" % e)
    if len(ex["pub"]) != 1:
        raise Bad("extra", "%d transaction public keys" % len(ex["pub"]))
    rpub = ex["pub"][0]
    addit = ex["additional"]
    if addit is not None and len(addit) != len(t.vout):
        raise Bad("extra", "additional keys count")
    outs = ti_outputs(ti)
    nonzero = set()
    for i, o in enumerate(outs):
        own = find_wallet(wtx, o.addr.spend_public_key, o.addr.view_public_key)
        if own is None:
            continue  # an address nobody in the simulation owns
        w, pair = own
        if bool(o.is_subaddress) != (pair != (0, 0)):
            continue  # the confirmed address itself was mislabelled
        got = ref.open_output(t, i, w, [pair], rpub, addit)
        if got is None and not o.amount:
            continue  # dummy output, nobody has to find it
        if got is None:
            raise Bad("unreceivable", "confirmed recipient of output %d cannot receive it" % i)
        _, amount, mask, _ = got
        if amount != (o.amount or 0):
            raise Bad("amount", "output %d carries %d, %s confirmed" % (i, amount, o.amount))
        if ref.enc(ref.commit(mask, amount)) != t.outpk[i]:
            raise Bad("commitment", "output %d commits to a different amount than told to the recipient" % i)
        if amount:
            nonzero.add((w, pair))
    # payment id
    pid = bytes(ti.payment_id or b"")
    nonces = ex["nonce"]
    if len(nonces) > 1:
        raise Bad("payment-id", "more nonces in the extra")
    if len(pid) == 32:
        if nonces != [b"\x00" + pid]:
            raise Bad("payment-id", "payment id differs from the confirmed one")
    elif len(pid) == 8:
        if len(nonces) != 1 or len(nonces[0]) != 9 or nonces[0][0] != 1:
            raise Bad("payment-id", "encrypted payment id missing")
        ch = ti.change_dts
        for i, o in enumerate(outs):
            if not o.amount:
                continue
            if ch is not None and (bytes(o.addr.spend_public_key) == bytes(ch.addr.spend_public_key)
                                   and bytes(o.addr.view_public_key) == bytes(ch.addr.view_public_key)):
                continue
            own = find_wallet(wtx, o.addr.spend_public_key, o.addr.view_public_key)
            if own is None or bool(o.is_subaddress) != (own[1] != (0, 0)):
                continue
            if ref.payment_id(ex, own[0], rpub) != [("short", pid)]:
                raise Bad("payment-id", "recipient decrypts a different payment id")
    else:
        for k in nonces:
            if len(k) == 33 and k[0] == 0:
                raise Bad("payment-id", "payment id added although none was confirmed")
        check_null_id(outs, ti, wtx, ex, nonces, rpub)


def check_null_id(outs, ti, wtx, ex, nonces, rpub):
    """without a payment id, a transaction with one recipient carries an encrypted null id like every other wallet's"""
    ch = ti.change_dts
    pay = {}
    for o in outs:
        a = (bytes(o.addr.spend_public_key), bytes(o.addr.view_public_key))
        if o.amount and (ch is None or a != (bytes(ch.addr.spend_public_key), bytes(ch.addr.view_public_key))):
            pay[a] = o
    short = [k for k in nonces if len(k) == 9 and k[0] == 1]
    if len(pay) <= 1 and len(short) != 1:
        raise Bad("payment-id", "the encrypted null id of a transaction with one recipient is missing")
    if not short:
        return
    for o in pay.values():
        own = find_wallet(wtx, o.addr.spend_public_key, o.addr.view_public_key)
        if own is None or o.is_subaddress or own[1] != (0, 0):
            continue  # Monero itself encrypts for a subaddress only when it is the single address
        if ref.payment_id(ex, own[0], rpub) != [("short", bytes(8))]:
            raise Bad("payment-id", "the recipient decrypts a payment id although none was confirmed")


def as_confirmed(wtx):
    return wtx.pb_init().tsx_data


def _check_blob(blob, wtx):
    """A complete serialised transaction against the world description"""
    try:
        t = ref.parse_tx(blob)
    except ref.RefError as e:
        raise Bad("format", "signed transaction does not parse: %s" % e)
    if t.version != 2:
        raise Bad("format", "version")
    if t.unlock_time != wtx.unlock:
        raise Bad("unlock", "unlock time %d, expected %d" % (t.unlock_time, wtx.unlock))
    byki = {s.ki: s for s in wtx.srcs}
    kis = [v[2] for v in t.vin]
    if sorted(kis) != sorted(byki):
        raise Bad("inputs", "key images differ from the spent outputs")
    if kis != sorted(kis, reverse=True):
        raise Bad("order", "inputs are not sorted by key image")
    if len(t.vout) != len(wtx.outs):
        raise Bad("outputs", "number of outputs")
    if any(a for a, _ in t.vout):
        raise Bad("outputs", "clear-text amount")
    check_content(t, as_confirmed(wtx), wtx)
    msg = ref.full_message(t)
    cov, pos = covered(t)
    if pos != len(t.outpk):
        raise Bad("range-proof", "proofs cover %d of %d outputs" % (pos, len(t.outpk)))
    for bp, coms in zip(t.bps, cov):
        if not ref.verify_bp(bp, coms):
            raise Bad("range-proof", "range proof does not verify")
    for v, mg, po in zip(t.vin, t.mgs, t.pseudo):
        s = byki[v[2]]
        off = []
        last = 0
        for idx, _, _ in s.ring:
            off.append(idx - last)
            last = idx
        if v[1] != off or v[0] != 0:
            raise Bad("ring", "key offsets differ from the selected ring")
        if not ref.verify_mlsag(msg, [(k, c) for _, k, c in s.ring], v[2], mg, po):
            raise Bad("mlsag", "ring signature does not verify")
    check_balance(t.outpk, t.pseudo, t.fee)
    return t
