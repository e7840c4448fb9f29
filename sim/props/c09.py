"""C09: the device releases the key of an export only for exactly the list its user confirmed"""
import copy
import random

from sim import boot, core, device, host, kiworld, ref, world
from sim.core import Violation
from sim.device import is_failure, run

LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 20000}
CAP = {"quick": 110, "thorough": 780}
RULE = ("A run sends drawn key image export messages to the real device: altered, reordered, repeated, missing or "
        "foreign outputs, wrong counts or hashes, early or repeated finals, several sessions interleaved with "
        "restarts, failing randomness and failing dialogs. Every answer is compared with a reference automaton, all "
        "ciphertexts are tried with all released keys, and part of the runs are executed twice with another random "
        "source. Non-trivial: a message deviated from the honest order; distinct by the digest of the exchange.")
SHAPE = "(sequence of messages with their deviations, answers)"
REAL = ["device (TokenLite, KeyImageSync)", "protobuf codec", "EC library"]
STUB = ["host (scripted)", "user at the device (scripted)", "wallet outputs (generated world)", "random source (seeded)"]
ASSUME = ["curve arithmetic, keccak and ChaCha20 of the installed libraries are correct"]

TD = ["out_key", "tx_pub_key", "additional", "idx", "foreign", "dup", "drop", "swap", "extra", "bigidx", "badpoint"]


def plan(rng, tier, i):
    n = rng.choice([1, 1, 2])
    kis = []
    for _ in range(n):
        while True:
            k = kiworld.gen(rng, rng.choice([2, 4, 6]))
            if k["outs"] or rng.random() < 0.1:
                break
        kis.append(k)
    ops = []
    seqs = []
    for s in range(n):
        m = len(kis[s]["outs"])
        q = [["init", s, []]]
        pos = 0
        while pos < m:
            b = rng.randint(1, 4)
            q.append(["step", s, pos, min(m, pos + b), []])
            pos += b
        q.append(["final"])
        seqs.append(q)
    if n == 1 or rng.random() < 0.5:
        ops = sum(seqs, [])
    else:       # interleaved
        qs = copy.deepcopy(seqs)
        while any(qs):
            ops.append(rng.choice([q for q in qs if q]).pop(0))
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        k = rng.random()
        at = rng.randrange(len(ops))
        op = ops[at]
        if k < 0.5:
            c = [o for o in ops if o[0] == "step"]
            if c:
                rng.choice(c)[4].append([rng.choice(TD), rng.randint(0, 1 << 30)])
        elif k < 0.6:
            c = [o for o in ops if o[0] == "init"]
            if c:
                rng.choice(c)[2].append([rng.choice(["num+", "num-", "num0", "hash", "nohash", "subs"]),
                                         rng.randint(0, 1 << 30)])
        elif k < 0.7:
            ops.insert(at, copy.deepcopy(rng.choice(ops)))
        elif k < 0.8:
            del ops[at]
        elif k < 0.9:
            ops.insert(at, ["final"])
        elif k < 0.95:
            a, b = rng.randrange(len(ops)), rng.randrange(len(ops))
            ops[a], ops[b] = ops[b], ops[a]
        else:
            ops.insert(at, ["restart"])
        if not ops:
            ops = [["final"]]
    if rng.random() < 0.3:
        ops.append(["final"])
    if rng.random() < 0.15:
        ops.insert(rng.randrange(len(ops) + 1), [rng.choice(["rng", "ui", "reject"]), rng.randint(1, 4)])
    return {"kis": kis, "ops": ops, "twice": rng.random() < 0.3}


shrink = core.shrink_with_spec(("ops",), ())


class Model(object):
    """what the device may answer"""

    def __init__(self):
        self.dead()

    def dead(self):
        self.live = False

    def init(self, num, h, subs):
        self.live, self.num, self.h, self.subs = True, num, h, subs
        self.n, self.acc = 0, b""

    def step(self, tds, owned):
        """True: success expected"""
        if not self.live or not tds:
            self.dead()
            return False
        res = True
        for td in tds:
            self.n += 1
            o = owned(td, self.subs)
            if self.n > self.num or o is False:
                self.dead()
                return False
            if o is None:
                res = None      # output at the main address, which was not announced: either answer
            self.acc += td_hash(td)
        return res

    def final(self):
        ok = self.live and self.n == self.num and ref.keccak(self.acc) == self.h
        self.dead()
        return ok


def td_hash(td):
    return ref.keccak(bytes(td.out_key) + bytes(td.tx_pub_key) + b"".join(bytes(x) for x in td.additional_tx_pub_keys)
                      + ref.varint(td.internal_output_index))


def mutate(tds, muts, k, foreign):
    from monero_glue import messages as M
    done = []
    for kind, r in muts:
        rng = random.Random(r)
        if kind == "extra":
            if k.outs:
                tds.insert(rng.randrange(len(tds) + 1), td_of(rng.choice(k.outs)))
                done.append(kind)
            continue
        if not tds:
            continue
        n = rng.randrange(len(tds))
        td = tds[n]
        if kind == "dup":
            tds.insert(n, host.clone(td))
        elif kind == "drop":
            del tds[n]
        elif kind == "swap":
            b = rng.randrange(len(tds))
            tds[n], tds[b] = tds[b], tds[n]
            if b == n:
                continue
        elif kind == "foreign":
            tds[n] = td_of(foreign)
        elif kind == "idx":
            td.internal_output_index = rng.choice([0, 1, td.internal_output_index + 1, 128])
        elif kind == "bigidx":
            td.internal_output_index = 1 << 20
        elif kind == "badpoint":
            b = bytearray(td.out_key)
            b[rng.randrange(32)] ^= 1 << rng.randint(0, 7)
            td.out_key = bytes(b)
        elif kind == "out_key":
            td.out_key = foreign.dest
        elif kind == "tx_pub_key":
            td.tx_pub_key = foreign.R
        elif kind == "additional":
            l = list(td.additional_tx_pub_keys)
            if l and rng.random() < 0.5:
                l.pop()
            else:
                l.append(foreign.R)
            td.additional_tx_pub_keys = l
        done.append(kind)
    return done


def td_of(o):
    from monero_glue import messages as M
    return M.MoneroTransferDetails(out_key=o.dest, tx_pub_key=o.R, additional_tx_pub_keys=list(o.add),
                                   internal_output_index=o.oidx)


def owned_by(me):
    def f(td, subs):
        try:
            if ownership(me, td, subs - {(0, 0)}, ()) is not None:
                return True
            if ownership(me, td, set()) is not None:
                return True if (0, 0) in subs else None
            return False
        except Exception:
            return False
    return f


def ownership(me, td, subs, main=((0, 0),)):
    """secret of the output if the wallet owns it at one of the announced addresses"""
    for key in [bytes(td.tx_pub_key)] + (
            [bytes(td.additional_tx_pub_keys[td.internal_output_index])]
            if td.internal_output_index < len(td.additional_tx_pub_keys) else []):
        if not ref.valid_point(key):
            return None
        der = ref.derivation(key, me.a)
        h = ref.der_scalar(der, td.internal_output_index)
        if not ref.valid_point(bytes(td.out_key)):
            return None
        D = ref.enc(ref.sub(ref.dec(bytes(td.out_key)), ref.G(h)))
        for pair in list(main) + sorted(subs):
            if me.addr(*pair)[0] == D:
                return (h + me.spend_secret(*pair)) % ref.L
    return None


def execute(plan, st):
    if plan["twice"]:
        # same messages, same world, other random source: keys and nonces must differ
        a = drive(plan, core.Stats())
        boot.ENTROPY.reset(plan["run_seed"] + "/other")
        b = drive(plan, st)
        for x in a["keys"]:
            if x in b["keys"]:
                raise Violation("predictable", "the export key does not depend on the random source")
        for x in a["nonces"]:
            if x in b["nonces"]:
                raise Violation("predictable", "an encryption nonce does not depend on the random source")
        st.fault("other-randomness")
    else:
        drive(plan, st)


def decrypt(key, iv, blob):
    from Crypto.Cipher import ChaCha20
    # ChaCha20-Poly1305 body: block counter starts at 1
    c = ChaCha20.new(key=key, nonce=iv)
    c.seek(64)
    return c.decrypt(blob)


def drive(plan, st):
    from monero_glue import messages as M
    me = world.wallet("me")
    dev = device.SimDevice(world.creds_of(me, 1))
    ks = [kiworld.KiWorld(s, "me") for s in plan["kis"]]
    foreign = kiworld.KiWorld({"seed": 77, "outs": [{"major": 0, "minor": 0, "add": False, "oidx": 0, "nonce": False}]},
                              "thief").outs[0]
    model = Model()
    own = owned_by(me)
    keys, nonces = [], []
    cts = []            # (session number, td, iv, blob)
    sess = 0
    released = []       # (session number, key)
    shape = []
    dirty = False
    for op in plan["ops"]:
        fired = False
        if op[0] == "restart":
            dev.restart()
            model.dead()
            st.fault("device-restart")
            continue
        if op[0] == "rng":
            boot.ENTROPY.fail_at = boot.ENTROPY.draws + op[1]
            f0 = boot.ENTROPY.fired
            continue
        if op[0] == "ui":
            dev.user.fail_at = dev.user.calls + 1
            continue
        if op[0] == "reject":
            dev.user.accept = False
            continue
        r0, u0, c0 = boot.ENTROPY.fired, dev.user.fired, len(dev.user.shown)
        tds = []
        if op[0] == "init":
            k = ks[op[1]]
            msg, _ = k.messages(1)
            for kind, r in op[2]:
                rng = random.Random(r)
                if kind == "num+":
                    msg.num += rng.randint(1, 3)
                elif kind == "num-":
                    msg.num = max(0, msg.num - 1)
                elif kind == "num0":
                    msg.num = 0
                elif kind == "hash":
                    b = bytearray(msg.hash or bytes(32))
                    b[rng.randrange(32)] ^= 1 << rng.randint(0, 7)
                    msg.hash = bytes(b)
                elif kind == "nohash":
                    msg.hash = None if rng.random() < 0.5 else b""
                elif kind == "subs":
                    msg.subs = []
                st.fault("init-" + kind)
                dirty = True
            subs = set((s.account, m) for s in msg.subs for m in s.minor_indices)
            sess += 1
            res = run(dev.key_image_sync(msg))
        elif op[0] == "step":
            k = ks[op[1]]
            tds = [td_of(o) for o in k.outs[op[2]:op[3]]]
            for x in mutate(tds, op[4], k, foreign):
                st.fault("output-" + x)
                dirty = True
            msg = M.MoneroKeyImageSyncStepRequest(tdis=[host.clone(x) for x in tds])
            res = run(dev.key_image_sync(msg))
        else:
            msg = M.MoneroKeyImageSyncFinalRequest()
            res = run(dev.key_image_sync(msg))
        if boot.ENTROPY.fired > r0:
            fired = True
            st.fault("rng-failure")
        if dev.user.fired > u0:
            fired = True
            st.fault("display-failure")
        ok = not is_failure(res)
        st.ev(op, type(res).__name__)
        shape.append((op[0], op[1] if op[0] != "final" else 0, [x[0] for x in op[-1]] if op[0] != "final" else 0, ok))
        if op[0] == "init":
            asked = len(dev.user.shown) > c0
            if ok and not (asked and dev.user.shown[-1][2]):
                raise Violation("unconfirmed", "export started without the user's consent")
            if asked and not dev.user.shown[-1][2]:
                st.fault("user-rejection")
                dev.user.accept = True
                if ok:
                    raise Violation("unconfirmed", "export started although rejected")
                model.dead()
            elif fired:
                model.dead()
                if ok:
                    raise Violation("failure-ignored", "a failed step was acknowledged")
            else:
                if not ok:
                    if not op[2]:
                        raise Violation("refused", "valid export refused: %s" % str(res.message)[-200:])
                    model.dead()
                else:
                    model.init(msg.num or 0, bytes(msg.hash or b""), subs)
        elif op[0] == "step":
            exp = model.step(tds, own)
            if fired:
                model.dead()
                exp = False
            if exp is None and not ok:
                model.dead()
            if ok and exp is False:
                raise Violation("accepted", "a step which deviates from the confirmed list was answered: %s" % (op,))
            if not ok and exp:
                raise Violation("refused", "valid step refused: %s" % str(res.message)[-200:])
            if ok:
                if len(res.kis) != len(tds):
                    raise Violation("count", "%d key images for %d outputs" % (len(res.kis), len(tds)))
                for td, e in zip(tds, res.kis):
                    if len(bytes(e.iv)) < 8 or bytes(e.iv) in nonces:
                        raise Violation("nonce", "encryption nonce used twice")
                    nonces.append(bytes(e.iv))
                    cts.append((sess, td, bytes(e.iv), bytes(e.blob)))
                    plain = ownership(me, td, model.subs)
                    if ref.key_image(bytes(td.out_key), plain) in bytes(e.blob):
                        raise Violation("clear", "key image sent unencrypted")
        else:
            exp = model.final()
            if ok and not exp:
                raise Violation("released", "key of the export released for a list the user did not confirm")
            if not ok and exp and not fired:
                raise Violation("refused", "valid export refused at the end: %s" % str(res.message)[-200:])
            if ok:
                key = bytes(res.enc_key)
                if len(key) != 32 or key in keys or len(set(key)) < 8:
                    raise Violation("key", "export key used twice or degenerate")
                keys.append(key)
                released.append((sess, key))
    boot.ENTROPY.fail_at = None
    # everything that can be opened with the released keys
    for s, key in released:
        for cs, td, iv, blob in cts:
            p = decrypt(key, iv, blob)
            sec = None
            try:
                sec = ownership(me, td, set((a, m) for kk in ks for a, ms in kk.subs().items() for m in ms))
            except Exception:
                pass
            if sec is None:
                continue
            good = p[:32] == ref.key_image(bytes(td.out_key), sec)
            if good and cs != s:
                raise Violation("foreign-key", "a released key opens outputs of another export")
            if not good and cs == s:
                raise Violation("wrong", "exported key image is wrong")
            if good and not ref.verify_ki_sig(p[:32], bytes(td.out_key), (p[32:64], p[64:96])):
                raise Violation("signature", "signature of a key image does not verify")
    if dirty or any(not x[3] for x in shape):
        st.shape(shape)
    st.count("released", len(released))
    st.sim_time += 0.05 * dev.reqs
    return {"keys": keys, "nonces": nonces}
