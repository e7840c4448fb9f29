"""Shared pieces of the property modules"""
from sim.device import is_failure

KINDS = {
    "init": ["field", "list", "none", "donor", "whole"],
    "in": ["field", "field", "src", "srcring", "srcamount", "list", "donor", "whole", "none"],
    "perm": ["perm", "perm", "perm", "list", "none"],
    "vini": ["field", "field", "src", "srcring", "donor", "whole", "list", "srcamount", "none"],
    "allin": ["field"],
    "out": ["thief", "thief", "dstswap", "dstswap", "field", "donor", "whole", "none", "bp"],
    "bp": ["bp", "bp", "field", "whole", "none", "donor"],
    "allout": ["field"],
    "sign": ["field", "field", "src", "srcring", "donor", "donor", "whole", "srcamount", "none", "list"],
    "final": ["field"],
}


def mutation(rng, op):
    k = rng.choice(KINDS[op])
    m = {"k": k, "r": rng.randint(0, 1 << 30)}
    if k == "field" and op in ("vini", "sign") and rng.random() < 0.4:
        m["p"] = [rng.choice(["vini", "vini_hmac", "pseudo_out", "pseudo_out_hmac", "pseudo_out_alpha", "spend_key"])]
    if k == "donor" and rng.random() < 0.5:
        m["other"] = True
    return m


def forgery(rng, sess, two):
    """an attack on authenticated data which agrees in all the messages carrying it"""
    f = {"s": sess, "i": rng.randrange(16), "j": rng.randrange(16), "r": rng.randint(0, 1 << 30),
         "auth": rng.choice(["keep", "none", "empty", "cut", "zero", "origin", "origin", "origin"]),
         "x": bool(two and rng.random() < 0.5), "swap": rng.random() < 0.5}
    f["k"] = rng.choice(["dst", "dst", "dst", "vin", "vin", "pseudo"])
    if f["k"] == "dst":
        f["pay"] = rng.choice(["thief", "dst", "dst", "addr"])
        if f["pay"] == "thief" and f["auth"] == "origin":
            f["auth"] = "none"
    elif f["k"] == "vin":
        f["pay"] = rng.choice(["all", "all", "vini", "ki", "offs", "amount"])
        f["at"] = rng.choice([["vini", "sign"], ["vini", "sign"], ["vini"], ["sign"]])
    else:
        f["pay"] = rng.choice(["all", "out", "alpha", "rand"])
    return f


def equal_parts(spec):
    """the same transaction with equal payments (and equal inputs): parts fit each other's places"""
    src = spec["srcs"]
    total = sum(x["amount"] for x in src)
    for x in src:
        x["amount"] = total // len(src)
    src[-1]["amount"] += total - sum(x["amount"] for x in src)
    d = [x["amount"] for x in spec["dests"]]
    if not d or spec["kind"] == "sweep":
        return spec
    ch = spec["change"]
    tot = sum(d) + (ch["amount"] if ch else 0)
    n = len(d) + (1 if ch else 0)
    part = tot // n
    if part < 1:
        return spec
    for x in spec["dests"]:
        x["amount"] = part
    left = tot - part * n
    if ch:
        ch["amount"] = part + left
    else:
        spec["dests"][-1]["amount"] += left
    return spec


def shape_of(a, st, plan):
    """(alterations, point of refusal, variant) of an adversarial run"""
    seq = []
    stop = None
    any_fault = False
    for n, (sess, op, changed, res, fired) in enumerate(a.results):
        if changed or fired:
            any_fault = True
            seq.append((sess, op[0], [c for c in changed], fired))
        if is_failure(res) and stop is None:
            stop = op[0]
    sp = plan["specs"][-1]
    st.sim_time += 0.05 * a.dev.reqs
    if any_fault or plan.get("fault_free_counts"):
        st.shape(seq, stop, sp["hf"], sp["client"], len(sp["srcs"]), len(a.wtxs[-1].outs))
    for sess, op, changed, res, fired in a.results:
        if changed:
            st.count("refused-altered" if is_failure(res) else "accepted-altered")
