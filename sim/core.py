"""Common pieces of the checks: violations, per-run statistics, plan shrinking"""
import copy
import hashlib
import json


class Violation(Exception):
    def __init__(self, kind, msg, sig=None):
        super().__init__("%s: %s" % (kind, msg))
        self.kind = kind
        self.msg = msg
        self.sig = sig or kind


class Stats(object):
    """Collected while one simulated run proceeds"""

    def __init__(self):
        self.faults = {}
        self.counts = {}
        self.shapes = set()
        self.sim_time = 0.0
        self.steps = 0
        self.log = []
        self.keep = False
        self.h = hashlib.sha256()

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n

    def count(self, kind, n=1):
        self.counts[kind] = self.counts.get(kind, 0) + n

    def shape(self, *key):
        """a distinct interleaving / state class reached"""
        self.shapes.add(hashlib.sha256(repr(key).encode()).hexdigest()[:16])

    def ev(self, *what):
        """event of the run, part of the replayed history"""
        self.steps += 1
        s = json.dumps(what, default=_j, sort_keys=True)
        self.h.update(s.encode() + b"\n")
        if self.keep:
            self.log.append(s if len(s) < 400 else s[:400] + "...")

    def digest(self):
        return self.h.hexdigest()


def _j(x):
    if isinstance(x, (bytes, bytearray)):
        return bytes(x).hex()
    if isinstance(x, (set, frozenset)):
        return sorted(x)
    return repr(x)


def paths(o, pre=()):
    out = []
    if isinstance(o, dict):
        for k in sorted(o):
            out += paths(o[k], pre + (k,))
    elif isinstance(o, list):
        out.append((pre, "list", len(o)))
        for i, x in enumerate(o):
            out += paths(x, pre + (i,))
    elif isinstance(o, bool) or o is None or isinstance(o, str):
        pass
    elif isinstance(o, int):
        out.append((pre, "int", o))
    return out


def at(o, p):
    for x in p:
        o = o[x]
    return o


def generic_shrink(plan, keys):
    """candidates: plans with elements of the lists named in keys removed, integers named in keys lowered"""
    for p, kind, v in paths(plan):
        if not p or p[0] not in keys:
            continue
        if kind == "list":
            n = v
            step = n
            while step >= 1:
                for lo in range(0, n, step):
                    c = copy.deepcopy(plan)
                    l = at(c, p)
                    del l[lo:lo + step]
                    yield c
                step //= 2
        elif kind == "int" and v > 0:
            for nv in {0, v // 2, v - 1}:
                if nv < v:
                    c = copy.deepcopy(plan)
                    at(c, p[:-1])[p[-1]] = nv
                    yield c


def shrink_spec(spec):
    """smaller valid transactions"""
    def fix(s):
        tot = sum(x["amount"] for x in s["srcs"])
        out = sum(x["amount"] for x in s["dests"]) + (s["change"]["amount"] if s["change"] else 0)
        if s["change"] and not s["change"].get("dummy"):
            s["change"]["amount"] += tot - s["fee"] - out
            if s["change"]["amount"] <= 0:
                return None
        else:
            s["fee"] = tot - out
            if s["fee"] < 1:
                return None
        if s["change"] and s["change"].get("dummy") and len(s["dests"]) != 1:
            return None
        if len(s["dests"]) + (1 if s["change"] else 0) < 2:
            return None
        return s
    for key in ("srcs", "dests"):
        if len(spec[key]) > 1:
            for i in range(len(spec[key])):
                c = copy.deepcopy(spec)
                del c[key][i]
                yield fix(c)
    for k, v in (("unlock", 0), ("account", 0), ("pid", None), ("net", 0), ("hf", 10), ("client", 1)):
        if spec[k] != v:
            c = copy.deepcopy(spec)
            c[k] = v
            yield fix(c)
    if any(s["ring"] > 2 for s in spec["srcs"]):
        c = copy.deepcopy(spec)
        for s in c["srcs"]:
            s["ring"] = 2
        yield fix(c)
    for i, s in enumerate(spec["srcs"]):
        for k, v in (("minor", 0), ("add", False), ("oidx", 0)):
            if s[k] != v:
                c = copy.deepcopy(spec)
                c["srcs"][i][k] = v
                yield fix(c)
    for i, s in enumerate(spec["dests"]):
        for k, v in (("minor", 0), ("major", 0), ("w", "r0")):
            if s[k] != v:
                c = copy.deepcopy(spec)
                c["dests"][i][k] = v
                yield fix(c)


def shrink_with_spec(keys, specs=("spec",)):
    def f(plan):
        yield from generic_shrink(plan, keys)
        for k in specs:
            if k in plan:
                for s in shrink_spec(plan[k]):
                    if s is not None:
                        c = copy.deepcopy(plan)
                        c[k] = s
                        yield c
    return f
