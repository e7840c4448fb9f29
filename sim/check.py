#!/usr/bin/env python3
"""
python3 -m sim.check ID [--tier quick|thorough] [--seed N] [--runs N] [--workers N] [--replay FILE]

Seeded search over simulated executions for one property.  One run = one plan drawn from the seed; the plan
determines the run completely.  Exit codes: 0 the property held, 1 violation (line VIOLATION ...), 2 the check itself
failed.
"""
import argparse
import importlib
import json
import os
import random
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV = "/opt/venv/bin/python"
ENVV = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "EC_BACKEND_FORCE": "1", "EC_BACKEND": "1",
        "LANG": "C.UTF-8", "TZ": "UTC"}


def reexec():
    need = any(os.environ.get(k) != v for k, v in ENVV.items()) or os.environ.get("SIM_PY") != "1"
    if not need:
        return
    env = dict(os.environ)
    env.update(ENVV)
    env["SIM_PY"] = "1"
    env["PYTHONPATH"] = HERE + os.pathsep + os.environ.get("SIM_REPO", "/repo")
    # stale or foreign bytecode must not stand in for the sources
    env["PYTHONPYCACHEPREFIX"] = "/nonexistent"
    os.chdir(HERE)
    os.execve(VENV, [VENV, "-W", "ignore", "-m", "sim.check"] + sys.argv[1:], env)


def module(pid):
    return importlib.import_module("sim.props." + pid.lower())


def make_plan(mod, pid, seed, tier, i):
    rng = random.Random("%s/%s/%d" % (seed, pid, i))
    plan = mod.plan(rng, tier, i)
    plan["run_seed"] = "%s/%s/%d" % (seed, pid, i)
    return json.loads(json.dumps(plan))


def owner(filename):
    """whose code a frame belongs to: the tree under test, the simulator, or a library"""
    from sim import boot
    f = os.path.realpath(filename)
    if f.startswith(os.path.realpath(boot.REPO) + os.sep):
        return "repo"
    if f.startswith(os.path.realpath(HERE) + os.sep):
        return "sim"
    return None


def run_plan(mod, plan, keep=False):
    """returns (Stats, Violation or None)"""
    from sim import boot, core
    st = core.Stats()
    st.keep = keep
    boot.ENTROPY.reset(plan["run_seed"])
    boot.CLOCK.reset()
    v = None
    try:
        mod.execute(plan, st)
    except core.Violation as e:
        v = e
        st.ev("VIOLATION", e.kind, e.msg)
    except Exception as e:
        # an error the code under test raised where the simulation expects it to work
        tb = [f for f in traceback.extract_tb(e.__traceback__) if owner(f.filename)]
        if not tb or owner(tb[-1].filename) != "repo":
            raise
        v = core.Violation("exception", "%s at %s:%s: %s" % (
            type(e).__name__, os.path.basename(tb[-1].filename), tb[-1].name, str(e)[:200]))
        st.ev("VIOLATION", v.kind, type(e).__name__)
    finally:
        boot.ENTROPY.fail_at = None
    return st, v


RUN_WALL = 150


class Harness(Exception):
    pass


def isolated(mod, plan, keep=False):
    """
    One run in a forked copy of a pristine process: no state of the repository's modules survives from one run to
    the next, so a plan determines its run completely.  Returns a dictionary.
    """
    import ctypes
    import resource
    import select
    import signal
    from sim import boot
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            os.close(r)
            os.setpgid(0, 0)
            lim = getattr(mod, "MEM", 6 << 30)
            resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
            # nothing is left running when the worker is ended
            ctypes.CDLL(None).prctl(1, signal.SIGKILL)
            resource.setrlimit(resource.RLIMIT_CPU, (RUN_WALL + 30, RUN_WALL + 30))
            try:
                st, v = run_plan(mod, plan, keep)
                out = {"faults": st.faults, "counts": st.counts, "shapes": sorted(st.shapes), "log": st.log,
                       "sim_time": st.sim_time, "steps": st.steps, "digest": st.digest(),
                       "v": None if v is None else {"kind": v.kind, "msg": str(v.msg), "sig": v.sig}}
            except BaseException:
                out = {"error": traceback.format_exc()}
            with os.fdopen(w, "wb") as f:
                f.write(json.dumps(out).encode())
            rc = 0
        finally:
            os._exit(rc)
    os.close(w)
    buf = b""
    end = boot.REAL_MONOTONIC() + RUN_WALL
    hung = False
    while True:
        left = end - boot.REAL_MONOTONIC()
        rd = select.select([r], [], [], max(0.0, left))[0] if left > 0 else []
        if not rd:
            hung = True
            break
        c = os.read(r, 1 << 16)
        if not c:
            break
        buf += c
    os.close(r)
    if hung:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    blank = {"faults": {}, "counts": {}, "shapes": [], "log": [], "sim_time": 0.0, "steps": 0, "digest": "none"}
    if hung:
        blank["v"] = {"kind": "hang", "msg": "the run did not finish within %d s of real time" % RUN_WALL, "sig": "hang"}
        return blank
    if not buf and os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS):
        n = os.WTERMSIG(status)
        blank["v"] = {"kind": "crash", "msg": "the process died by signal %d" % n, "sig": "crash"}
        return blank
    try:
        out = json.loads(buf.decode())
    except ValueError:
        raise Harness("run process ended with status %s" % status)
    if "error" in out:
        raise Harness(out["error"])
    return out


def prepare(a):
    from sim import boot
    boot.import_repo_quiet()
    mod = module(a.id)
    for n in getattr(mod, "WARM", ["monero_glue.agent.agent_lite", "monero_glue.hwtoken.token",
                                   "monero_glue.xmr.ring_ct", "sim.host", "sim.oracle", "sim.adversary",
                                   "sim.kiworld", "sim.link", "sim.props.common"]):
        importlib.import_module(n)
    if hasattr(mod, "warm"):
        mod.warm()
    import gc
    gc.collect()
    gc.freeze()
    return mod


def load_known(pid):
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                body = line.split(" ", 2)[2]
                sig, _, what = body.partition(" ")
                res.append((sig.replace("sig=", "", 1), what))
    return res


def worker(a):
    from sim import boot
    mod = prepare(a)
    known = set(s for s, _ in load_known(a.id))
    t0 = boot.REAL_MONOTONIC()
    agg = {"runs": 0, "faults": {}, "counts": {}, "shapes": [], "sim_time": 0.0, "steps": 0, "samples": [],
           "violations": [], "known": {}, "error": None, "nontrivial": 0, "digests": {}}
    shapes = set()
    plans = set()
    errors = 0
    for i in range(a.w, a.runs, a.workers):
        if boot.REAL_MONOTONIC() - t0 > a.cap:
            break
        try:
            plan = make_plan(mod, a.id, a.seed, a.tier, i)
            o = isolated(mod, plan)
        except Exception:
            agg["error"] = "run %d\n%s" % (i, traceback.format_exc())
            errors += 1
            if errors >= 4:
                break
            continue
        agg["runs"] += 1
        for k, n in o["faults"].items():
            agg["faults"][k] = agg["faults"].get(k, 0) + n
        for k, n in o["counts"].items():
            agg["counts"][k] = agg["counts"].get(k, 0) + n
        shapes |= set(o["shapes"])
        if o["shapes"]:
            plans.add(o["digest"])
        agg["sim_time"] += o["sim_time"]
        agg["steps"] += o["steps"]
        if i < 24:
            agg["digests"][str(i)] = o["digest"]
        if len(agg["samples"]) < 1:
            s = json.dumps(plan)
            agg["samples"].append(s if len(s) < 1500 else s[:1500] + "...")
        v = o["v"]
        if v is not None:
            if v["sig"] in known:
                agg["known"][v["sig"]] = agg["known"].get(v["sig"], 0) + 1
                continue
            agg["violations"].append({"i": i, "kind": v["kind"], "msg": v["msg"], "plan": plan,
                                      "digest": o["digest"]})
            break
    agg["shapes"] = sorted(shapes)
    agg["nontrivial"] = len(plans)
    with open(a.out, "w") as f:
        json.dump(agg, f)


def shrink(a):
    """a.replay: file with a violating plan; rewrites it with the smallest plan found"""
    from sim import boot
    global RUN_WALL
    RUN_WALL = 30
    mod = prepare(a)
    with open(a.replay) as f:
        rec = json.load(f)
    t0 = boot.REAL_MONOTONIC()
    best = rec["plan"]
    tried = 0
    if hasattr(mod, "shrink") and rec["kind"] != "hang":
        progress = True
        while progress and boot.REAL_MONOTONIC() - t0 < a.cap:
            progress = False
            for c in mod.shrink(best):
                if boot.REAL_MONOTONIC() - t0 > a.cap:
                    break
                if c == best or len(json.dumps(c)) > len(json.dumps(best)):
                    continue
                tried += 1
                try:
                    o = isolated(mod, c)
                except Exception:
                    continue
                if o["v"] is not None and o["v"]["kind"] == rec["kind"]:
                    best = c
                    progress = True
                    break
    RUN_WALL = 150
    o = isolated(mod, best, keep=True)
    if o["v"] is None or o["v"]["kind"] != rec["kind"]:
        best = rec["plan"]
        o = isolated(mod, best, keep=True)
    rec.update(plan=best, digest=o["digest"], log=o["log"], shrink_tried=tried,
               msg=o["v"]["msg"] if o["v"] else rec["msg"])
    with open(a.replay, "w") as f:
        json.dump(rec, f, indent=1)


def replay(a):
    mod = prepare(a)
    with open(a.replay) as f:
        rec = json.load(f)
    o = isolated(mod, rec["plan"], keep=True)
    for l in o["log"]:
        print(l)
    same = o["digest"] == rec["digest"]
    print("seed %s" % rec["plan"]["run_seed"])
    if o["v"] is None:
        print("replay: no violation")
        return 0
    print("replay: %s: %s (history %s)" % (o["v"]["kind"], o["v"]["msg"], "identical" if same else "DIFFERENT"))
    print("VIOLATION property=%s replay=%s" % (a.id, a.replay))
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int, default=0)
    ap.add_argument("--cap", type=float, default=0)
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--w", type=int, default=-1)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--shrink", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    reexec()
    sys.path.insert(0, HERE)
    if a.w >= 0:
        return worker(a)
    if a.shrink:
        return shrink(a)
    if a.replay:
        return replay(a)
    return parent(a)


def parent(a):
    import tempfile
    t0 = time.monotonic()
    from sim import boot
    boot.install()
    mod = module(a.id)
    runs = a.runs or mod.RUNS[a.tier]
    cap = a.cap or getattr(mod, "CAP", {}).get(a.tier, 150 if a.tier == "quick" else 700)
    W = a.workers or min(8, os.cpu_count() or 8)
    print("check %s tier=%s seed=%d runs=%d workers=%d cap=%ds" % (a.id, a.tier, a.seed, runs, W, cap), flush=True)
    tmp = tempfile.mkdtemp(prefix="simcheck")
    procs = []
    base = [VENV, "-W", "ignore", "-m", "sim.check", a.id, "--tier", a.tier, "--seed", str(a.seed)]
    for w in range(W):
        out = os.path.join(tmp, "w%d.json" % w)
        procs.append((out, subprocess.Popen(
            base + ["--runs", str(runs), "--cap", str(cap), "--workers", str(W), "--w", str(w), "--out", out],
            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    res = []
    err = None
    for out, p in procs:
        try:
            _, se = p.communicate(timeout=max(5.0, cap + RUN_WALL + 30 - (time.monotonic() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            _, se = p.communicate()
            err = err or "worker did not finish"
        if os.path.exists(out):
            with open(out) as f:
                res.append(json.load(f))
        else:
            err = err or ("worker died: %s" % se.decode(errors="replace")[-2000:])
    for r in res:
        if r["error"]:
            err = err or r["error"]
    viols = sorted((v for r in res for v in r["violations"]), key=lambda v: v["i"])

    # determinism: a few runs again in another process with another worker layout
    det = {"rechecked": 0, "different": 0}
    if not viols and not err:
        out = os.path.join(tmp, "det.json")
        subprocess.run(base + ["--runs", "6", "--cap", "25", "--workers", "1", "--w", "0", "--out", out],
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if os.path.exists(out):
            with open(out) as f:
                d2 = json.load(f)["digests"]
            dig = {}
            for r in res:
                dig.update(r["digests"])
            for k in d2:
                if k in dig:
                    det["rechecked"] += 1
                    det["different"] += dig[k] != d2[k]
    known = {}
    for r in res:
        for k, n in r["known"].items():
            known[k] = known.get(k, 0) + n
    what = dict(load_known(a.id))
    for k in sorted(what):
        print("KNOWN-FINDING: property=%s %s (met %d times)" % (a.id, what[k], known.get(k, 0)))

    wall = time.monotonic() - t0
    n = sum(r["runs"] for r in res)
    shapes = set(s for r in res for s in r["shapes"])
    faults, counts = {}, {}
    for r in res:
        for k, v in r["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
    ev = {
        "property": a.id, "tier": a.tier, "seed": a.seed, "level": mod.LEVEL,
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": sum(r["nontrivial"] for r in res),
            "rule": mod.RULE,
            "samples": [s for r in res for s in r["samples"]][:3],
            "simulated_runs": n,
            "runs_planned": runs,
            "runs_per_hour": int(n * 3600 / max(wall, 0.001)),
            "simulated_seconds": round(sum(r["sim_time"] for r in res), 3),
            "simulated_events": sum(r["steps"] for r in res),
            "faults_fired": faults,
            "counters": counts,
            "distinct_shapes": len(shapes),
            "shape_measure": mod.SHAPE,
            "real_components": mod.REAL,
            "stub_components": mod.STUB,
            "determinism_recheck": det,
            "known_findings_met": known,
        },
        "assumptions": mod.ASSUME,
        "wall_s": round(wall, 2),
        "violations": len(viols),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    rc = 0
    if viols:
        v = viols[0]
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        rp = os.path.join(HERE, "replays", "%s-%d-%d.json" % (a.id, a.seed, v["i"]))
        with open(rp, "w") as f:
            json.dump({"property": a.id, "kind": v["kind"], "msg": v["msg"], "plan": v["plan"],
                       "digest": v["digest"], "original_plan": v["plan"]}, f)
        try:
            subprocess.run(base + ["--shrink", "--replay", rp, "--cap", "40"], timeout=120,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            pass
        q = subprocess.run(base + ["--replay", rp], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        with open(rp) as f:
            rec = json.load(f)
        print("run seed %s: %s: %s" % (rec["plan"]["run_seed"], rec["kind"], rec["msg"][:600]))
        print("minimised plan: %s" % json.dumps(rec["plan"])[:1500])
        print("replayed: %s" % ("reproduced" if q.returncode == 1 else "NOT reproduced"))
        print("VIOLATION property=%s replay=%s" % (a.id, rp))
        rc = 1
    elif err:
        print("check failed: %s" % err)
        rc = 2
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)
    print("%s: %d runs, %d events, %d distinct shapes, faults %s, determinism %s, %.1f s -> exit %d"
          % (a.id, n, ev["coverage"]["simulated_events"], len(shapes), json.dumps(faults), det, wall, rc))
    return rc


if __name__ == "__main__":
    sys.exit(main())
