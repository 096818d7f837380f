"""Command line: python -m dst.run PROP [--tier quick|thorough] [--seed N] | --replay FILE"""
import argparse
import copy
import gc
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("DST_WORKERS", "0")) or max(1, min(8, os.cpu_count() or 1))
RUN_WALL = 150          # one simulated run normally takes well under a second
CAP = {"quick": 240, "thorough": 1500}


class Wall(BaseException):
    pass


def child_env(hashseed):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent-pycache", OPENBLAS_NUM_THREADS="1",
             OMP_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONHASHSEED=str(hashseed), PYTHONPATH=HERE)
    e.setdefault("MPLCONFIGDIR", os.path.join(tempfile.gettempdir(), "dst-mpl"))
    return e


def load(prop):
    return importlib.import_module(f"dst.props.{prop.lower()}")


_since = [0]


def tidy():
    """Garbage is collected between runs only: a collection amid a run would close the suspended walks of earlier
    runs, as events of whichever thread happened to be running."""
    if _since[0] % 20 == 0:
        gc.collect()
    _since[0] += 1
    gc.set_threshold(0)


def one(mod, plan, ctx):
    """Executes one plan. None, or the Violation. Anything wrong with the harness itself raises."""
    from . import core
    tidy()
    ctx.start()

    def alarm(sig, frame):
        raise Wall()

    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(RUN_WALL)
    try:
        mod.execute(plan, ctx)
        return None
    except core.Violation as v:
        return v
    except core.Skip as e:
        ctx.probe(f"skipped: {e}")
        ctx.nontrivial = False
        return None
    except core.HarnessError:
        raise
    except Wall as e:
        core.MON.off()
        if core.raised_in_repo(e):
            v = core.Violation("no-progress-wall", f"no end after {RUN_WALL} s")
            return v
        raise core.HarnessError("run exceeded its wall limit outside the code under test") from None
    except BaseException as e:
        core.MON.off()
        if isinstance(e, core.BudgetExceeded):
            return core.Violation("no-progress", f"step budget exhausted at {e}")
        if (isinstance(e, Exception) or isinstance(e, (SystemExit, core.SimInterrupt))) and core.raised_in_repo(e):
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb][-3:]
            return core.Violation("unexpected-error", f"{type(e).__name__}: {e} at {' > '.join(where)}")
        if isinstance(e, (AttributeError, TypeError, LookupError, ValueError, ArithmeticError)):
            # the checks read answers by their documented form only: what cannot be read that way is not an answer
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb][-3:]
            return core.Violation("unreadable-answer", f"{type(e).__name__}: {e} when reading an answer at {' > '.join(where)}")
        raise
    finally:
        signal.alarm(0)


def make(mod, prop, seed, i, tier):
    from . import core
    plan = mod.generate(core.rng_for("dst", prop, seed, i), tier)
    return json.loads(json.dumps(plan))


# ---- worker --------------------------------------------------------------------------------
def worker(a):
    from . import core
    mod = load(a.prop)
    known = load_known(a.prop)
    ctx = core.Ctx()
    t0 = time.monotonic()
    out = {"runs": 0, "nontrivial": 0, "digests": [], "violation": None, "error": None, "known": {}, "samples": [],
           "truncated": False}
    plans_seen = set()
    stop = os.path.join(a.dir, "stop")
    for i in range(a.w, a.n, a.of):
        if time.monotonic() - t0 > a.cap:
            out["truncated"] = True
            break
        if os.path.exists(stop):
            try:
                lim = min(int(x) for x in open(stop).read().split())
            except ValueError:
                lim = 1 << 60
            if i > lim:
                break
        try:
            plan = make(mod, a.prop, a.seed, i, a.tier)
            v = one(mod, plan, ctx)
        except BaseException:
            out["error"] = f"run {i}: " + traceback.format_exc()
            break
        out["runs"] += 1
        if ctx.nontrivial:
            h = core.digest(plan)[:16]
            if h not in plans_seen:
                plans_seen.add(h)
                out["nontrivial"] += 1
                if len(out["samples"]) < 2:
                    out["samples"].append({"run": i, "plan": plan})
        if len(out["digests"]) < 12:
            out["digests"].append([i, ctx.digest()])
        if v is not None:
            k = match_known(known, v)
            if k is not None:
                out["known"][k] = out["known"].get(k, 0) + 1
                continue
            out["violation"] = {"run": i, "plan": plan, "cls": v.cls, "msg": v.msg, "w": a.w, "of": a.of}
            with open(stop, "a") as f:
                f.write(f"{i}\n")
            break
    out.update(events=core.MON.total, faults=dict(ctx.faults), configured=dict(ctx.configured), probes=dict(ctx.probes),
               schedules=sorted(ctx.schedules), sites=sorted(ctx.sites), states=sorted(ctx.states), switches=ctx.switches,
               cpu=time.process_time())
    with open(os.path.join(a.dir, f"w{a.w}.json"), "w") as f:
        json.dump(out, f)


# ---- known findings --------------------------------------------------------------------------
def load_known(prop):
    try:
        data = json.load(open(os.path.join(HERE, "known_findings.json")))
    except FileNotFoundError:
        return []
    return [k for k in data if k.get("status") == "known" and k.get("property") == prop]


def match_known(known, v):
    for n, k in enumerate(known):
        if v.cls == k["cls"] and k["message_contains"] in v.msg:
            return n
    return None


# ---- minimiser -------------------------------------------------------------------------------
def shrink(mod, plan, cls, budget_s, log):
    from . import core
    lists = set(getattr(mod, "LISTS", ("ops", "segs", "threads", "clients")))
    ints = set(getattr(mod, "INTS", ("segs",)))
    ctx = core.Ctx()
    t0 = time.monotonic()
    tried = [0]

    def fails(p):
        if time.monotonic() - t0 > budget_s:
            return False
        tried[0] += 1
        try:
            v = one(mod, json.loads(json.dumps(p)), ctx)
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt) and not isinstance(e, core.SimInterrupt):
                raise
            return False
        return v is not None and v.cls == cls

    def paths(x, pre=(), under=False):
        if isinstance(x, dict):
            for k in x:
                if k in lists and isinstance(x[k], list):
                    yield pre + (k,)
                yield from paths(x[k], pre + (k,))
        elif isinstance(x, list):
            for i, y in enumerate(x):
                yield from paths(y, pre + (i,))

    def get(p, path):
        for k in path:
            p = p[k]
        return p

    def replaced(p, path, val):
        q = copy.deepcopy(p)
        o = get(q, path[:-1])
        o[path[-1]] = val
        return q

    changed = True
    while changed and time.monotonic() - t0 < budget_s:
        changed = False
        for path in list(paths(plan)):
            try:
                cur = get(plan, path)
            except (KeyError, IndexError):
                continue
            size = max(1, len(cur) // 2)
            while size >= 1 and cur:
                i = 0
                while i < len(cur):
                    cand = cur[:i] + cur[i + size:]
                    q = replaced(plan, path, cand)
                    if fails(q):
                        plan, cur, changed = q, cand, True
                    else:
                        i += size
                size //= 2
        # simplification hook and numbers
        for q in getattr(mod, "simplify", lambda p: [])(plan):
            if fails(q):
                plan, changed = q, True
                break

        def nums(x, pre=(), on=False):
            if isinstance(x, dict):
                for k in x:
                    yield from nums(x[k], pre + (k,), on or k in ints)
            elif isinstance(x, list):
                for i, y in enumerate(x):
                    yield from nums(y, pre + (i,), on)
            elif on and isinstance(x, int) and not isinstance(x, bool) and x > 1:
                yield pre
        for path in list(nums(plan)):
            for f in (lambda v: 1, lambda v: v // 2, lambda v: v - 1):
                try:
                    v0 = get(plan, path)
                except (KeyError, IndexError):
                    break
                if f(v0) < v0 and f(v0) >= 1 and fails(replaced(plan, path, f(v0))):
                    plan, changed = replaced(plan, path, f(v0)), True
                    break
    log["candidates"] = tried[0]
    return plan


def size_of(plan):
    return len(json.dumps(plan))


def minimise(a):
    mod = load(a.prop)
    d = json.load(open(a.file))
    log = {}
    plan = shrink(mod, d["plan"], d["cls"], a.budget, log)
    d["plan_min"], d["candidates"] = plan, log["candidates"]
    with open(a.file, "w") as f:
        json.dump(d, f)


def replay(path, quiet=False):
    """Re-executes a replay file in this process; returns the violation or None."""
    from . import core
    d = json.load(open(path))
    mod = load(d["property"])
    ctx = core.Ctx()
    for i in d.get("prelude", []):
        one(mod, make(mod, d["property"], d["seed"], i, d["tier"]), ctx)
    v = one(mod, d["plan"], ctx)
    if not quiet:
        for entry in ctx.log:
            print("  trace", entry)
    return d, v


def spawn(args, hashseed, timeout=None, **kw):
    return subprocess.run([sys.executable, "-m", "dst.run"] + [str(x) for x in args], env=child_env(hashseed), cwd=HERE,
                          timeout=timeout, **kw)


def confirm(path, hashseed):
    try:
        r = spawn(["X", "--replay", path], hashseed, timeout=400, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 1 and b"VIOLATION" in r.stdout


def report(a, hashseed, v, scratch):
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f"{a.prop}-{a.tier}-seed{a.seed}-run{v['run']}.json")
    base = {"property": a.prop, "seed": a.seed, "tier": a.tier, "run": v["run"], "hashseed": hashseed, "cls": v["cls"],
            "message": v["msg"], "prelude": []}

    def write(**kw):
        d = dict(base, **kw)
        with open(path, "w") as f:
            json.dump(d, f, indent=1)
        return d

    tmp = os.path.join(scratch, "min.json")
    with open(tmp, "w") as f:
        json.dump({"plan": v["plan"], "cls": v["cls"]}, f)
    plan_min, cand = None, 0
    try:
        spawn([a.prop, "--minimise", tmp, "--budget", 60], hashseed, timeout=300, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        d = json.load(open(tmp))
        plan_min, cand = d.get("plan_min"), d.get("candidates", 0)
    except subprocess.TimeoutExpired:
        pass
    info = {"original_size": size_of(v["plan"]), "candidates_tried": cand}
    if plan_min is not None:
        write(plan=plan_min, minimised=dict(info, size=size_of(plan_min)))
        if confirm(path, hashseed):
            return path, True
    write(plan=v["plan"], minimised=info)
    if confirm(path, hashseed):
        return path, True
    # state left by earlier runs of the same process may be part of the failure
    prelude = list(range(v["w"], v["run"], v["of"]))
    write(plan=v["plan"], prelude=prelude, minimised=info)
    if prelude and confirm(path, hashseed):
        t0 = time.monotonic()
        size = max(1, len(prelude) // 2)
        while size >= 1 and time.monotonic() - t0 < 90:
            i = 0
            while i < len(prelude) and time.monotonic() - t0 < 90:
                cand = prelude[:i] + prelude[i + size:]
                write(plan=v["plan"], prelude=cand, minimised=info)
                if confirm(path, hashseed):
                    prelude = cand
                else:
                    i += size
            size //= 2
        write(plan=v["plan"], prelude=prelude, minimised=info)
        return path, True
    write(plan=v["plan"], minimised=info, reproduced=False)
    return path, False


def load_meta(prop):
    d = {"quick": 400, "thorough": 4000, "rule": "", "real": [], "stub": [], "assumptions": []}
    d.update(json.load(open(os.path.join(HERE, "dst", "budget.json"))).get(prop, {}))
    return d


# ---- parent ------------------------------------------------------------------------------------
def check(a):
    mod_runs = load_meta(a.prop)
    n = a.n or mod_runs[a.tier]
    hashseed = a.seed % 4294967295
    scratch = tempfile.mkdtemp(prefix="dst-")
    t0 = time.monotonic()
    try:
        ps = []
        for w in range(WORKERS):
            log = open(os.path.join(scratch, f"w{w}.log"), "w")
            ps.append(subprocess.Popen([sys.executable, "-m", "dst.run", a.prop, "--worker", str(w), "--of", str(WORKERS), "--n", str(n),
                                        "--dir", scratch, "--seed", str(a.seed), "--tier", a.tier, "--cap", str(CAP[a.tier])],
                                       env=child_env(hashseed), cwd=HERE, stdout=log, stderr=log))
        deadline = t0 + CAP[a.tier] + RUN_WALL + 60
        for p in ps:
            try:
                p.wait(max(1, deadline - time.monotonic()))
            except subprocess.TimeoutExpired:
                pass
        for p in ps:
            if p.poll() is None:
                p.kill()
                p.wait()
        outs, errors = [], []
        for w in range(WORKERS):
            try:
                outs.append(json.load(open(os.path.join(scratch, f"w{w}.json"))))
                if outs[-1]["error"]:
                    errors.append(outs[-1]["error"])
            except (OSError, ValueError):
                errors.append(f"worker {w} died:\n" + open(os.path.join(scratch, f"w{w}.log")).read()[-3000:])
        wall = time.monotonic() - t0
        viol = sorted((o["violation"] for o in outs if o["violation"]), key=lambda v: v["run"])
        known = {}
        for o in outs:
            for k, c in o["known"].items():
                known[int(k)] = known.get(int(k), 0) + c
        rerun = None
        if not viol and not errors:
            rerun = determinism_sample(a, outs, hashseed)
        evidence(a, outs, wall, n, hashseed, rerun, viol, known)
        for k, entry in enumerate(load_known(a.prop)):
            print(f"KNOWN-FINDING: property={a.prop} {entry['what']} (met {known.get(k, 0)} times)")
        runs = sum(o["runs"] for o in outs)
        if viol:
            path, again = report(a, hashseed, viol[0], scratch)
            if not again and viol[0]["cls"] == "no-progress-wall":
                print(f"harness: a run exceeded its wall limit and did not do so again: {viol[0]['msg']}", file=sys.stderr)
                return 3
            print(f"{a.prop}: run {viol[0]['run']}: [{viol[0]['cls']}] {viol[0]['msg'][:1500]}")
            if not again:
                print("note: not reproduced from the replay file (the code under test depends on something outside the simulation)")
            print(f"VIOLATION property={a.prop} replay={path}")
            return 1
        if errors:
            print("\n".join(errors), file=sys.stderr)
            return 3
        print(f"{a.prop}: held on {runs} simulated runs ({wall:.1f} s)")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def determinism_sample(a, outs, hashseed):
    """Re-executes a few runs in one fresh process (another assignment of runs to processes) and compares digests."""
    want = dict(map(tuple, (d for o in outs for d in o["digests"][:2])))
    idx = sorted(want)[:10]
    r = spawn([a.prop, "--digests", ",".join(map(str, idx)), "--seed", a.seed, "--tier", a.tier], hashseed, timeout=RUN_WALL * 3,
              stdout=subprocess.PIPE)
    try:
        got = {int(k): v for k, v in json.loads(r.stdout.decode().strip().splitlines()[-1]).items()}
    except (IndexError, ValueError):
        return {"compared": 0, "equal": 0}
    return {"compared": len(idx), "equal": sum(got.get(i) == want[i] for i in idx)}


def digests(a):
    from . import core
    mod = load(a.prop)
    ctx = core.Ctx()
    out = {}
    for i in map(int, a.digests.split(",")):
        v = one(mod, make(mod, a.prop, a.seed, i, a.tier), ctx)
        out[i] = ctx.digest() if v is None else f"violation:{v.cls}"
    print(json.dumps(out))


def evidence(a, outs, wall, n, hashseed, rerun, viol, known):
    def merge(k):
        t = {}
        for o in outs:
            for x, c in o[k].items():
                t[x] = t.get(x, 0) + c
        return dict(sorted(t.items()))

    def union(k):
        return len({x for o in outs for x in o[k]})

    meta = load_meta(a.prop)
    runs = sum(o["runs"] for o in outs)
    events = sum(o["events"] for o in outs)
    samples = [s for o in outs for s in o["samples"]][:3]
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": sum(o["nontrivial"] for o in outs),
        "rule": meta["rule"],
        "samples": [json.dumps(s)[:1800] for s in samples] or ["none"],
        "runs_planned": n,
        "runs_per_hour": round(runs / max(wall, 1e-9) * 3600),
        "seeds_per_hour": round(runs / max(wall, 1e-9) * 3600),
        "simulated_time": f"{events} simulated steps (events of the code under test); the code has no clock, so steps are the unit of simulated time",
        "simulated_steps": events,
        "faults_injected": merge("faults"),
        "faults_configured": merge("configured"),
        "reached": merge("probes"),
        "distinct_interleavings": union("schedules"),
        "interleaving_measure": "distinct sequences of (from, to, code position) of context switches inside operations",
        "context_switches": sum(o["switches"] for o in outs),
        "distinct_fault_and_switch_sites": union("sites"),
        "distinct_states": union("states"),
        "real_components": meta["real"],
        "stub_components": meta["stub"],
        "stopped_by_wall_cap": any(o["truncated"] for o in outs),
        "rerun_determinism": rerun,
        "known_findings_met": known,
        "cpu_s": round(sum(o["cpu"] for o in outs), 1),
        "workers": WORKERS, "hashseed": hashseed,
    }
    ev = {"property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration", "coverage": cov,
          "assumptions": meta["assumptions"], "wall_s": round(wall, 2), "violations": len(viol)}
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{a.prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)


def main():
    p = argparse.ArgumentParser()
    p.add_argument("prop", nargs="?", default="X")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    p.add_argument("--n", type=int, default=0)
    p.add_argument("--worker", dest="w", type=int)
    p.add_argument("--of", type=int)
    p.add_argument("--dir")
    p.add_argument("--cap", type=float, default=240)
    p.add_argument("--replay")
    p.add_argument("--minimise", dest="file")
    p.add_argument("--budget", type=float, default=60)
    p.add_argument("--digests")
    p.add_argument("--run", type=int)
    a = p.parse_args()
    if a.replay:
        d = json.load(open(a.replay))
        if os.environ.get("PYTHONHASHSEED") != str(d["hashseed"]) or "PYTHONPYCACHEPREFIX" not in os.environ:
            os.execve(sys.executable, [sys.executable, "-m", "dst.run", "X", "--replay", os.path.abspath(a.replay)], child_env(d["hashseed"]))
        d, v = replay(a.replay)
        if v is None:
            print(f"{d['property']}: the replay does not fail")
            return 0
        print(f"{d['property']}: [{v.cls}] {v.msg[:3000]}")
        print(f"VIOLATION property={d['property']} replay={a.replay}")
        return 1
    if a.w is not None:
        return worker(a) or 0
    if a.file:
        return minimise(a) or 0
    if a.digests:
        return digests(a) or 0
    if a.run is not None:
        if os.environ.get("PYTHONHASHSEED") is None:
            os.execve(sys.executable, [sys.executable, "-m", "dst.run"] + sys.argv[1:], child_env(a.seed))
        from . import core
        mod = load(a.prop)
        plan = make(mod, a.prop, a.seed, a.run, a.tier)
        print(json.dumps(plan))
        ctx = core.Ctx()
        t = time.time()
        v = one(mod, plan, ctx)
        print("result", v, "nontrivial", ctx.nontrivial, "log", len(ctx.log), "time", round(time.time() - t, 3))
        for e in ctx.log[:60]:
            print("  ", e)
        return 0 if v is None else 1
    return check(a)


if __name__ == "__main__":
    r = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(r)
