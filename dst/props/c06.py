"""C06: branch and bound against brute force, under rounding noise and failing back ends."""
from .. import core, lp, seams
from ..core import Violation
from ..lpmodel import Model, mixed_exact
from . import c05

import numpy as np

LISTS = ("envs",)
INTS = ()


def generate(rng, tier):
    while True:
        spec = lp.gen_spec(rng, rows=(1, 2), cols=(1, 3 if rng.random() < 0.2 else 2), sef=False, ip=True, half=0.08)
        if rng.random() < 0.3:
            # knapsack: one row of small positive weights, objective parallel to it or nearly so
            n = rng.randint(2, 3)
            row = [rng.randint(1, 5) for _ in range(n)]
            up = rng.random() < 0.5
            spec.update(A=[row], b=[rng.randint(2, 11) * (1 if up else rng.choice([1, -1]))], c=[rng.choice([1, 1, 2]) * v for v in row],
                        obj="max" if up else "min", ineq=["<=" if up else ">="], free=[], neg=[])
            if rng.random() < 0.3:
                spec["c"][rng.randrange(n)] += 1
        elif rng.random() < 0.5:
            for i, rel in enumerate(spec["ineq"]):
                if rel == "=":
                    spec["ineq"][i] = rng.choice(["<=", ">="])
        if c05.independent(spec):
            break
    box = []
    n = len(spec["c"])
    rows = []
    for j in range(1, n + 1):
        u = rng.randint(1, 3) if rng.random() < 0.9 else rng.randint(4, 9)
        lo, hi = (-u, 0) if j in spec["neg"] else (-u, u) if j in spec["free"] else (0, u)
        box.append([lo, hi])
        e = [1 if k == j else 0 for k in range(1, n + 1)]
        s = rng.choice([1, 1, 2])
        if hi:
            rows.append(([s * v for v in e], "<=", s * hi + (s > 1 and rng.random() < 0.5)))
        if lo:
            rows.append(([s * v for v in e], ">=", s * lo - (s > 1 and rng.random() < 0.5)))
    if rng.random() < 0.3:
        rng.shuffle(rows)
    for r, rel, v in rows:
        spec["A"].append(r)
        spec["ineq"].append(rel)
        spec["b"].append(int(v))
    if rng.random() < 0.4:
        # an objective parallel to a constraint: fractional optima of integral value, ties between branches
        i = rng.randrange(len(spec["A"]))
        up = (spec["ineq"][i] == "<=") == (spec["obj"] == "max")
        k = rng.choice([1, 1, 1, 2]) * (1 if up else -1)
        spec["c"] = [k * v for v in spec["A"][i]]
    if rng.random() < 0.15:
        spec["integral"] = rng.sample(range(n), rng.randint(0, n))
    envs = c05.gen_envs(rng, 1)
    for bias in (1, -1):
        envs.append({"noise": rng.choice([1, 4, 16]), "seed": rng.randrange(1 << 30), "bias": bias})
    return {"spec": spec, "box": box, "envs": envs}


def execute(plan, ctx):
    spec = plan["spec"]
    model = Model.of(spec)
    whole = spec.get("integral")
    if whole is None:
        whole = list(range(len(spec["c"])))
    else:
        ctx.probe("mixed programs")
    best = mixed_exact(model, [(lo - 1, hi + 1) for lo, hi in plan["box"]], sorted(whole))
    ctx.probe("infeasible" if best is None else "optimal")
    p = lp.build(spec)
    counts = {}
    for k, env in enumerate(plan["envs"]):
        fail = None
        if "fail" in env:
            fam = env["fail"]["family"]
            n = counts.get(fam, 0)
            ctx.want("back-end failure" if fam == "linalg" else "allocation failure")
            if n:
                fail = {fam: (1 + min(int(env["fail"]["u"] * n), n - 1), lp.EXC[env["fail"]["exc"]])}
        with seams.backend(noise=env["noise"], noise_seed=env["seed"], bias=env["bias"], fail=fail) as b:
            o = core.call(lambda: p.branch_and_bound(), budget=30_000_000)
        if not counts:
            counts = dict(b.count)
        if b.perturbed:
            ctx.fault("rounding perturbation", b.perturbed)
        if b.fired:
            ctx.fault(f"{'back-end' if b.fired[0][0] == 'linalg' else 'allocation'} failure:{lp.EXC[env['fail']['exc']].__name__}")
            ctx.site((b.fired[0][1], b.fired[0][2]))
        what = f"branch_and_bound (env {k}: noise {env['noise']} ulps, failed {b.fired})"
        ctx.write(k, o.ok, best is None, b.fired)
        ctx.state(len(b.calls), b.fired, best)
        if not o.ok:
            if b.fired:
                ctx.probe("failure reached the caller")
                continue
            raise Violation("unexpected-error", f"{what} raised {type(o.exc).__name__}: {o.exc}")
        if best is None:
            if o.value is not None:
                raise Violation("wrong-answer", f"{what}: {np.asarray(o.value).tolist()} but no integral point is feasible")
        elif o.value is None:
            raise Violation("wrong-answer", f"{what}: no solution, the best value is {float(best)}")
        else:
            x = np.asarray(o.value, dtype=float)
            if np.any(np.abs(x - np.round(x))[whole] > 1e-6):
                raise Violation("wrong-answer", f"{what}: {x.tolist()} is not integral")
            c05.check_point(model, x, best, what)
