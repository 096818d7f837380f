"""C05: LP verdicts under rounding noise and failing back ends, against an exact rational simplex."""
from fractions import Fraction as Fr
from itertools import combinations, islice
from random import Random

import numpy as np

from .. import core, lp, seams
from ..core import Violation
from ..lpmodel import Model, inverse, rank, solve_exact

LISTS = ("envs",)
INTS = ()


def independent(spec):
    rows = [r for r, rel in zip(spec["A"], spec["ineq"] or ["="] * len(spec["b"])) if rel == "="]
    return rank(rows) == len(rows)


def gen_envs(rng, k):
    envs = [{"noise": 0, "seed": 0, "bias": 0}]
    for _ in range(k):
        r = rng.random()
        e = {"noise": rng.choice([0, 0.5, 1, 4, 16]), "seed": rng.randrange(1 << 30), "bias": rng.choice([0, 0, 1, -1])}
        if r < 0.5:
            e["fail"] = {"family": rng.choice(["linalg", "linalg", "linalg", "alloc"]), "u": rng.randrange(1000000) / 1000000,
                         "exc": rng.choice(["linalg", "fpe", "mem"])}
            if e["fail"]["family"] == "alloc":
                e["fail"]["exc"] = "mem"
        envs.append(e)
    return envs


# Programs on which pivoting rules with no answer to ties go round in circles (Chvatal; Beale; Marshall and Suurballe).
CIRCLES = [([[0.5, -5.5, -2.5, 9], [0.5, -1.5, -0.5, 1], [1, 0, 0, 0]], [0, 0, 1], [10, -57, -9, -24]),
           ([[0.25, -60, -0.04, 9], [0.5, -90, -0.02, 3], [0, 0, 1, 0]], [0, 0, 1], [0.75, -150, 0.02, -6]),
           ([[0.25, -8, -1, 9], [0.5, -12, -0.5, 3], [0, 0, 1, 0]], [0, 0, 1], [0.75, -20, 0.5, -6])]


def tied(rng, spec):
    """A program at whose origin many constraints meet."""
    if rng.random() < 0.5:
        A, b, c = rng.choice(CIRCLES)
        cols, rows = list(range(len(c))), list(range(len(b)))
        if rng.random() < 0.5:
            rng.shuffle(cols)
        if rng.random() < 0.5:
            rng.shuffle(rows)
        spec.update(A=[[A[i][j] for j in cols] for i in rows], b=[b[i] for i in rows], c=[c[j] for j in cols])
    else:
        m, n = rng.randint(2, 4), rng.randint(3, 5)
        spec.update(A=[[rng.randint(-4, 4) for _ in range(n)] for _ in range(m)] + [[rng.randint(1, 3) for _ in range(n)]],
                    b=[0] * m + [rng.randint(1, 6)], c=[rng.randint(-4, 6) for _ in range(n)])
    spec.update(ineq=["<="] * len(spec["b"]), obj="max", free=[], neg=[])
    spec.pop("xs", None)


def generate(rng, tier):
    while True:
        style = rng.random()
        spec = lp.gen_spec(rng, rows=(1, 4), cols=(1, 5), ip=False, half=0.1, wide=True)
        if style < 0.5:
            # feasible by construction: right-hand sides around a chosen point
            n = len(spec["c"])
            x = [0 if rng.random() < 0.4 else rng.randint(1, 4) for _ in range(n)]
            for j in spec["neg"]:
                x[j - 1] *= -1
            for i, row in enumerate(spec["A"]):
                v = sum(a * b for a, b in zip(row, x))
                rel = (spec["ineq"] or ["="] * len(spec["A"]))[i]
                slack = rng.choice([0, 0, 0, 1, 3])
                spec["b"][i] = v + (slack if rel == "<=" else -slack if rel == ">=" else 0)
            if style < 0.2:
                lp.boxed(spec, rng, 5)
        if style > 0.94:
            tied(rng, spec)
        if spec["ineq"] is None or independent(spec):
            if spec["ineq"] is None and not independent(spec):
                continue
            break
    return {"spec": spec, "entry": rng.choice(["solve", "solve", "solve", "optimal_value", "two_phase", "simplex"]),
            "start": rng.choice([-1, -1, rng.randrange(1 << 30)]), "envs": gen_envs(rng, 3)}


def tol(model):
    big = max([abs(float(v)) for r in model.A for v in r] + [abs(float(v)) for v in model.b + model.c] + [1.0])
    return 1e-6 * big


def check_point(model, x, value, what):
    n = model.n
    x = np.asarray(x, dtype=float)
    if x.shape != (n,):
        raise Violation("wrong-answer", f"{what}: point of shape {x.shape} for {n} variables")
    t = Fr(tol(model) * (1 + float(np.max(np.abs(x))) if n else 1))
    if not np.all(np.isfinite(x)):
        raise Violation("wrong-answer", f"{what}: {x.tolist()}")
    xs = [Fr(float(v)) for v in x]
    if not model.feasible(xs, t):
        raise Violation("wrong-answer", f"{what}: {x.tolist()} is not feasible")
    got = float(model.value(xs))
    if abs(got - float(value)) > 1e-5 * (1 + abs(float(value))):
        raise Violation("wrong-answer", f"{what}: {x.tolist()} has value {got}, optimum is {float(value)}")


def check_certificate(model, verdict, value, res, what):
    """model is in standard equality form."""
    x, basis, cert = res
    A = np.array([[float(v) for v in r] for r in model.A])
    b = np.array([float(v) for v in model.b])
    c = np.array([float(v) for v in model.c])
    t = 1e-6 * (1 + float(np.max(np.abs(A))) + float(np.max(np.abs(b))) + float(np.max(np.abs(c))))
    if verdict == "optimal":
        if x is None or basis is None:
            raise Violation("wrong-answer", f"{what}: no solution reported, optimum is {float(value)}")
        check_point(model, x, value, what)
        y = np.asarray(cert, dtype=float)
        scale = 1 + float(np.max(np.abs(y)))
        if np.any(c - y @ A > t * scale) or abs(float(y @ b) + float(model.z) - float(value)) > t * scale * (1 + abs(float(value))):
            raise Violation("bad-certificate", f"{what}: {y.tolist()} does not prove optimality")
        nz = {j + 1 for j, v in enumerate(np.asarray(x, dtype=float)) if abs(v) > t}
        if not nz <= set(basis) or len(set(basis)) != model.m:
            raise Violation("bad-certificate", f"{what}: basis {basis} does not belong to {np.asarray(x).tolist()}")
        return
    if x is not None or basis is not None:
        raise Violation("wrong-answer", f"{what}: reports {x} for a program that is {verdict}")
    if verdict == "infeasible":
        y = np.asarray(cert, dtype=float)
        scale = 1 + float(np.max(np.abs(y)))
        if y.shape != b.shape or np.any(y @ A < -t * scale) or not float(y @ b) < -1e-7:
            raise Violation("bad-certificate", f"{what}: {np.asarray(cert).tolist()} does not prove infeasibility")
    else:
        if not isinstance(cert, tuple):
            raise Violation("bad-certificate", f"{what}: {cert} does not prove unboundedness")
        f, d = (np.asarray(v, dtype=float) for v in cert)
        scale = 1 + float(np.max(np.abs(f))) + float(np.max(np.abs(d)))
        ok = (np.all(f >= -t * scale) and np.all(np.abs(A @ f - b) <= t * scale) and np.all(d >= -t * scale)
              and np.all(np.abs(A @ d) <= t * scale) and float(c @ d) > 1e-7)
        if not ok:
            raise Violation("bad-certificate", f"{what}: {f.tolist()}, {d.tolist()} does not prove unboundedness")


def feasible_basis(model, pick):
    """A basis (1-indexed) with a feasible basic solution: of the last ones the last, or any."""
    if pick < 0:
        tries = islice(combinations(range(model.n - 1, -1, -1), model.m), 60)
    else:
        rng = Random(pick)
        tries = (rng.sample(range(model.n), model.m) for _ in range(60))
    for B in tries:
        B = sorted(B)
        inv = inverse([[row[j] for j in B] for row in model.A])
        if inv is not None and all(sum(v * w for v, w in zip(r, model.b)) >= 0 for r in inv):
            return [j + 1 for j in B]
    return None


def execute(plan, ctx):
    spec = plan["spec"]
    if not independent(spec):
        raise core.Skip("dependent rows")
    model = Model.of(spec)
    verdict, value = solve_exact(model)
    entry = plan["entry"]
    ctx.probe(f"verdict {verdict}")
    sef = model
    start = None
    if entry in ("two_phase", "simplex"):
        sef = model.copy()
        sef.to_sef()
        verdict, value = solve_exact(sef)
    if entry == "simplex":
        start = feasible_basis(sef, plan["start"])
        if start is None:
            entry = "two_phase"

    def make():
        p = lp.build(spec)
        return p.to_sef(False) if entry in ("two_phase", "simplex") else p

    def run(p):
        if entry == "two_phase":
            return p.two_phase_simplex(False)
        if entry == "simplex":
            return p.simplex(list(start), False)
        return p.optimal_value() if entry == "optimal_value" else p.solve(False)

    p = make()
    counts = {}
    for k, env in enumerate(plan["envs"]):
        fail = None
        if "fail" in env:
            fam = env["fail"]["family"]
            n = counts.get(fam, 0)
            ctx.want("back-end failure" if fam == "linalg" else "allocation failure")
            if n:
                fail = {fam: (1 + min(int(env["fail"]["u"] * n), n - 1), lp.EXC[env["fail"]["exc"]])}
        with seams.backend(noise=env["noise"], noise_seed=env["seed"], bias=env["bias"], fail=fail) as b:
            o = core.call(lambda: run(p))
        if not counts:
            counts = dict(b.count)
        if b.perturbed:
            ctx.fault("rounding perturbation", b.perturbed)
        if b.fired:
            ctx.fault(f"{'back-end' if b.fired[0][0] == 'linalg' else 'allocation'} failure:{lp.EXC[env['fail']['exc']].__name__}")
            ctx.site((b.fired[0][1], b.fired[0][2], entry))
        what = f"{entry} (env {k}: noise {env['noise']} ulps, failed {b.fired})"
        ctx.write(k, o.ok, verdict, b.fired)
        ctx.state(entry, verdict, len(b.calls), b.fired)
        if not o.ok:
            if b.fired:
                ctx.probe("failure reached the caller")
                continue
            raise Violation("unexpected-error", f"{what} raised {type(o.exc).__name__}: {o.exc}; the program is {verdict}")
        if entry in ("two_phase", "simplex"):
            check_certificate(sef, verdict, value, o.value, what)
        elif verdict != "optimal":
            if o.value is not None:
                raise Violation("wrong-answer", f"{what}: {np.asarray(o.value).tolist()} for a program that is {verdict}")
        elif o.value is None:
            raise Violation("wrong-answer", f"{what}: no solution, optimum is {float(value)}")
        elif entry == "optimal_value":
            if not abs(float(o.value) - float(value)) <= 1e-6 * (1 + abs(float(value))):
                raise Violation("wrong-answer", f"{what}: {float(o.value)}, optimum is {float(value)}")
        else:
            check_point(model, o.value, value, what)
