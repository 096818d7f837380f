"""C19: duality, for programs with any history, under rounding noise, failures and concurrent use."""
from fractions import Fraction as Fr

import numpy as np

from .. import core, lp, seams
from ..core import Violation
from ..lpmodel import Model, rank, solve_exact
from . import c04, c05, c20

LISTS = ("edits", "envs", "clients", "segs")
INTS = ("segs",)
FLIP = {"<=": ">=", ">=": "<=", "=": "="}


def generate(rng, tier):
    spec = c20.planted(rng) if rng.random() < 0.2 else lp.gen_spec(rng, rows=(1, 4), cols=(1, 4), wide=True)
    edits = [{"op": rng.choice(["copy", "grow", "row", "column", "column", "to_sef", "canonical", "canonical", "rejected", "cut short"]),
              "seed": rng.randrange(1 << 30)} for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    clients = [[rng.choice(["dual", "dual", "dual dual", "optimal", "optimal dual", "repr"]) for _ in range(rng.choice([1, 1, 2]))]
               for _ in range(rng.choice([0, 0, 2, 3]))]
    return {"spec": spec, "edits": edits, "envs": c05.gen_envs(rng, 2), "seed": rng.randrange(1 << 30),
            "fault": lp.gen_fault(rng), "clients": clients, "gran": "instr" if rng.random() < 0.3 else "line",
            "segs": core.gen_segs(rng, max(1, len(clients)))}


def textbook(mo):
    """The dual by the rules of the textbook; z is left out."""
    big = mo.obj == "max"
    ineq = [("<=" if big else ">=") if j + 1 in mo.neg else "=" if j + 1 in mo.free else (">=" if big else "<=") for j in range(mo.n)]
    free = [i + 1 for i, r in enumerate(mo.ineq) if r == "="]
    neg = [i + 1 for i, r in enumerate(mo.ineq) if r == (">=" if big else "<=")]
    A = [[mo.A[i][j] for i in range(mo.m)] for j in range(mo.n)]
    return Model(A, mo.c, mo.b, 0, "min" if big else "max", ineq, free, neg)


def same(what, p, mo):
    d = [x for x in core.must("reading", lambda: c04.compare(p, mo)) if not x.startswith("z ")]
    if d:
        raise Violation("wrong-dual", f"{what}: {'; '.join(d)[:700]}")


def regular(mo):
    rows = [r for r, rel in zip(mo.A, mo.ineq) if rel == "="]
    return mo.n > 0 and mo.m > 0 and rank(rows) == len(rows)


def execute(plan, ctx):
    p, mo = c20.prepare(dict(plan, spec=dict(plan["spec"])), ctx, lambda p, mo: (core.call(lambda: p.dual().dual()), core.call(p.optimal_value)))
    if any(abs(v) > 2000 or (v and abs(v) < Fr(1, 100)) for r in mo.A + [mo.b, mo.c] for v in r):
        raise core.Skip("large numbers")
    dmo = textbook(mo)
    what = "dual"
    ctx.state(mo.A, mo.b, mo.c, mo.obj, mo.ineq, mo.free, mo.neg)
    d = core.must("dual", p.dual)
    same("the dual", d, dmo)
    same("the primal after dualising", p, mo)
    dd = core.must("dual of the dual", d.dual)
    same("the dual of the dual", dd, mo)
    same("the dual after dualising", d, dmo)
    if dd is p or d is p:
        raise Violation("wrong-dual", "the dual is the program itself")
    # a dual computed under a fault is the dual, or the failure is reported; afterwards it is computed as ever
    _, o = lp.faulted(ctx, plan["fault"], p.dual, lambda: p.copy().dual())
    if o.ok:
        same(f"the dual under {plan['fault']['kind']} at {o.hit}", o.value, dmo)
    elif not o.hit:
        raise Violation("unexpected-error", f"dual raised {type(o.exc).__name__}: {o.exc}")
    same("the dual after the failure", core.must("dual", p.dual), dmo)
    # weak duality between points the program itself calls feasible
    rng = core.rng_for("points", plan["seed"])

    def points(m):
        out = []
        for _ in range(6):
            x = [rng.choice([0, 0, 1, 2, 3, 0.5]) * (-1 if j + 1 in m.neg else rng.choice([1, -1]) if j + 1 in m.free else 1) for j in range(m.n)]
            out.append(x)
        return out
    xs = [x for x in points(mo) if bool(core.must("is_feasible", lambda: p.is_feasible(list(x))))]
    ys = [y for y in points(dmo) if bool(core.must("is_feasible", lambda: d.is_feasible(list(y))))]
    for x in xs:
        for y in ys:
            a, b = float(p.evaluate(x)) - float(p.z), float(d.evaluate(y)) - float(d.z)
            ctx.probe("weak duality")
            if (a - b if mo.obj == "max" else b - a) > 1e-6 * (1 + abs(a) + abs(b)):
                raise Violation("weak-duality", f"feasible {x} of value {a} and dual feasible {y} of value {b}, primal {mo.obj}")
    # optimal values agree whatever the rounding; a failing back end is reported
    solvable = regular(mo) and regular(dmo)
    verdict, value = solve_exact(mo)
    dverdict, dvalue = solve_exact(dmo)
    ctx.probe(f"verdicts {verdict}/{dverdict}")
    want = {"p": float(value - mo.z) if verdict == "optimal" else None, "d": float(dvalue) if dverdict == "optimal" else None}
    if want["p"] is not None and abs(want["p"] - want["d"]) > 1e-9 * (1 + abs(want["p"])):
        raise core.HarnessError("reference duals disagree")

    def optimum(q):
        v = q.optimal_value()
        return None if v is None else float(v) - float(q.z)

    def judge(label, o, side):
        w = want[side]
        if not o.ok:
            raise Violation("unexpected-error", f"{label} raised {type(o.exc).__name__}: {o.exc}; the optimum is {w}")
        if (o.value is None) != (w is None) or w is not None and abs(o.value - w) > 1e-6 * (1 + abs(w)):
            raise Violation("strong-duality", f"{label} is {o.value}; primal {verdict} {want['p']}, dual {dverdict} {want['d']} (constants left out)")
    counts = {}
    for k, env in enumerate(plan["envs"] if solvable else []):
        fail = None
        if "fail" in env:
            fam = env["fail"]["family"]
            ctx.want("back-end failure" if fam == "linalg" else "allocation failure")
            n = counts.get(fam, 0)
            if n:
                fail = {fam: (1 + min(int(env["fail"]["u"] * n), n - 1), lp.EXC[env["fail"]["exc"]])}
        side = "pd"[(plan["seed"] + k) % 2]
        with seams.backend(noise=env["noise"], noise_seed=env["seed"], bias=env["bias"], fail=fail) as b:
            o = core.call(lambda: optimum(p) if side == "p" else optimum(p.dual()))
        for fam, n in b.count.items():
            counts[fam] = max(counts.get(fam, 0), n)
        if b.perturbed:
            ctx.fault("rounding perturbation", b.perturbed)
        if b.fired:
            ctx.fault(f"{'back-end' if b.fired[0][0] == 'linalg' else 'allocation'} failure:{lp.EXC[env['fail']['exc']].__name__}")
            ctx.site((b.fired[0][1], b.fired[0][2]))
        ctx.write(k, side, o.ok, b.fired)
        if b.fired and not o.ok:
            continue
        judge(f"env {k} (noise {env['noise']} ulps, failed {b.fired}): optimal value of the {'primal' if side == 'p' else 'dual'}", o, side)
    if len(plan["clients"]) < 2:
        return
    sched = core.Scheduler(plan["segs"], plan["gran"], 8_000_000, ctx=ctx)
    results = []
    text = repr(p)

    def client(i):
        def body(me):
            for op in plan["clients"][i]:
                if op.startswith("optimal") and not solvable:
                    op = "dual"
                fn = {"dual": lambda: p.dual(), "dual dual": lambda: p.dual().dual(), "optimal": lambda: optimum(p),
                      "optimal dual": lambda: optimum(p.dual()), "repr": lambda: repr(p)}[op]
                results.append((i, op, core.guarded(sched, fn)))
                sched.yield_point()
        return body
    sched.run([client(i) for i in range(len(plan["clients"]))])
    n = sum(x[2] != "exit" for x in sched.switches)
    if n:
        ctx.fault("preemption", n)
    for i, op, o in results:
        label = f"client {i} {op}"
        if op.startswith("optimal"):
            judge(label, o, "d" if op.endswith("dual") else "p")
        elif not o.ok:
            raise Violation("unexpected-error", f"{label} raised {type(o.exc).__name__}: {o.exc}")
        elif op == "repr":
            if o.value != text:
                raise Violation("program-changed", f"{label}: {o.value!r}")
        else:
            same(label, o.value, dmo if op == "dual" else mo)
    same("the primal after concurrent use", p, mo)
