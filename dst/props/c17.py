"""C17: drawing feasible regions with failing displays, back ends, interrupts and concurrent queries."""
import contextlib
import io

from fractions import Fraction

import numpy as np

from .. import core, lp, seams
from ..core import Violation

seams.install_display()
LISTS = ("faults", "clients", "ops", "segs")
INTS = ("segs",)


def gen_region(rng):
    rel = rng.choice(["<=", "<=", ">="])
    rows, rhs = [], []
    x = [rng.randint(-4, 6), rng.randint(-4, 6)]
    feasible = rng.random() < 0.8
    for _ in range(rng.randint(1, 5) if rng.random() < 0.96 else rng.randint(8, 14)):
        r = [rng.choice([0, 1, -1, 2, -3, 5, 0.5, 1.5]), rng.choice([0, 1, -1, 2, 3, -4, 0.5, -2.5])]
        if r == [0, 0]:
            r[rng.randrange(2)] = 1
        if rows and rng.random() < 0.2:      # parallel to an earlier row
            r = [v * rng.choice([1, -1, 2, 0.5]) for v in rows[-1]]
        if rows and rng.random() < 0.04:     # crossing an earlier one at a small angle
            k = rng.choice([7, 20, 50])
            r = [k * rows[-1][0] + rng.choice([1, -1]), k * rows[-1][1]]
        v = r[0] * x[0] + r[1] * x[1]
        rows.append(r)
        slack = rng.choice([0, 1, 2.5, 6])
        rhs.append((v + slack if rel == "<=" else v - slack) if feasible else rng.choice([-6, -1, 0, 2, 7, 0.5]))
    spec = {"A": rows, "b": rhs, "c": [rng.choice([1, -2, 3]), rng.choice([0, 1, 4])], "z": rng.choice([0, 2]), "obj": rng.choice(["max", "min"]),
            "ineq": [rel] * len(rows), "free": [], "neg": [], "form": rng.choice(["list", "float", "int", "fortran", "strided"]),
            "cls": rng.choice(["lp", "lp", "ip"])}
    for j in (1, 2):
        r = rng.random()
        if r < 0.3:
            spec["free"].append(j)
        elif r < 0.5:
            spec["neg"].append(j)
    r = rng.random()
    if r < 0.05:
        spec["ineq"][rng.randrange(len(rows))] = rng.choice(["=", "<=", ">="])
    elif r < 0.09:
        for row in rows:
            row.append(1)
        spec["c"].append(1)
    return spec


def generate(rng, tier):
    spec = gen_region(rng)
    faults = []
    for _ in range(rng.randint(1, 4)):
        faults.append({"kind": rng.choice(["display", "display", "int", "int", "linalg", "alloc"]), "u": rng.randrange(10 ** 6) / 10 ** 6,
                       "v": rng.randrange(10 ** 6) / 10 ** 6, "exc": rng.choice(["int", "async"]), "gran": "instr" if rng.random() < 0.2 else "line",
                       "derr": rng.choice(["runtime", "os", "mem", "int"])})
        if rng.random() < 0.4:
            faults[-1]["limit"] = rng.choice([None, 7, 30, 1000, 0.5])
    clients = []
    for _ in range(rng.choice([0, 2, 2, 3])):
        ops = [{"op": "draw"} if rng.random() < 0.6 else lp.gen_query(rng, spec, ["solve", "to_sef", "dual", "is_feasible", "repr", "evaluate", "properties",
                                                                                  "two_phase_simplex", "copy"]) for _ in range(rng.choice([1, 1, 2]))]
        c = {"ops": ops}
        if rng.random() < 0.2:
            c["fail"] = rng.randint(1, 7)
        clients.append(c)
    return {"spec": spec, "limit": rng.choice([None, None, 1000, 10, -50, 3.5, 20, 0.5, -0.25, 1]), "faults": faults, "clients": clients,
            "gran": "instr" if rng.random() < 0.35 else "line", "segs": core.gen_segs(rng, max(1, len(clients)))}


DERR = {"runtime": seams.SimDisplayError, "os": OSError, "mem": MemoryError, "int": core.SimInterrupt}


def draw(p, plan, fault=None):
    limit = fault["limit"] if fault and "limit" in fault else plan["limit"]
    return p.graph_polyhedron() if limit is None else p.graph_polyhedron(limit)


def shapes(calls):
    """Every path shown: pairs of equally long coordinate lists."""
    out = []
    for name, a in calls:
        if len(a) >= 2 and all(isinstance(v, list) and v and all(isinstance(t, float) for t in v) for v in a[:2]) and len(a[0]) == len(a[1]):
            out.append((name, list(zip(a[0], a[1]))))
    return out


def check_polygon(what, plan, calls):
    spec = plan["spec"]
    limit = abs(plan["limit"] if plan["limit"] is not None else 1000)
    paths = shapes(calls)
    if not paths:
        raise Violation("nothing-shown", f"{what}: display calls {[n for n, _ in calls]}")
    if calls[-1][0] != "show" and not any(n.endswith("show") for n, _ in calls):
        raise Violation("nothing-shown", f"{what}: never shown: {[n for n, _ in calls]}")
    for name, pts in paths:
        if pts[0] != pts[-1]:
            raise Violation("not-closed", f"{what}: {name} {pts}")
        for x, y in pts:
            t = 1e-6 * (1 + abs(x) + abs(y))
            if abs(x) > limit + t or abs(y) > limit + t:
                raise Violation("infeasible-point", f"{what}: ({x}, {y}) is beyond the limit {limit}")
            for row, rel, b in zip(spec["A"], spec["ineq"], spec["b"]):
                v = row[0] * x + row[1] * y
                if (v > b + 10 * t if rel == "<=" else v < b - 10 * t):
                    raise Violation("infeasible-point", f"{what}: ({x}, {y}) violates {row} {rel} {b}")
        # going round the polygon never turns both ways
        d = []
        for q in pts[:-1]:
            if not d or max(abs(q[0] - d[-1][0]), abs(q[1] - d[-1][1])) > 1e-6 * limit:
                d.append(q)
        while len(d) > 1 and max(abs(d[0][0] - d[-1][0]), abs(d[0][1] - d[-1][1])) <= 1e-6 * limit:
            d.pop()
        turns = []
        for i in range(len(d) if len(d) > 2 else 0):
            (ax, ay), (bx, by), (cx, cy) = d[i - 2], d[i - 1], d[i]
            n1, n2 = np.hypot(bx - ax, by - ay), np.hypot(cx - bx, cy - by)
            turns.append(((bx - ax) * (cy - by) - (by - ay) * (cx - bx)) / (n1 * n2))
        if any(s > 1e-3 for s in turns) and any(s < -1e-3 for s in turns):
            raise Violation("not-a-polygon", f"{what}: {name} {pts} crosses itself")


def corners(plan):
    """The exact corner points of the region within the limit, and whether it has an interior."""
    spec = plan["spec"]
    limit = Fraction(abs(plan["limit"] if plan["limit"] is not None else 1000))
    rows = [(Fraction(r[0]), Fraction(r[1]), Fraction(b)) if rel == "<=" else (-Fraction(r[0]), -Fraction(r[1]), -Fraction(b))
            for r, rel, b in zip(spec["A"], spec["ineq"], spec["b"])]
    rows += [(1, 0, limit), (-1, 0, limit), (0, 1, limit), (0, -1, limit)]
    out = set()
    for i, (a, b, r) in enumerate(rows):
        for c, d, s in rows[:i]:
            det = a * d - b * c
            if det:
                q = (Fraction(r * d - b * s) / det, Fraction(a * s - r * c) / det)
                if all(e * q[0] + f * q[1] <= t for e, f, t in rows):
                    out.add(q)
    q = sorted(out)
    wide = any((b[0] - a[0]) * (c[1] - a[1]) != (c[0] - a[0]) * (b[1] - a[1]) for a in q[:1] for b in q[1:2] for c in q[2:])
    return q, wide


def check_shown(plan, ref, calls):
    """The undisturbed drawing shows exactly the corners of the region."""
    spec = plan["spec"]
    legal = len(spec["c"]) == 2 and len(set(spec["ineq"])) == 1 and spec["ineq"][0] != "="
    if not legal:
        if ref.ok:
            raise Violation("drawing-accepted", f"a region that cannot be drawn: {spec['A']} {spec['ineq']}")
        return
    q, wide = corners(plan)
    pts = [t for _, path in shapes(calls) for t in path]
    if not q and pts:
        raise Violation("infeasible-point", f"the region within the limit is empty, shown {pts}")
    if not wide:
        return
    if not ref.ok:
        raise Violation("drawing-failed", f"undisturbed drawing raised {ref.exc!r} although the region has corners {[(float(x), float(y)) for x, y in q]}")
    for x, y in q:
        if not any(abs(x - u) + abs(y - v) <= 1e-6 * (1 + abs(x) + abs(y)) for u, v in pts):
            raise Violation("corner-missing", f"({float(x)}, {float(y)}) is a corner of the region; shown {pts}")
    for u, v in pts:
        if not any(abs(x - u) + abs(y - v) <= 1e-6 * (1 + abs(x) + abs(y)) for x, y in q):
            raise Violation("not-a-corner", f"({u}, {v}) is shown; corners {[(float(x), float(y)) for x, y in q]}")


def kind_of(o):
    return "ok" if o.ok else type(o.exc).__name__


def execute(plan, ctx):
    with contextlib.redirect_stdout(io.StringIO()):
        inner(plan, ctx)


def inner(plan, ctx):
    spec = plan["spec"]
    with seams.display() as d:
        ref = core.call(lambda: draw(lp.build(spec), plan))
    ref_calls = d.calls
    ctx.probe(f"outcome {kind_of(ref)}")
    p = core.must("construction", lambda: lp.build(spec))
    base = lp.snapshot(p)
    steps0 = list(p.steps)

    def intact(what):
        ch = lp.diff(base, lp.snapshot(p))
        if ch:
            raise Violation("program-changed", f"{what}: {'; '.join(ch)[:600]}")
        if list(p.steps) != steps0:
            raise Violation("program-changed", f"{what}: the step log changed")

    def again(what):
        with seams.display() as d:
            o = core.call(lambda: draw(p, plan))
        intact(f"drawing {what}")
        if kind_of(o) != kind_of(ref) or core.norm(d.calls) != core.norm(ref_calls):
            raise Violation("drawing-differs", f"{what}: {kind_of(o)} showing {d.calls}; undisturbed {kind_of(ref)} showing {ref_calls}")

    if ref.ok:
        check_polygon("undisturbed drawing", plan, ref_calls)
    check_shown(plan, ref, ref_calls)
    again("the first time")
    ctx.state(kind_of(ref), len(ref_calls), spec["A"], spec["b"], plan["limit"])
    for k, f in enumerate(plan["faults"]):
        what = f"fault {k} ({f['kind']})"
        if f["kind"] == "display":
            ctx.want("display failure")
            n = len(ref_calls)
            if n == 0:
                continue
            at = 1 + int(f["u"] * n)
            with seams.display(fail_at=at, exc=DERR[f["derr"]]) as d:
                o = core.call(lambda: draw(p, plan, f))
            if d.fired:
                ctx.fault(f"display failure:{f['derr']}")
                ctx.site((f"display {d.fired}", at))
            what += f" at {d.fired}"
        else:
            with seams.display():
                twin, o = lp.faulted(ctx, f if f["kind"] == "int" else dict(f, exc="linalg" if f["kind"] == "linalg" else "mem"),
                                     lambda: draw(p, plan, f), lambda: draw(lp.build(spec), plan, f))
            what += f" at {o.hit}"
        ctx.write(k, f["kind"], kind_of(o))
        intact(what)
        again(f"after {what}")
    if len(plan["clients"]) > 1:
        together(plan, ctx, p, intact, ref, ref_calls)


def together(plan, ctx, p, intact, ref, ref_calls):
    spec = plan["spec"]
    solo = []
    for c in plan["clients"]:
        solo.append([core.reference(lambda: lp.Query(q).run(lp.build(spec)), 300_000) if q["op"] != "draw" else ref for q in c["ops"]])
    total = sum(o.events for row in solo for o in row)
    sched = core.Scheduler(plan["segs"], plan["gran"], 30 * total + 200_000, ctx=ctx)
    screens, results = {}, []

    def client(i):
        def body(me):
            for k, q in enumerate(plan["clients"][i]["ops"]):
                d = screens[i] = seams.Display(plan["clients"][i].get("fail") if k == 0 else None)
                if k == 0 and "fail" in plan["clients"][i]:
                    ctx.want("display failure")
                o = core.guarded(sched, lambda: draw(p, plan) if q["op"] == "draw" else lp.Query(q).run(p))
                if d.fired:
                    ctx.fault("display failure:runtime")
                results.append((i, k, q, o, d))
                sched.yield_point()
        return body

    with seams.display(pick=lambda: screens[sched.cur.i]):
        sched.run([client(i) for i in range(len(plan["clients"]))])
    n = sum(x[2] != "exit" for x in sched.switches)
    if n:
        ctx.fault("preemption", n)
    # the step log grows by what the queries recorded
    ch = [x for x in lp.diff(lp.snapshot(lp.build(spec)), lp.snapshot(p))]
    if ch:
        raise Violation("program-changed", f"after concurrent drawing: {'; '.join(ch)[:600]}")
    for i, k, q, o, d in results:
        what = f"concurrent client {i} {q['op']}"
        if d.fired:
            continue
        if q["op"] == "draw":
            if kind_of(o) != kind_of(ref) or core.norm(d.calls) != core.norm(ref_calls):
                raise Violation("drawing-differs", f"{what}: {kind_of(o)} showing {d.calls}; alone {kind_of(ref)} showing {ref_calls}")
        elif lp.outcome(o) != lp.outcome(solo[i][k]):
            raise Violation("answer-differs", f"{what}: {lp.outcome(o)}, alone {lp.outcome(solo[i][k])}")
