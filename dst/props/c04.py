"""C04: in-place edits have their documented effect or none at all."""
from fractions import Fraction as Fr

import numpy as np

from .. import core, lp, seams
from ..core import Violation
from ..lpmodel import Model, inverse

WRONG = ["free above", "free below", "negative above", "negative below", "free twice", "negative twice", "both", "relation", "relations long",
         "b long", "c long", "b short", "c short", "relations short", "uneven rows", "flat", "nested b", "nested c", "objective"]
LISTS = ("ops", "wrong")
INTS = ()


def generate(rng, tier):
    spec = lp.gen_spec(rng, rows=(1, 3), cols=(1, 4), wide=True)
    ops = []
    for _ in range(rng.randint(3, 10 if tier == "quick" else 16)):
        op = rng.choice(["add_constraint"] * 4 + ["add_variable"] * 4 + ["to_sef"] * 2 + ["to_canonical_form"] * 3
                        + ["simplex_iteration"] * 3 + ["clear_steps"])
        e = {"op": op, "r": [rng.randrange(10000) / 10000 for _ in range(14)], "form": rng.choice(["list", "float", "int"]),
             "bad": rng.choice([""] * 10 + ["a", "a", "b", "b", "c", "c", "d", "e", "f"]), "steps": rng.random() < 0.3}
        if rng.random() < 0.3:
            e["fault"] = {"at": rng.randint(1, 3), "exc": rng.choice(["linalg", "linalg", "fpe"])}
        e["query"] = rng.choice([None, None, "solve", "is_feasible", "dual", "repr", "properties", "to_sef", "optimal_value", "copy"])
        ops.append(e)
    wrong = rng.sample(WRONG, rng.choice([0, 0, 1, 2]))
    return {"spec": spec, "ops": ops, "wrong": wrong}


def numbers(r, k):
    return [int(r[(3 + i) % 14] * 11) - 5 for i in range(k)]


def close(a, b):
    return abs(float(a) - float(b)) <= 1e-7 * (1 + abs(float(b)))


def compare(p, mo):
    """Differences between the program and the model."""
    out = []
    A, b, c = np.asarray(p.A), np.asarray(p.b), np.asarray(p.c)
    if A.shape != (mo.m, mo.n) or b.shape != (mo.m,) or c.shape != (mo.n,):
        return [f"shapes {A.shape} {b.shape} {c.shape}, expected {mo.m} x {mo.n}"]
    for nm, got, want in (("A", A.ravel(), [v for r in mo.A for v in r]), ("b", b, mo.b), ("c", c, mo.c), ("z", [p.z], [mo.z])):
        if not all(close(g, w) for g, w in zip(got, want)):
            out.append(f"{nm} is {list(map(float, got))}, expected {list(map(float, want))}")
    for nm, got, want in (("objective", p.objective, mo.obj), ("inequalities", p.inequalities, mo.ineq),
                          ("free", sorted(p.free_variables), sorted(mo.free)), ("negative", sorted(p.negative_variables), sorted(mo.neg)),
                          ("is_sef", bool(p.is_sef), mo.is_sef())):
        if got != want:
            out.append(f"{nm} is {got}, expected {want}")
    pos = [j for j in range(1, mo.n + 1) if j not in mo.free and j not in mo.neg]
    if p.positive_variables != pos:
        out.append(f"positive is {p.positive_variables}, expected {pos}")
    return out


def wild(mo):
    vals = [v for r in mo.A for v in r] + mo.b + mo.c + [mo.z]
    return any(abs(v) > 10000 or (v != 0 and abs(v) < Fr(1, 10000)) for v in vals)


def impossible(spec, wrong, ctx):
    """Programs that cannot exist are refused, and the arguments of a refused construction stay as they were."""
    m, n = len(spec["b"]), len(spec["c"])
    for kind in wrong:
        a = {"A": [list(r) for r in spec["A"]], "b": list(spec["b"]), "c": list(spec["c"]), "ineq": list(spec["ineq"] or ["="] * m), "free": list(spec["free"]),
             "neg": list(spec["neg"]), "obj": spec["obj"]}
        if kind == "free above":
            a["free"].append(n + 1)
        elif kind == "free below":
            a["free"].insert(0, 0)
        elif kind == "negative above":
            a["neg"].append(n + 1)
        elif kind == "negative below":
            a["neg"].insert(0, 0)
        elif kind == "free twice":
            a["free"] = [1, 1]
        elif kind == "negative twice":
            a["neg"], a["free"] = [1, 1], []
        elif kind == "both":
            a["neg"], a["free"] = [n], [n]
        elif kind == "relation":
            a["ineq"][-1] = "<"
        elif kind == "relations long":
            a["ineq"].append("=")
        elif kind == "b long":
            a["b"].append(1)
        elif kind == "c long":
            a["c"].append(1)
        elif kind == "b short":
            a["b"].pop()
        elif kind == "c short":
            a["c"].pop()
        elif kind == "relations short":
            a["ineq"].pop()
        elif kind == "uneven rows":
            a["A"] = a["A"] + [a["A"][0] + [1]]
            a["b"].append(1)
            a["ineq"].append("=")
        elif kind == "flat":
            a["A"], a["b"], a["ineq"] = a["A"][0], a["b"][:1], a["ineq"][:1]
        elif kind == "nested b":
            a["b"] = [[v, v] for v in a["b"]]
        elif kind == "nested c":
            a["c"] = [a["c"]]
        elif kind == "objective":
            a["obj"] = "best"
        args = core.norm(a)
        o = core.call(lambda: (lp.IntegerProgram if spec["cls"] == "ip" else lp.LinearProgram)(
            a["A"], a["b"], a["c"], spec["z"], a["obj"], a["ineq"], a["free"] or None, a["neg"] or None))
        ctx.write("impossible", kind, o.ok)
        ctx.fault("rejected construction")
        if o.ok:
            raise Violation("impossible-program", f"{kind}: {a} was accepted")
        if core.norm(a) != args:
            raise Violation("argument-changed", f"{kind}: {a}")


def execute(plan, ctx):
    spec = plan["spec"]
    p = lp.build(spec)
    mo = Model.of(spec)
    clean = True
    d = compare(p, mo)
    if d:
        raise Violation("wrong-state", f"after construction: {'; '.join(d)[:600]}")
    impossible(spec, plan.get("wrong", []), ctx)
    for k, e in enumerate(plan["ops"]):
        op, r, bad = e["op"], e["r"], e["bad"]
        n, m = mo.n, mo.m
        new = mo.copy()
        legal = True       # True: must be accepted, False: must be rejected, None: either
        f = e["form"]
        if op == "add_constraint":
            row, rel, val = numbers(r, n), ["=", "<=", ">="][int(r[0] * 3)], int(r[1] * 10) - 2
            if bad == "a":
                row, legal = row + [1], False
            elif bad == "b":
                rel, legal = ["<", "==", ">", ""][int(r[2] * 4)], False
            elif bad == "c":
                row, legal, f = [row], False, ("float" if f == "int" else f)
            elif bad == "d":
                val, legal = [val, 1], False
            elif bad == "e":
                val, legal = [], False
            elif bad == "f":
                row, legal = row[:-1], False
            if m >= 6 and legal:
                continue
            arg = lp.arr(row, f)
            if legal:
                new.add_constraint(row, rel, val)

            def fn():
                return p.add_constraint(arg, rel, val, True)
        elif op == "add_variable":
            col, coef = numbers(r, m), int(r[0] * 9) - 4
            free, neg = r[1] < 0.35, 0.35 <= r[1] < 0.6
            if bad == "a":
                col, legal = col + [1], False
            elif bad == "b":
                free, neg, legal = True, True, False
            elif bad == "c":
                coef, legal = [coef, 1], False
            elif bad == "d":
                coef, legal = [], False
            elif bad == "e":
                col, legal, f = [[v, v + 1] for v in col], False, "list"
            elif bad == "f":
                col, legal = col[:-1], False
            elif r[2] < 0.25:
                col = None
            if n >= 9 and legal:
                continue
            arg = None if col is None else lp.arr(col, f)
            if legal:
                new.add_variable(coef, col, free, neg)

            def fn():
                return p.add_variable(coef, arg, free, neg, True)
        elif op == "to_sef":
            new.to_sef()
            if new.n > 14:
                continue

            def fn():
                return p.to_sef(e["steps"], True)
        elif op == "clear_steps":
            def fn():
                return p.clear_steps(True)
        else:
            order = sorted(range(1, n + 1), key=lambda j: r[j % 14] + j / 1000)
            basis = sorted(order[:m])
            if r[0] < 0.5 and n >= m:
                basis = list(range(n - m + 1, n + 1))
            if r[6] < 0.2 and op == "to_canonical_form":
                basis.reverse()       # the rows follow the order in which the basis is given
            if bad == "a":
                basis = basis[:-1] or [n + 1]
            elif bad == "b":
                basis = basis[:-1] + [n + 1]
            elif bad == "c" and (m <= 1 or r[4] < 0.4):
                j = int(r[5] * len(basis))
                basis = basis[:j] + [basis[j] - n] + basis[j + 1:]      # nothing counts from the end
            elif bad == "c":
                basis = basis[:-1] + basis[:1]
            if not mo.is_sef():
                legal = False
            elif len(basis) != m or max(basis) > n or min(basis) < 1 or len(set(basis)) < m:
                legal = False
                if len(set(basis)) < m and not clean:
                    continue
            else:
                sub = [[mo.A[i][j - 1] for j in basis] for i in range(m)]
                det = np.linalg.det(np.array(sub, dtype=float)) if m else 1
                if inverse(sub) is None:
                    legal = False
                    if not clean:
                        continue   # rounding decides; outside the property
                elif abs(det) < 1e-5:
                    continue
                else:
                    new.canonical(basis)
            if op == "to_canonical_form":
                def fn():
                    return p.to_canonical_form(list(basis), e["steps"], True)
            else:
                if legal:
                    red = [new.c[j - 1] for j in range(1, n + 1) if j not in basis]
                    if all(v <= 0 for v in red) and any(v < 0 for v in new.b):
                        legal = None   # the documented failure of an infeasible end

                def fn():
                    return p.simplex_iteration(list(basis), e["steps"], True)
        before = lp.snapshot(p)
        fault = e.get("fault")
        fired = False
        if fault:
            ctx.want("back-end failure")
            with seams.backend(fail={"linalg": (fault["at"], lp.EXC[fault["exc"]])}) as be:
                o = core.call(fn)
            fired = bool(be.fired)
            if fired:
                ctx.fault(f"back-end failure:{lp.EXC[fault['exc']].__name__}")
                ctx.site((be.fired[0][1], fault["at"], op))
        else:
            o = core.call(fn)
        what = f"op {k} {op}{' (invalid)' if legal is False else ''}"
        ctx.write(k, op, o.ok, None if o.ok else type(o.exc).__name__, fired)
        if not o.ok:
            if legal is True and not fired:
                raise Violation("valid-edit-rejected", f"{what} raised {type(o.exc).__name__}: {o.exc}")
            if legal is False:
                ctx.fault("rejected edit")
            d = lp.diff(before, lp.snapshot(p))
            if d:
                raise Violation("failed-edit-changed-program", f"{what} raised {type(o.exc).__name__} but: {'; '.join(d)[:600]}")
        else:
            if legal is False:
                raise Violation("invalid-edit-accepted", what)
            if legal is None:
                new = mo.copy()
                new.canonical(basis)
            if op in ("to_canonical_form", "simplex_iteration"):
                clean = False
            got = o.value[2] if op == "simplex_iteration" else o.value
            if got is not p:
                raise Violation("not-in-place", f"{what} did not return the edited program")
            mo = new
            if wild(mo):
                ctx.probe("history stopped at large numbers")
                return
            d = compare(p, mo)
            if d:
                raise Violation("wrong-state", f"after {what}: {'; '.join(d)[:600]}")
        ctx.state(lp.snapshot(p))
        # whatever is asked next is answered from the current state
        if e["query"] and clean:
            s2 = {"cls": spec["cls"]}
            fresh = type(p)(p.A.copy(), p.b.copy(), p.c.copy(), p.z, p.objective, p.inequalities, p.free_variables, p.negative_variables)
            q = {"op": e["query"], "form": "float", "steps": False, "x": [abs(v) for v in numbers(r, mo.n)]}
            a = lp.outcome(core.reference(lambda: lp.Query(q).run(fresh)))
            g = lp.outcome(core.call(lambda: lp.Query(q).run(p)))
            if a != g:
                raise Violation("stale-answer", f"{q['op']} after {what}: {g}, a fresh equal program says {a}")
            d = lp.diff(lp.snapshot(fresh), lp.snapshot(p))
            if d:
                raise Violation("program-changed", f"{q['op']} after {what}: {'; '.join(d)[:400]}")
