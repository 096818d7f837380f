"""C20: the checks of points, bases and certificates tell the truth, whatever rounding, failures, histories and schedules."""
import itertools
from fractions import Fraction as Fr

import numpy as np

from .. import core, lp, seams
from ..core import Violation
from ..lpmodel import Model, inverse

LISTS = ("edits", "queries", "clients", "segs")
INTS = ("segs",)
OPS = ["is_feasible"] * 3 + ["is_basis"] * 2 + ["is_basic_solution"] * 2 + ["is_feasible_basic_solution"] * 2 + [
    "is_basis_feasible", "compute_basic_solution", "is_canonical_form_for", "verify_infeasibility", "verify_infeasibility",
    "verify_unboundedness", "verify_unboundedness", "verify_optimality", "verify_optimality", "value_of", "evaluate"]


def planted(rng):
    """A program in standard equality form together with points and certificates that are valid, or nearly so."""
    n = rng.randint(2, 5)
    m = rng.randint(1, min(3, n))
    A = [[rng.choice([0, 0, 1, -1, 2, -2, 3, 0.5]) for _ in range(n)] for _ in range(m)]
    b = [rng.randint(-4, 6) for _ in range(m)]
    c = [rng.randint(-4, 4) for _ in range(n)]
    style = rng.choice(["unbounded", "infeasible", "optimal", "canonical"])
    spec = {"z": rng.choice([0, 3, -2.5]), "obj": "max", "free": [], "neg": [], "ineq": None}
    if style == "unbounded":
        d = [rng.choice([0, 0, 1, 2]) for _ in range(n)]
        j = rng.randrange(n)
        d[j] = 1
        x = [rng.choice([0, 1, 3]) for _ in range(n)]
        for i in range(m):
            A[i][j] = -sum(A[i][k] * d[k] for k in range(n) if k != j)
            b[i] = sum(p * q for p, q in zip(A[i], x))
        if rng.random() < 0.8:
            c[j] = rng.choice([1, 2, 0.5]) - sum(c[k] * d[k] for k in range(n) if k != j)
        spec["dirs"], spec["xs"] = [d], [x]
    elif style == "infeasible":
        y = [rng.choice([-2, -1, 1, 2]) for _ in range(m)]
        i = rng.randrange(m)
        y[i] = rng.choice([1, -1])
        for j in range(n):
            A[i][j] = y[i] * (rng.choice([0, 0, 1, 2]) - sum(y[k] * A[k][j] for k in range(m) if k != i))
        b[i] = y[i] * (-rng.choice([0, 1, 1, 2, 0.5]) - sum(y[k] * b[k] for k in range(m) if k != i))
        spec["ys"] = [y]
    elif style == "optimal":
        y = [rng.choice([-2, -1, 0, 1, 2]) for _ in range(m)]
        c = [sum(y[i] * A[i][j] for i in range(m)) - rng.choice([0, 0, 1, 3]) for j in range(n)]
        spec["ys"] = [y]
    else:
        basis = sorted(rng.sample(range(n), m))
        for i in range(m):
            for k, j in enumerate(basis):
                A[i][j] = int(i == k)
        for j in basis:
            c[j] = 0
        if rng.random() < 0.3:
            c[rng.choice(basis)] = 1
        spec["bases"] = [[j + 1 for j in basis]]
    spec.update(A=A, b=b, c=c, form=rng.choice(["list", "float", "fortran", "strided"]), cls=rng.choice(["lp", "lp", "ip"]))
    if spec["form"] == "float" and core.rng_for("precision", A, b).random() < 0.4:
        spec["form"] = "single"
    return spec


def generate(rng, tier):
    spec = planted(rng) if rng.random() < 0.6 else lp.gen_spec(rng, rows=(1, 3), cols=(1, 4), wide=True)
    den = 1
    if len(spec["A"]) < 4 and len(spec["c"]) < 9 and rng.random() < 0.25:       # points with coordinates that are not floats
        den = rng.choice([3, 7, 10])
        spec["A"] = [[v * den for v in r] for r in spec["A"]]
    edits = []
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3])):
        edits.append({"op": rng.choice(["copy", "grow", "row", "column", "to_sef", "to_sef", "canonical", "rejected", "cut short"]),
                      "seed": rng.randrange(1 << 30)})
    queries = []
    for _ in range(rng.randint(3, 9)):
        q = {"op": rng.choice(OPS), "seed": rng.randrange(1 << 30), "noise": rng.choice([0, 0, 0.5, 1, 4, 16]), "bias": rng.choice([0, 0, 1, -1]),
             "form": rng.choice(["list", "list", "float", "fortran"])}
        if rng.random() < 0.4:
            q["fault"] = lp.gen_fault(rng)
        queries.append(q)
    clients = [[rng.randrange(len(queries)) for _ in range(rng.choice([1, 2, 3]))] for _ in range(rng.choice([0, 0, 2, 3]))]
    return {"spec": spec, "den": den, "edits": edits, "queries": queries, "clients": clients,
            "gran": "instr" if rng.random() < 0.3 else "line", "segs": core.gen_segs(rng, max(1, len(clients)))}


# three-valued comparisons of exact values with what floating point must report; None: rounding decides
def ge0(v):
    return True if v >= -Fr(1, 10 ** 12) else False if v < -Fr(1, 10 ** 4) else None


def gt0(v):
    return False if v <= Fr(1, 10 ** 12) else True if v > Fr(1, 10 ** 4) else None


def eq(v, w):
    d, s = abs(v - w), 1 + abs(w)
    return True if d <= Fr(1, 10 ** 12) * s else False if d > s / 1000 else None


def both(*ts):
    ts = list(ts)
    return False if any(t is False for t in ts) else None if any(t is None for t in ts) else True


def dot(a, b):
    return sum((p * q for p, q in zip(a, b)), Fr(0))


def feasible(mo, x):
    ts = []
    for j, v in enumerate(x):
        if j + 1 in mo.neg:
            ts.append(ge0(-v))
        elif j + 1 not in mo.free:
            ts.append(ge0(v))
    for r, b, rel in zip(mo.A, mo.b, mo.ineq):
        v = dot(r, x)
        e = eq(v, b)
        if rel == "=" or e is not False:
            ts.append(e)
        else:
            ts.append(v < b if rel == "<=" else v > b)
    return both(*ts)


def is_basis(mo, basis):
    if len(basis) != mo.m or len(set(basis)) != len(basis) or min(basis) < 1 or max(basis) > mo.n:
        return False
    sub = [[r[j - 1] for j in sorted(basis)] for r in mo.A]
    big = float(max(abs(v) for r in sub for v in r)) or 1.0
    if inverse(sub) is None:
        return False if big ** mo.m * 1e-14 < 1e-10 else None
    det = abs(np.linalg.det(np.array(sub, dtype=float)))
    return True if det > 1e-5 and det > 1e-9 * big ** mo.m else None


def basic(mo, x, basis):
    return both(*[eq(x[j], Fr(0)) for j in range(mo.n) if j + 1 not in basis], *[eq(dot(r, x), b) for r, b in zip(mo.A, mo.b)])


def basic_point(mo, basis):
    inv = inverse([[r[j - 1] for j in sorted(basis)] for r in mo.A])
    x = [Fr(0)] * mo.n
    for k, j in enumerate(sorted(basis)):
        x[j - 1] = dot(inv[k], mo.b)
    return x


class Question:
    """A query with its arguments and the true answer; "raise" when the request is one the operation refuses."""

    def __init__(self, q, mo, plan, p):
        rng = core.rng_for("question", q["seed"])
        spec, den, self.op = plan["spec"], plan["den"], q["op"]
        m, n = mo.m, mo.n
        sef = mo.is_sef()

        def vary(v):
            v = list(v)
            r = rng.random()
            if r < 0.45 or not v:
                return v
            if r < 0.8:
                j = rng.randrange(len(v))
                v[j] += rng.choice([1, -1]) * Fr(rng.choice([1, 1, 2, 5]), rng.choice([1, 2, den]))
                return v
            if r < 0.9:
                return [2 * t for t in v]
            return [-t for t in v]

        def point():
            known = [x for x in spec.get("xs", []) if len(x) == n]
            if known and rng.random() < 0.7:
                return vary([Fr(t, 1) / den for t in rng.choice(known)])
            if sef and rng.random() < 0.6:
                B = basis()
                if is_basis(mo, B):
                    return vary(basic_point(mo, B))
            return [Fr(rng.choice([0, 0, 1, 2, -1, 3]), rng.choice([1, 1, den])) * (-1 if j + 1 in mo.neg else 1) for j in range(n)]

        def basis():
            known = spec.get("bases", [])
            if known and rng.random() < 0.6:
                B = list(rng.choice(known))
            else:
                B = rng.sample(range(1, n + 1), min(m, n))
            if m == n and rng.random() < 0.5:
                B = list(range(1, n + 1))
            if rng.random() < 0.25 and B:
                j = rng.randrange(len(B))
                B[j] = rng.choice([0, -1, n + 1, B[0], rng.randint(1, n)])
            elif rng.random() < 0.08:
                B = B[:-1] or [1, 2]
            if rng.random() < 0.5:
                B.sort()
            return B

        def rows():
            known = [y for y in spec.get("ys", []) if len(y) == m]
            if known and rng.random() < 0.8:
                return vary([Fr(t) / den for t in rng.choice(known)])
            return [Fr(rng.randint(-2, 2)) for _ in range(m)]

        self.args, self.truth = [], None
        if self.op in ("is_feasible", "value_of", "evaluate"):
            x = point()
            if rng.random() < 0.06:
                x = x + [Fr(1)] if rng.random() < 0.5 or len(x) < 2 else x[:-1]
            self.args = [x]
            if len(x) != n:
                self.truth = "raise"
            elif self.op == "is_feasible":
                self.truth = feasible(mo, x)
            elif self.op == "evaluate":
                self.truth = ("number", float(mo.value(x)))
            else:
                f = feasible(mo, x)
                self.truth = ("number", float(mo.value(x))) if f else "raise" if f is False else None
        elif self.op in ("is_basis", "is_basis_feasible", "compute_basic_solution", "is_canonical_form_for"):
            B = basis()
            self.args = [B]
            t = is_basis(mo, B)
            ok = len(B) > 0 and min(B) >= 1 and max(B) <= n
            if self.op == "is_basis":
                self.truth = t
            elif t is None:
                self.truth = None
            elif self.op == "is_basis_feasible":
                self.truth = both(*[ge0(v) for v in basic_point(mo, B)]) if t else False
            elif self.op == "compute_basic_solution":
                self.truth = ("vector", [float(v) for v in basic_point(mo, B)]) if t else "raise"
            elif not t:
                self.truth = False if ok else "not true"
            else:
                S = B
                self.truth = both(*[eq(mo.A[i][j - 1], Fr(int(i == k))) for i in range(m) for k, j in enumerate(S)],
                                  *[eq(mo.c[j - 1], Fr(0)) for j in S])
        elif self.op in ("is_basic_solution", "is_feasible_basic_solution"):
            B, x = basis(), point()
            t = is_basis(mo, B)
            if t and rng.random() < 0.7:
                x = vary(basic_point(mo, B))
            self.args = [x, B]
            if not sef:
                self.truth = "raise" if self.op == "is_basic_solution" else "not true"
            elif t is None:
                self.truth = None
            elif not t:
                self.truth = "not true"
            else:
                self.truth = basic(mo, x, B)
                if self.op == "is_feasible_basic_solution":
                    self.truth = both(self.truth, *[ge0(v) for v in x])
        else:
            cert = None
            if sef and rng.random() < 0.35:      # the certificate the two-phase method gives
                o = core.call(lambda: p.copy().two_phase_simplex(False)[2])
                if o.ok and o.value is not None:
                    cert = o.value
            if self.op == "verify_unboundedness":
                if isinstance(cert, tuple):
                    x, d = [[Fr(float(t)) for t in v] for v in cert]
                    x, d = vary(x), vary(d)
                else:
                    x = point()
                    known = [d for d in spec.get("dirs", []) if len(d) == n]
                    d = [Fr(t) / den for t in rng.choice(known)] if known and rng.random() < 0.8 else [Fr(rng.choice([0, 1, 2])) for _ in range(n)]
                    d = vary(d)
                self.args = [x, d]
                self.truth = both(feasible(mo, x), *[ge0(v) for v in d], *[eq(dot(r, d), Fr(0)) for r in mo.A], gt0(dot(mo.c, d)))
            else:
                y = vary([Fr(float(t)) for t in cert]) if cert is not None and not isinstance(cert, tuple) else rows()
                self.args = [y]
                yA = [dot(y, [r[j] for r in mo.A]) for j in range(n)]
                if self.op == "verify_infeasibility":
                    self.truth = both(*[ge0(v) for v in yA], gt0(-dot(y, mo.b)))
                else:
                    self.truth = both(*[ge0(v - w) for v, w in zip(yA, mo.c)])
            if not sef:
                self.truth = "raise"
        self.form, self.wrong, self.which = q["form"], None, 0
        if self.truth not in (None, "raise") and not isinstance(self.args[0][0], int):
            odd = core.rng_for("wrong argument", q["seed"])
            if odd.random() < 0.1:
                self.wrong = odd.choice(["short", "long", "row", "column", "stack", "complex"])
                self.which = odd.randrange(len(self.args)) if self.op.startswith("verify") else 0
                self.truth = "raise"

    def give(self):
        out = []
        for k, a in enumerate(self.args):
            if a and all(isinstance(t, int) for t in a):
                out.append(list(a))
                continue
            a = [float(t) for t in a]
            w = self.wrong if k == self.which else None
            if w == "short":
                a = a[:-1]
            elif w == "long":
                a = a + [0.0]
            if w == "complex":
                out.append(np.array(a) + 1j)
            elif w in ("row", "stack"):
                out.append([list(a) for _ in range(1 if w == "row" else len(a) + 1)])
            elif w == "column":
                out.append([[t, t] for t in a])
            else:
                out.append(lp.arr(a, self.form))
        return out

    def run(self, p):
        a = self.give()
        return getattr(p, self.op)(*a)

    def judge(self, what, o, fired=False):
        t = self.truth
        if t is None:
            return
        what = f"{what}: {self.op}({', '.join(str([float(v) for v in a]) for a in self.args)})" + (f" with a {self.wrong} argument {self.which + 1}" if self.wrong else "")
        if not o.ok:
            if fired or t in ("raise", "not true"):
                return
            raise Violation("unexpected-error", f"{what} raised {type(o.exc).__name__}: {o.exc}; the truth is {t}")
        v = o.value
        if t == "raise":
            raise Violation("accepted", f"{what} returned {core.norm(v)} for a request it cannot answer")
        if isinstance(t, tuple):
            want = np.asarray(t[1], dtype=float)
            got = np.asarray(v, dtype=float) if v is not None else None
            if got is None or got.shape != want.shape or not np.all(np.abs(got - want) <= 1e-6 * (1 + np.max(np.abs(want)))):
                raise Violation("wrong-verdict", f"{what} is {core.norm(v)}, in truth {t[1]}")
        elif t == "not true":
            if v is not False and not (isinstance(v, np.bool_) and not v):
                raise Violation("wrong-verdict", f"{what} is {v!r} though there is no such basis or program form")
        elif not isinstance(v, (bool, np.bool_)) or bool(v) != t:
            raise Violation("wrong-verdict", f"{what} is {v!r}, in truth {t}")


def battery(p, mo):
    """Questions asked in the middle of the history; what they answered then must not matter later."""
    for B in list(itertools.combinations(range(1, mo.n + 1), min(mo.m, mo.n)))[:8]:
        for op in ("is_basis", "is_basis_feasible", "is_canonical_form_for"):
            core.call(lambda: getattr(p, op)(list(B)))
    for x in ([0] * mo.n, [1] * mo.n):
        core.call(lambda: p.is_feasible(x))
        core.call(lambda: p.verify_unboundedness(x, [1] * mo.n))
    core.call(lambda: p.verify_infeasibility([1] * mo.m))
    core.call(lambda: p.verify_optimality([1] * mo.m))


def prepare(plan, ctx, ask=battery):
    """The program after its history, with the exact model of what it now is."""
    spec = plan["spec"]
    mo = Model.of(spec)
    p = core.must("construction", lambda: lp.build(spec))
    for k, e in enumerate(plan["edits"]):
        rng = core.rng_for("edit", e["seed"])
        op = e["op"]
        if rng.random() < 0.6:
            ask(p, mo)
        if op == "copy":
            p = core.must("copy", p.copy)
        elif op in ("row", "grow") and mo.m < 4:
            row, rel, v = [rng.choice([0, 1, -1, 2]) for _ in range(mo.n)], rng.choice(["<=", ">=", "="]), rng.randint(-1, 6)
            if op == "grow":
                p = core.must("add_constraint", lambda: p.add_constraint(row, rel, v))
            else:
                core.must("add_constraint", lambda: p.add_constraint(row, rel, v, True))
            mo.add_constraint(row, rel, v)
        elif op == "column" and mo.n < 6:
            col, f = [rng.choice([0, 1, -1, 2]) for _ in range(mo.m)], rng.random()
            core.must("add_variable", lambda: p.add_variable(1, col, f < 0.3, 0.3 <= f < 0.5, True))
            mo.add_variable(1, col, f < 0.3, 0.3 <= f < 0.5)
        elif op == "to_sef" and mo.n < 5:
            core.must("to_sef", lambda: p.to_sef(False, True))
            mo.to_sef()
        elif op == "canonical" and mo.is_sef():
            B = rng.sample(range(1, mo.n + 1), min(mo.m, mo.n))
            if rng.random() < 0.6:
                B.sort()
            if is_basis(mo, B):
                core.must("to_canonical_form", lambda: p.to_canonical_form(B, False, True))
                mo.canonical(B)
                plan["spec"].setdefault("bases", []).append(B)
        elif op == "rejected":
            core.call(lambda: p.add_constraint([1] * (mo.n + 1), "<=", 1, True))
        elif op == "cut short":
            o = core.call(lambda: p.two_phase_simplex() if mo.is_sef() else p.solve(), at=rng.randint(1, 120))
            if o.hit:
                ctx.fault("interrupt")
    return p, mo


def execute(plan, ctx):
    import copy
    plan = copy.deepcopy(plan)
    p, mo = prepare(plan, ctx)
    if any(abs(v) > 5000 or (v and abs(v) < Fr(1, 1000)) for r in mo.A + [mo.b, mo.c] for v in r):
        raise core.Skip("large numbers")
    qs = [Question(q, mo, plan, p) for q in plan["queries"]]
    for k, (q, Q) in enumerate(zip(plan["queries"], qs)):
        ctx.state(Q.op, str(Q.truth), [[str(v) for v in a] for a in Q.args])
        with seams.backend(noise=q["noise"], noise_seed=q["seed"], bias=q["bias"]) as b:
            o = core.call(lambda: Q.run(p))
        if b.perturbed:
            ctx.fault("rounding perturbation", b.perturbed)
        ctx.write(k, Q.op, o.ok, str(Q.truth))
        ctx.probe(f"{Q.op} {Q.truth if isinstance(Q.truth, (bool, str)) else 'value' if Q.truth else 'undecided'}")
        Q.judge(f"query {k} (noise {q['noise']} ulps)", o)
        if "fault" in q:
            _, o = lp.faulted(ctx, q["fault"], lambda: Q.run(p), lambda: Q.run(p.copy()))
            Q.judge(f"query {k} with {q['fault']['kind']} at {o.hit}", o, bool(o.hit))
            if o.hit and o.ok and q["fault"]["kind"] == "int" and q["fault"]["exc"] == "int":
                raise Violation("failure-hidden", f"query {k} {Q.op} returned although it was interrupted at {o.hit}")
            Q.judge(f"query {k} again after {q['fault']['kind']}", core.call(lambda: Q.run(p)))
    if len(plan["clients"]) < 2:
        return
    sched = core.Scheduler(plan["segs"], plan["gran"], 6_000_000, ctx=ctx)
    results = []

    def client(i):
        def body(me):
            for k in plan["clients"][i]:
                if k < len(qs):
                    results.append((i, k, core.guarded(sched, lambda: qs[k].run(p))))
                    sched.yield_point()
        return body
    sched.run([client(i) for i in range(len(plan["clients"]))])
    n = sum(x[2] != "exit" for x in sched.switches)
    if n:
        ctx.fault("preemption", n)
    for i, k, o in results:
        qs[k].judge(f"client {i}, query {k}", o)
