"""Generators, builders, snapshots and the catalogue of non-in-place operations of programs."""
import numpy as np

from . import core, seams
from .core import norm

seams.install()
import sys  # noqa: E402

if core.REPO not in sys.path:
    sys.path.insert(0, core.REPO)
from pytimize.programs import IntegerProgram, LinearProgram  # noqa: E402
import pytimize  # noqa: E402

if not pytimize.__file__.startswith(core.REPO + "/"):
    raise core.HarnessError(f"pytimize imported from {pytimize.__file__}")


WIDE = 0.03


def gen_spec(rng, rows=(1, 4), cols=(1, 4), sef=None, ip=None, half=0.15, mag=5, wide=False):
    if wide and rng.random() < WIDE:
        rows, cols = rng.choice([((3, 6), (5, 10)), ((3, 6), (5, 10)), ((5, 9), (1, 4)), ((1, 2), (9, 14))])
    m, n = rng.randint(*rows), rng.randint(*cols)
    if sef is None:
        sef = rng.random() < 0.35
    if sef and n < m:
        m, n = n, m

    def num(p0=0.25):
        if rng.random() < p0:
            return 0
        v = rng.randint(-mag, mag)
        if rng.random() < half:
            v += 0.5
        return v

    A = [[num() for _ in range(n)] for _ in range(m)]
    if sef and rng.random() < 0.6:
        # make sure a unit basis exists
        for i in range(m):
            A[i].append(rng.choice([1, 1, 1, -1]))
            for k in range(m):
                if k != i:
                    A[k].append(0)
        n += m
    b = [num(0.15) for _ in range(m)]
    if rng.random() < 0.5:
        b = [abs(v) for v in b]
    c = [num() for _ in range(n)]
    z = rng.choice([0, 0, 3, -7, 2.5])
    spec = dict(A=A, b=b, c=c, z=z, obj="max", ineq=None, free=[], neg=[])
    if not sef:
        spec["obj"] = rng.choice(["max", "min"])
        style = rng.random()
        rels = ["<="] if style < 0.25 else [">="] if style < 0.35 else ["<=", ">=", "="]
        spec["ineq"] = [rng.choice(rels) for _ in range(m)]
        if rng.random() < 0.6:
            for j in range(1, n + 1):
                r = rng.random()
                if r < 0.2:
                    spec["free"].append(j)
                elif r < 0.45:
                    spec["neg"].append(j)
        rng.shuffle(spec["free"])
        rng.shuffle(spec["neg"])
    else:
        spec["ineq"] = rng.choice([None, ["="] * m])
    if rng.random() < 0.35:
        # right-hand sides chosen around two points, which are feasible if relations allow
        xs = []
        for _ in range(2):
            x = [0 if rng.random() < 0.35 else rng.randint(1, 4) for _ in range(n)]
            xs.append([(-v if j + 1 in spec["neg"] else v * rng.choice([1, -1]) if j + 1 in spec["free"] else v) for j, v in enumerate(x)])
        for i, row in enumerate(A):
            v = [sum(p * q for p, q in zip(row, x)) for x in xs]
            rel = "=" if spec["ineq"] is None else spec["ineq"][i]
            b[i] = v[0] if rel == "=" else max(v) + rng.choice([0, 0, 1, 3]) if rel == "<=" else min(v) - rng.choice([0, 0, 1, 3])
        spec["xs"] = xs
    spec["form"] = rng.choice(["list", "float", "int", "fortran", "float", "strided", "list", "float", "readonly"])
    if spec["form"] == "float" and core.rng_for("precision", spec["A"], spec["b"]).random() < 0.3:
        spec["form"] = "single"
    spec["cls"] = "ip" if (ip if ip is not None else rng.random() < 0.3) else "lp"
    return spec


def has_half(x):
    return any(has_half(v) for v in x) if isinstance(x, list) else x != int(x)


def arr(v, form):
    """The caller's array in one of the forms the constructor and queries accept."""
    if form == "list":
        return [list(r) if isinstance(r, list) else r for r in v]
    if form == "int" and not has_half(v):
        return np.array(v, dtype=int)
    if form == "fortran":
        return np.array(v, dtype=float, order="F")
    if form == "single":        # single precision where it holds the numbers exactly
        a = np.array(v, dtype=np.float32)
        if (a == np.array(v, dtype=float)).all():
            return a
    if form == "readonly":
        # the caller's array cannot be written through this view of it, but through another
        view = np.array(v, dtype=float)[...]
        view.flags.writeable = False
        return view
    if form == "strided":
        a = np.array(v, dtype=float)
        big = np.zeros([2 * s for s in a.shape])
        view = big[tuple(slice(0, 2 * s, 2) for s in a.shape)]
        view[...] = a
        return view
    return np.array(v, dtype=float)


def build_args(spec):
    f = spec["form"]
    return dict(A=arr(spec["A"], f), b=arr(spec["b"], f), c=arr(spec["c"], f), z=spec["z"], objective=spec["obj"],
                inequalities=None if spec["ineq"] is None else list(spec["ineq"]),
                free_variables=list(spec["free"]), negative_variables=list(spec["neg"]))


def build(spec, args=None):
    a = args or build_args(spec)
    cls = IntegerProgram if spec["cls"] == "ip" else LinearProgram
    more = {"integral_variables": list(spec["integral"])} if spec.get("integral") is not None else {}
    return cls(a["A"], a["b"], a["c"], a["z"], a["objective"], a["inequalities"], a["free_variables"], a["negative_variables"], **more)


def freeze(x):
    """Exact, comparable copy of an argument or of program data (-0.0 and 0.0 are the same number)."""
    if isinstance(x, np.ndarray):
        return ("array", x.shape, tuple(x.ravel().tolist()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(freeze(v) for v in x)
    if isinstance(x, dict):
        return ("d",) + tuple((k, freeze(v)) for k, v in sorted(x.items()))
    if isinstance(x, (set, frozenset)):
        return ("s",) + tuple(sorted(map(repr, x)))
    return x


FIELDS = ["A", "b", "c", "z", "objective", "inequalities", "free_variables", "negative_variables",
          "positive_variables", "is_sef"]


def snapshot(p):
    return tuple(freeze(getattr(p, f)) for f in FIELDS)


def diff(s, t):
    return [f"{n}: {a} -> {b}" for n, a, b in zip(FIELDS, s, t) if a != b]


def nvars(spec):
    return len(spec["c"])


# ---- catalogue of non-in-place operations --------------------------------------------------
def gen_query(rng, spec, names=None, light=False):
    n, m = len(spec["c"]), len(spec["b"])
    ip = spec["cls"] == "ip"
    pool = names or (["solve"] * 4 + ["optimal_value", "two_phase_simplex", "two_phase_simplex", "simplex", "simplex",
                     "simplex_iteration", "to_sef", "to_sef", "to_canonical_form", "dual", "dual", "auxiliary", "is_feasible",
                     "is_feasible", "is_basis", "is_basis_feasible", "compute_basic_solution", "is_basic_solution",
                     "is_feasible_basic_solution", "evaluate", "value_of", "verify_infeasibility",
                     "verify_unboundedness", "verify_optimality", "repr", "copy", "add_constraint",
                     "add_variable", "cs_conditions", "is_canonical_form_for", "properties", "to_rref", "clear_steps",
                     "is_solution_optimal", "steps_string"]
                     + (["branch_and_bound", "branch_and_bound", "relax", "relax"] if ip else []))
    op = rng.choice(pool)
    form = rng.choice(["list", "float", "int"])

    def vec(k, lo=-3, hi=6):
        v = whole(k, lo, hi)
        if rng.random() < 0.06:
            # what arithmetic leaves behind where a zero should be
            v = [x + rng.choice([0, 3e-13, -2e-14, 1e-15]) for x in v]
        return v

    def whole(k, lo, hi):
        s = rng.random()
        if s < 0.4:
            return [rng.randint(0, hi) for _ in range(k)]
        if s < 0.5:
            return [0] * k
        return [rng.randint(lo, hi) for _ in range(k)]

    basis = rng.sample(range(1, n + 1), min(m, n))
    if n >= m and rng.random() < 0.4:
        basis = list(range(n - m + 1, n + 1))  # trailing unit columns if any
    if rng.random() < 0.1:
        basis = basis[:-1] or [n + 1]
    if rng.random() < 0.5:
        basis.sort()
    q = dict(op=op, form=form, steps=rng.random() < 0.5)
    if op in ("simplex", "simplex_iteration", "to_canonical_form", "is_basis", "is_basis_feasible",
              "compute_basic_solution", "is_basic_solution", "is_feasible_basic_solution", "is_canonical_form_for"):
        q["basis"] = basis
    if op in ("is_feasible", "evaluate", "value_of", "is_basic_solution", "is_feasible_basic_solution",
              "verify_unboundedness", "is_solution_optimal"):
        q["x"] = vec(n if rng.random() < 0.95 else n + 1)
    if "x" in q and "xs" in spec and len(q["x"]) == n and rng.random() < 0.6:
        q["x"] = list(rng.choice(spec["xs"]))
    if op in ("verify_infeasibility", "verify_optimality"):
        q["y"] = vec(m)
    if op == "verify_unboundedness":
        q["y"] = vec(n)
    if op == "add_constraint":
        q.update(row=vec(n), rel=rng.choice(["=", "<=", ">="]), value=rng.randint(-3, 9))
    if op == "add_variable":
        s = rng.random()
        q.update(coef=rng.randint(-3, 3), col=vec(m) if rng.random() < 0.7 else None, free=s < 0.3, neg=0.3 <= s < 0.6)
    return q


class Query:
    """One operation with its (possibly shared) argument objects."""

    def __init__(self, q, store=None):
        self.q = q
        f = q["form"]
        st = store if store is not None else {}

        def get(key, conv):
            if key not in q or q[key] is None:
                return None
            k = (key, repr(q[key]), f)
            if k not in st:
                st[k] = conv(q[key])
            return st[k]
        self.basis = get("basis", list)
        self.x = get("x", lambda v: arr(v, f))
        self.y = get("y", lambda v: arr(v, f))
        self.row = get("row", lambda v: arr(v, f))
        self.col = get("col", lambda v: arr(v, f))

    def args(self):
        return {k: freeze(getattr(self, k)) for k in ("basis", "x", "y", "row", "col")}

    def run(self, p):
        q, op, s = self.q, self.q["op"], self.q["steps"]
        if op == "solve":
            return p.solve(s)
        if op == "optimal_value":
            return p.optimal_value()
        if op == "two_phase_simplex":
            return p.two_phase_simplex(s)
        if op == "simplex":
            return p.simplex(self.basis, s)
        if op == "simplex_iteration":
            return p.simplex_iteration(self.basis, s)
        if op == "to_sef":
            return p.to_sef(s)
        if op == "to_canonical_form":
            return p.to_canonical_form(self.basis, s)
        if op == "dual":
            return p.dual(s)
        if op == "auxiliary":
            return p.auxiliary(s)
        if op == "is_feasible":
            return p.is_feasible(self.x, s)
        if op == "is_basis":
            return p.is_basis(self.basis)
        if op == "is_basis_feasible":
            return p.is_basis_feasible(self.basis)
        if op == "compute_basic_solution":
            return p.compute_basic_solution(self.basis)
        if op == "is_basic_solution":
            return p.is_basic_solution(self.x, self.basis, s)
        if op == "is_feasible_basic_solution":
            return p.is_feasible_basic_solution(self.x, self.basis)
        if op == "evaluate":
            return p.evaluate(self.x)
        if op == "value_of":
            return p.value_of(self.x)
        if op == "verify_infeasibility":
            return p.verify_infeasibility(self.y, s)
        if op == "verify_optimality":
            return p.verify_optimality(self.y, s)
        if op == "verify_unboundedness":
            return p.verify_unboundedness(self.x, self.y, s)
        if op == "repr":
            return repr(p)
        if op == "copy":
            return p.copy()
        if op == "add_constraint":
            return p.add_constraint(self.row, q["rel"], q["value"])
        if op == "add_variable":
            return p.add_variable(q["coef"], self.col, q["free"], q["neg"])
        if op == "cs_conditions":
            return p.cs_conditions()
        if op == "is_canonical_form_for":
            return p.is_canonical_form_for(self.basis)
        if op == "properties":
            return [getattr(p, f) for f in FIELDS]
        if op == "to_rref":
            return p.to_rref(p.A)
        if op == "clear_steps":
            return p.clear_steps()
        if op == "is_solution_optimal":
            return p.is_solution_optimal(self.x)
        if op == "steps_string":
            return (p.steps_string, None)[1]
        if op == "branch_and_bound":
            return p.branch_and_bound()
        if op == "relax":
            return p.relax()
        raise core.HarnessError(op)


def result(v):
    """Comparable form of an operation's result; programs by content."""
    if isinstance(v, LinearProgram):
        return ("program", type(v).__name__, norm([getattr(v, f) for f in FIELDS]))
    if isinstance(v, tuple):
        return tuple(result(x) for x in v)
    return norm(v)


def outcome(o):
    return ("ok", result(o.value)) if o.ok else ("raise", type(o.exc).__name__)


def is_program(v):
    return isinstance(v, LinearProgram)


# ---- shared helpers ---------------------------------------------------------------------------
def boxed(spec, rng, hi=3):
    """Adds bounds that make the feasible region finite."""
    n = len(spec["c"])
    if spec["ineq"] is None:
        spec["ineq"] = ["="] * len(spec["b"])
    for j in range(1, n + 1):
        e = [1 if k == j else 0 for k in range(1, n + 1)]
        u = rng.randint(1, hi)
        if j not in spec["neg"]:
            spec["A"].append(e)
            spec["ineq"].append("<=")
            spec["b"].append(u)
        if j in spec["neg"] or j in spec["free"]:
            spec["A"].append(e)
            spec["ineq"].append(">=")
            spec["b"].append(-u)
    return spec


def gen_program(rng):
    """A program for the state-preservation properties, with the pool of operations that fit it."""
    if rng.random() < 0.18:
        spec = gen_spec(rng, rows=(1, 2), cols=(1, 2), sef=False, ip=True, half=0.05)
        boxed(spec, rng, 2)
        return spec, ["branch_and_bound"]
    spec = gen_spec(rng, wide=True)
    return spec, []


POOL_EXCLUDED_FOR_IP = {"branch_and_bound"}


def gen_ops(rng, spec, extra, k):
    out = []
    for _ in range(k):
        if extra and rng.random() < 0.5:
            out.append(gen_query(rng, spec, extra))
            continue
        while True:
            q = gen_query(rng, spec)
            if q["op"] != "branch_and_bound" or extra:
                break
        out.append(q)
    return out


EXC = {"int": core.SimInterrupt, "async": core.SimAsyncError, "linalg": np.linalg.LinAlgError, "fpe": FloatingPointError,
       "mem": MemoryError}


ARRIVAL = {"int": "interrupt", "async": "async-exception", "mem": "out of memory at any line"}


def gen_fault(rng):
    r = rng.random()
    u, v = rng.randrange(1000000) / 1000000, rng.randrange(1000000) / 1000000
    if r < 0.12:
        return {"kind": "none"}
    if r < 0.62:
        return {"kind": "int", "u": u, "v": v, "gran": "instr" if rng.random() < 0.2 else "line",
                "exc": rng.choice(["int", "int", "int", "async", "async", "mem"])}
    if r < 0.84:
        return {"kind": "linalg", "u": u, "exc": rng.choice(["linalg", "linalg", "fpe", "mem"])}
    return {"kind": "alloc", "u": u, "exc": "mem"}


def faulted(ctx, fault, fn, dry, budget=6_000_000):
    """Runs fn with the fault. `dry` is an equivalent call on a clone; it locates the fault point and
    gives the undisturbed outcome. Returns (undisturbed outcome, outcome)."""
    kind = fault["kind"]
    ctx.want(kind)
    trace = []
    with seams.backend() as b:
        try:
            if kind == "int":
                twin = core.call(dry, budget, gran=fault["gran"], record=trace)
            else:
                twin = core.call(dry, budget)
        except core.Violation:
            raise core.Skip("reference run too long") from None
    if kind == "int":
        at = core.pick_event(trace, fault["u"], fault["v"])
        o = core.call(fn, budget, at=at, exc=EXC[fault["exc"]], gran=fault["gran"])
        if o.hit:
            ctx.fault(ARRIVAL[fault["exc"]])
            ctx.site(o.hit)
            ctx.write("interrupt", at, o.hit)
        return twin, o
    n = b.count.get(kind, 0)
    if n == 0:
        return twin, core.call(fn, budget)
    at = min(int(fault["u"] * n), n - 1) + 1
    with seams.backend(fail={kind: (at, EXC[fault["exc"]])}) as b:
        o = core.call(fn, budget)
    if b.fired:
        ctx.fault({"linalg": "back-end failure", "alloc": "allocation failure"}[kind] + ":" + EXC[fault["exc"]].__name__)
        ctx.site((b.fired[0][1], at))
        ctx.write("failed", b.fired[0][1], at)
        o.hit = b.fired[0]
    return twin, o
