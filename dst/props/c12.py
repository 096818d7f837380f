"""C12: expressions are values. Shared subexpressions composed by one or several threads, with interrupts and bad operands."""
from .. import core, lp
from ..core import Violation
from pytimize.formulations import integer, linear

LISTS = ("pool", "clients", "ops", "segs", "long")
INTS = ("segs",)
FRONTS = {"linear": linear, "integer": integer}     # both modules compose objectives
NUMS = [0, 0, 1, -1, 2, 3, -4, 0.5, -2.5, 1.0, 7]
BAD = ["text", "none", "list", "expr*expr", "dict", "tuple", "complex-object"]


def gen_op(rng, size):
    op = {"op": rng.choice(["add"] * 5 + ["sub"] * 5 + ["neg", "neg", "pos", "mul", "mul", "rmul", "iadd", "isub", "imul", "le", "le", "ge", "ge",
                            "eq", "max", "min", "bad", "bad", "program", "write"]),
          "a": rng.randrange(64), "b": rng.randrange(64), "num": rng.choice(NUMS), "bnum": rng.random() < 0.35, "swap": rng.random() < 0.3,
          "bad": rng.choice(BAD), "how": rng.choice(["+", "-", "*", "<=", "==", "r+", "r-"]),
          "keep": rng.random() < 0.8, "front": rng.choice(["linear", "linear", "integer"]), "c": [rng.randrange(64) for _ in range(rng.randint(1, 3))]}
    if rng.random() < 0.08:
        op["interrupt"] = rng.randint(1, 14)
    return op


def generate(rng, tier):
    if rng.random() < 0.004:
        return {"long": [0] * rng.randint(3, 15), "n": rng.choice([2, 6, 300, 1300, 1300]), "seed": rng.randrange(1 << 30),
                "how": rng.choice(["left", "left", "right", "iadd", "sum", "balanced"]), "u": rng.randrange(10 ** 6) / 10 ** 6}
    n = rng.randint(1, 5)
    pool = [rng.choice([{"var": rng.randrange(n)}, {"x": rng.randint(1, n + 3)}]) for _ in range(rng.randint(1, 3))]
    setup = [gen_op(rng, 0) for _ in range(rng.randint(0, 6))]
    clients = [{"ops": [gen_op(rng, 0) for _ in range(rng.randint(1, 8 if tier == "quick" else 14))]} for _ in range(rng.choice([1, 2, 2, 3]))]
    return {"n": n, "pool": pool, "ops": setup, "clients": clients, "gran": "instr" if rng.random() < 0.5 else "line",
            "segs": core.gen_segs(rng, len(clients))}


class Form:
    """Linear form: {index: coefficient}, constant."""

    def __init__(self, t=None, k=0):
        self.t = {i: c for i, c in (t or {}).items()}
        self.k = k

    def plus(self, o, s=1):
        t = dict(self.t)
        for i, c in o.t.items():
            t[i] = t.get(i, 0) + s * c
        return Form(t, self.k + s * o.k)

    def times(self, f):
        return Form({i: c * f for i, c in self.t.items()}, self.k * f)


def close(a, b):
    return abs(a - b) <= 1e-9 * (1 + abs(b))


def sparse(arr, form=None):
    if form is not None and arr is not None and len(arr) != max(form.t, default=-1) + 1:
        raise Violation("wrong-length", f"coefficients {list(arr)} where the variables {sorted(i + 1 for i in form.t)} were mentioned")
    return {} if arr is None else {i: float(c) for i, c in enumerate(arr) if c != 0}


def same_terms(got, want):
    return all(close(got.get(i, 0), want.get(i, 0)) for i in set(got) | set(want))


def observe(obj, form):
    """(terms, constant) of a variable or expression as a user sees them."""
    e = obj.equation if hasattr(obj, "key") else obj
    terms = {i: float(c) for i, c in dict(e.terms).items()}
    return terms, sparse(e.coefficients, form), float(e.constant)


def check_value(what, obj, form):
    try:
        terms, coefs, const = observe(obj, form)
    except (AttributeError, TypeError) as e:
        raise Violation("not-an-expression", f"{what}: {obj!r}: {e}") from None
    if not same_terms(terms, form.t) or not same_terms(coefs, form.t) or not close(const, form.k):
        raise Violation("wrong-value", f"{what}: terms {terms}, coefficients {coefs}, constant {const}; algebra gives {form.t} + {form.k}")


def check_constraint(what, con, left, rel, right):
    d = left.plus(right, -1)
    try:
        got = (sparse(con.coefficients, d), con.inequality, float(con.constant))
    except AttributeError as e:
        raise Violation("not-a-constraint", f"{what}: {con!r}: {e}") from None
    if not same_terms(got[0], d.t) or got[1] != rel or not close(got[2], -d.k):
        raise Violation("wrong-constraint", f"{what}: {got}; algebra gives {d.t} {rel} {-d.k}")


class Space:
    """The shared expressions of one run with their reference values."""

    def __init__(self, plan):
        self.vars = core.must("variables", lambda: linear.variables(plan["n"]))
        self.items = []
        for p in plan["pool"]:
            if "var" in p:
                self.items.append((self.vars[p["var"] % len(self.vars)], Form({p["var"] % len(self.vars): 1})))
            else:
                self.items.append((core.must("x[i]", lambda: linear.x[p["x"]]), Form({p["x"] - 1: 1})))
        self.kept = []

    def check(self, what):
        for i, (o, f) in enumerate(self.items):
            check_value(f"{what}: expression {i}", o, f)
        for desc, con, left, rel, right in self.kept:
            check_constraint(f"{what}: earlier {desc}", con, left, rel, right)


def bad_operand(kind, expr):
    return {"text": "3", "none": None, "list": [1, 2], "expr*expr": expr, "dict": {}, "tuple": (1,), "complex-object": object()}[kind]


def step(op, items, kept, run, ctx, what):
    """Performs one composition on items (a client's view: shared then own); returns nothing, appends results."""
    if not items:
        return
    a, fa = items[op["a"] % len(items)]
    if op["bnum"]:
        b, fb = op["num"], Form({}, op["num"])
    else:
        b, fb = items[op["b"] % len(items)]
    kind = op["op"]
    if op["swap"] and kind in ("add", "sub", "le", "ge", "eq"):
        a, fa, b, fb = b, fb, a, fa
    if not hasattr(a, "constant") and not hasattr(a, "key") and not hasattr(b, "constant") and not hasattr(b, "key"):
        return
    k = op["num"]
    if kind == "write":         # an array of coefficients that was read is the reader's
        v = items[op["a"] % len(items)][0]
        v = v.equation if hasattr(v, "key") else v
        r = core.call(lambda: v.coefficients)
        if r.ok and r.value is not None:
            r.value.fill(9)
            ctx.fault("write to coefficients that were read")
        return
    what = f"{what} {kind}({core.norm(fa.t)}+{fa.k}, {f'{fb.t}+{fb.k}' if kind not in ('mul', 'rmul') else k})"
    if kind == "bad":
        bad, how = bad_operand(op["bad"], items[op["a"] % len(items)][0]), op["how"]
        if op["bad"] == "expr*expr":
            how = "*"
        a = items[op["a"] % len(items)][0]
        f = {"+": lambda: a + bad, "-": lambda: a - bad, "*": lambda: a * bad, "<=": lambda: a <= bad, "==": lambda: a == bad,
             "r+": lambda: bad + a, "r-": lambda: bad - a}[how]
        o = run(f, op.get("interrupt"))
        if not o.ok and not o.hit:
            ctx.fault("unsupported operand rejected")
        return
    if kind in ("le", "ge", "eq"):
        f = {"le": lambda: a <= b, "ge": lambda: a >= b, "eq": lambda: a == b}[kind]
        o = run(f, op.get("interrupt"))
        if o.hit:
            return
        if not (fa.t or fb.t):
            return
        rel = {"le": "<=", "ge": ">=", "eq": "="}[kind]
        left, right = fa, fb
        if op["bnum"] and op["swap"]:       # number on the left: Python asks the expression, with the relation turned round
            a, b, left, right = b, a, fb, fa
            rel = {"<=": ">=", ">=": "<=", "=": "="}[rel]
        if not o.ok:
            raise Violation("composition-failed", f"{what} raised {type(o.exc).__name__}: {o.exc}")
        number = b if op["bnum"] else None
        if hasattr(a, "key") and number == 0 and kind != "eq":
            pos, neg = o.value.positive_variables, o.value.negative_variables
            want = ([a.key + 1], None) if rel == ">=" else (None, [a.key + 1])
            if (list(pos) if pos is not None else None, list(neg) if neg is not None else None) != want:
                raise Violation("wrong-constraint", f"{what}: positive {pos}, negative {neg}, expected {want}")
            return
        check_constraint(what, o.value, left, rel, right)
        kept.append((what, o.value, left, rel, right))
        return
    if kind in ("max", "min"):
        src, fs = (b, fb) if op["bnum"] else (a, fa)
        o = run(lambda: (FRONTS[op["front"]].maximize if kind == "max" else FRONTS[op["front"]].minimize)(src), op.get("interrupt"))
        if o.hit:
            return
        if not o.ok:
            raise Violation("composition-failed", f"{what} raised {type(o.exc).__name__}: {o.exc}")
        got = (sparse(o.value.coefficients, fs), float(o.value.constant), o.value.objective)
        if not same_terms(got[0], fs.t) or not close(got[1], fs.k) or got[2] != kind:
            raise Violation("wrong-objective", f"{what}: {got}; algebra gives {fs.t} + {fs.k}")
        return
    if kind == "program":
        cons = [kept[i % len(kept)] for i in op["c"]] if kept else []
        if not cons:
            return
        o = run(lambda: FRONTS[op["front"]].maximize(a).subject_to(*[c[1] for c in cons]), op.get("interrupt"))
        if o.hit:
            return
        if not o.ok:
            raise Violation("composition-failed", f"{what} raised {type(o.exc).__name__}: {o.exc}")
        return
    forms = {"add": lambda: fa.plus(fb), "sub": lambda: fa.plus(fb, -1), "neg": lambda: fa.times(-1), "pos": lambda: fa,
             "mul": lambda: fa.times(k), "rmul": lambda: fa.times(k), "iadd": lambda: fa.plus(fb), "isub": lambda: fa.plus(fb, -1), "imul": lambda: fa.times(k)}

    def iadd():
        t = a
        t += b
        return t

    def isub():
        t = a
        t -= b
        return t

    def imul():
        t = a
        t *= k
        return t

    calls = {"add": lambda: a + b, "sub": lambda: a - b, "neg": lambda: -a, "pos": lambda: +a, "mul": lambda: a * k, "rmul": lambda: k * a,
             "iadd": iadd, "isub": isub, "imul": imul}
    o = run(calls[kind], op.get("interrupt"))
    if o.hit:
        return
    if not o.ok:
        raise Violation("composition-failed", f"{what} raised {type(o.exc).__name__}: {o.exc}")
    form = forms[kind]()
    check_value(what, o.value, form)
    if op["keep"] and max([abs(c) for c in form.t.values()] + [abs(form.k)]) < 1e7:
        items.append((o.value, form))
        ctx.state(sorted(form.t.items()), form.k)


def longwinded(plan, ctx):
    """An expression composed in a thousand steps and more, or over a thousand variables; every part goes on meaning what it did."""
    rng = core.rng_for("long", plan["seed"])
    n = plan["n"]
    vs = core.must("variables", lambda: linear.variables(n))
    count = 100 * max(1, len(plan["long"]))
    terms = [(i if n >= 1000 else rng.randrange(n), rng.choice([1, -1, 2, 0.5, -3])) for i in (k % n for k in range(count))]
    parts = [(core.must("a term", lambda: c * vs[i]), Form({i: c})) for i, c in terms]
    kept = []

    def build():
        if plan["how"] == "balanced":
            row = parts
            while len(row) > 1:
                row = [(row[i][0] + row[i + 1][0], row[i][1].plus(row[i + 1][1])) if i + 1 < len(row) else row[i] for i in range(0, len(row), 2)]
            return row[0]
        if plan["how"] == "sum":
            total = Form()
            for _, f in parts:
                total = total.plus(f)
            return sum(p for p, _ in parts), total
        e, f = parts[0]
        for k, (p, pf) in enumerate(parts[1:]):
            minus = k % 3 == 2
            if plan["how"] == "iadd":
                if minus:
                    e -= p
                else:
                    e += p
            elif plan["how"] == "right" and not minus:
                e = p + e
            else:
                e = e - p if minus else e + p
            f = f.plus(pf, -1 if minus else 1)
            if k % 400 == 7:
                kept.append((e, f))
        return e, f

    if plan["how"] != "balanced" or n < 1000:
        trace = core.call(build)
        ctx.want("interrupt")
        kept.clear()
        o = core.call(build, at=1 + int(plan["u"] * trace.events))
        if o.hit:
            ctx.fault("interrupt")
            ctx.site(o.hit)
    e, f = core.must("composition", build)
    what = f"{len(terms)} terms over {n} variables, composed {plan['how']}"
    try:
        for x, g in [(e, f)] + parts[::150] + kept:
            core.must("reading", lambda: check_value(what, x, g))
        o = core.must("comparison", lambda: e + 2 <= 5 - parts[0][0])
        check_constraint(what, o, f.plus(Form({}, 2)), "<=", parts[0][1].times(-1).plus(Form({}, 5)))
        neg = core.must("negation", lambda: -e)
        check_value(f"minus {what}", neg, f.times(-1))
        check_value(f"{what}, after all", e, f)
    except Violation as v:
        raise Violation(v.cls, str(v)[:500]) from None
    ctx.probe("long composition")
    ctx.state("long", plan["how"], n, len(terms))


def execute(plan, ctx):
    if "long" in plan:
        return longwinded(plan, ctx)
    sp = Space(plan)

    def alone(fn, at):
        if at:
            ctx.want("interrupt")
        o = core.call(fn, at=at)
        if o.hit:
            ctx.fault("interrupt")
            ctx.site(o.hit)
        return o

    for k, op in enumerate(plan["ops"]):
        step(op, sp.items, sp.kept, alone, ctx, f"op {k}")
        sp.check(f"after op {k} {op['op']}")
        ctx.write(k, op["op"], len(sp.items), len(sp.kept))
    if len(sp.items) > 1:
        ctx.nontrivial = True
    shared, kept = list(sp.items), list(sp.kept)
    sched = core.Scheduler(plan["segs"], plan["gran"], ctx=ctx)
    mine = []

    def client(i):
        def run(fn, at):
            if at:
                ctx.want("interrupt")
            o = core.guarded(sched, fn, at)
            if o.hit:
                ctx.fault("interrupt")
                ctx.site(o.hit)
            return o

        def body(me):
            items, cons = list(shared), list(kept)
            mine.append((i, items, cons))
            for k, op in enumerate(plan["clients"][i]["ops"]):
                step(op, items, cons, run, ctx, f"client {i} op {k}")
                sched.yield_point()
            ctx.write(i, len(items), len(cons))
        return body

    sched.run([client(i) for i in range(len(plan["clients"]))])
    n = sum(x[2] != "exit" for x in sched.switches)
    if n:
        ctx.fault("preemption", n)
    sp.check("after all clients")
    for i, items, cons in mine:
        for k, (o, f) in enumerate(items):
            check_value(f"client {i} at the end: expression {k}", o, f)
        for desc, con, left, rel, right in cons:
            check_constraint(f"client {i} at the end: {desc}", con, left, rel, right)
