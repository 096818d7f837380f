"""C13: formulated programs through histories of sign declarations, uses, interrupts and concurrent queries."""
import numpy as np

from .. import core, lp, seams
from ..core import Violation
from pytimize.formulations import integer, linear

LISTS = ("cons", "ops", "clients", "segs", "decls")
INTS = ("segs",)


def gen_decls(rng, n):
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        out.append({"v": rng.randint(1, n), "sign": rng.choice(["pos", "pos", "neg"]), "form": rng.choice(["var", "var", "var", "all"] if rng.random() < 0.15 else ["var"])})
    return out


def generate(rng, tier):
    n = rng.randint(1, 4) if rng.random() < 0.96 else rng.randint(9, 14)

    def row():
        r = [rng.choice([0, 1, -1, 2, 3, -4, 0.5]) for _ in range(n)]
        r[rng.randrange(n)] = rng.choice([1, -2, 3])
        return r

    cons = [{"row": row(), "rel": rng.choice(["<=", "<=", ">=", "="]), "rhs": rng.choice([0, 1, 4, 6, 2.5, -3])} for _ in range(rng.randint(1, 4) if rng.random() < 0.98 else 7)]
    ops = []
    for _ in range(rng.randint(2, 9 if tier == "quick" else 16)):
        op = rng.choice(["where"] * 6 + ["allpos", "allneg"] + ["program", "program", "repr", "solve", "solve", "query", "query", "edit"])
        d = {"op": op, "decls": gen_decls(rng, n), "q": rng.randrange(1 << 30)}
        if op != "where" or rng.random() < 0.1:
            if rng.random() < 0.2:
                d["interrupt"] = rng.randrange(10 ** 6) / 10 ** 6
        ops.append(d)
    clients = [{"ops": [{"op": rng.choice(["program", "repr", "solve", "solve", "query", "query"]), "q": rng.randrange(1 << 30)}
                        for _ in range(rng.choice([1, 2]))]} for _ in range(rng.choice([0, 2, 2, 3]))]
    return {"n": n, "c": [rng.choice([0, 1, -1, 2, 5, 0.5]) for _ in range(n)], "z": rng.choice([0, 0, 4, -2.5]), "obj": rng.choice(["max", "min"]),
            "cons": cons, "ops": ops, "clients": clients, "fresh": rng.random() < 0.5, "share": rng.random() < 0.4, "front": rng.choice(["linear", "linear", "linear", "integer"]),
            "gran": "instr" if rng.random() < 0.4 else "line", "segs": core.gen_segs(rng, max(1, len(clients)))}


class World:
    def __init__(self, plan):
        self.plan, self.n = plan, plan["n"]
        self.v = linear.variables(self.n)
        self.cons = [self.build(c) for c in plan["cons"]]
        self.goal = getattr({"linear": linear, "integer": integer}[plan.get("front", "linear")], "maximize" if plan["obj"] == "max" else "minimize")(self.expr(plan["c"]) + plan["z"])
        self.p = self.goal.subject_to(*self.cons)
        self.pos, self.neg = set(), set()

    def expr(self, row):
        e = row[0] * self.v[0]
        for k in range(1, self.n):
            e = e + row[k] * self.v[k]
        return e

    def build(self, c):
        e = self.expr(c["row"]) + 0
        return e <= c["rhs"] if c["rel"] == "<=" else e >= c["rhs"] if c["rel"] == ">=" else e == c["rhs"]

    def spec(self):
        p = self.plan
        return {"A": [list(c["row"]) for c in p["cons"]], "b": [c["rhs"] for c in p["cons"]], "c": list(p["c"]), "z": p["z"], "obj": p["obj"],
                "ineq": [c["rel"] for c in p["cons"]], "free": [j for j in range(1, self.n + 1) if j not in self.pos | self.neg],
                "neg": sorted(self.neg), "form": "float", "cls": "lp"}

    def declaration(self, d):
        if d["form"] == "all":
            return linear.x >= 0 if d["sign"] == "pos" else linear.x <= 0
        x = self.v[d["v"] - 1]
        return x >= 0 if d["sign"] == "pos" else x <= 0


def view(p):
    """Public content, sign sets as sets."""
    s = lp.snapshot(p)
    return tuple(("signs", tuple(sorted(v[1:] if isinstance(v, tuple) else v))) if f.endswith("_variables") else v for f, v in zip(lp.FIELDS, s))


def check(w, what):
    got = core.must(f"the program {what}", lambda: view(w.p.program))
    want = view(lp.build(w.spec()))
    if got != want:
        raise Violation("wrong-program", f"{what}: {'; '.join(f'{n}: {a}, expected {b}' for n, a, b in zip(lp.FIELDS, got, want) if a != b)[:700]}")


def constraints(w):
    return [(lp.freeze(np.asarray(c.coefficients)), c.inequality, float(c.constant)) for c in w.cons]


def use(w, p, op, spec):
    """One query through the formulated program, or on a plain program (reference)."""
    if op["op"] == "program":
        return view(p.program if hasattr(p, "program") else p)
    if op["op"] == "repr":
        return repr(p)
    if op["op"] == "solve":
        return lp.result(p.solve())
    rng = core.rng_for("q", op["q"])
    q = lp.gen_query(rng, spec, ["solve", "optimal_value", "two_phase_simplex", "to_sef", "dual", "is_feasible", "evaluate", "repr", "copy",
                                 "add_constraint", "properties", "is_basis", "compute_basic_solution"])
    return lp.result(lp.Query(q).run(p))


def declare(w, d, model):
    """(call, accepted?, effect) of a declaring operation on world w."""
    if d["op"] == "where":
        pos, neg, ok = [], [], True
        for x in d["decls"]:
            new = list(range(1, w.n + 1)) if x["form"] == "all" else [x["v"]]
            (pos if x["sign"] == "pos" else neg).extend(new)
        p2, n2 = sorted(w.pos) + pos, sorted(w.neg) + neg
        ok = len(set(p2)) == len(p2) and len(set(n2)) == len(n2) and not set(p2) & set(n2)
        decls = [w.declaration(x) for x in d["decls"]]
        return (lambda: w.p.where(*decls)), ok, (lambda: (w.pos.update(pos), w.neg.update(neg)))
    every = set(range(1, w.n + 1))
    ok = not (w.pos or w.neg)
    if d["op"] == "allpos":
        return (lambda: w.p.whereAllPositive()), ok, (lambda: w.pos.update(every))
    return (lambda: w.p.whereAllNegative()), ok, (lambda: w.neg.update(every))


def execute(plan, ctx):
    w = core.must("formulating", lambda: World(plan))
    cons0 = constraints(w)
    twin = None
    if plan["share"]:       # another program from the same objective and constraints
        twin = core.must("formulating twice", lambda: w.goal.subject_to(*w.cons))
    if not plan["fresh"]:
        check(w, "after formulating")
    taken = []

    def take(what):
        """Programs the caller took earlier and keeps."""
        q = core.must("the program", lambda: w.p.program)
        if not any(q is t[1] for t in taken):
            taken.append((what, q, view(q)))

    def still(what):
        for when, q, was in taken:
            now = view(q)
            if now != was:
                raise Violation("taken-program-changed", f"the program taken {when} {what}: {'; '.join(f'{n}: {a}, was {b}' for n, a, b in zip(lp.FIELDS, now, was) if a != b)[:600]}")

    for k, d in enumerate(plan["ops"]):
        what = f"op {k} {d['op']}"
        if d["op"] in ("where", "allpos", "allneg"):
            what += f" {[(x['form'], x['v'], x['sign']) for x in d['decls']]}" if d["op"] == "where" else ""
            fn, ok, effect = declare(w, d, w)
            o = core.call(fn)
            if o.ok != ok:
                raise Violation("declaration-accepted" if o.ok else "declaration-rejected",
                                f"{what}: {o}; positive {sorted(w.pos)}, negative {sorted(w.neg)}")
            if ok:
                effect()
                if o.value is not w.p and o.value is not None:
                    w.p = o.value
            else:
                ctx.fault("rejected declaration")
                if not isinstance(o.exc, ValueError):
                    raise Violation("declaration-rejected", f"{what} raised {type(o.exc).__name__}: {o.exc}")
            ctx.write(k, d["op"], o.ok)
            ctx.state(sorted(w.pos), sorted(w.neg), w.n)
            if d["q"] & 1:
                check(w, f"after {what}")
                still(f"after {what}")
            if d["q"] & 4:
                take(f"after {what}")
            continue
        if d["op"] == "edit":
            # results of queries are the caller's to edit
            c = core.must("copy", lambda: w.p.copy())
            core.call(lambda: c.to_sef(in_place=True))
            for n in ("A", "b", "c"):
                core.call(lambda: np.asarray(getattr(c, n)).fill(9))
            core.call(lambda: c.add_variable(1, [0] * len(plan["cons"]), False, False, in_place=True) if plan["cons"] else None)
            ctx.fault("write to a returned program")
            check(w, f"after {what}")
            continue
        spec = w.spec()
        ref = core.reference(lambda: use(w, lp.build(spec), d, spec), 400_000)
        if "interrupt" in d:
            ctx.want("interrupt")
            o = core.call(lambda: use(w, w.p, d, spec), 2_000_000, at=1 + int(d["interrupt"] * (ref.events + 20)))
            if o.hit:
                ctx.fault("interrupt")
                ctx.site(o.hit)
        o = core.call(lambda: use(w, w.p, d, spec), 2_000_000)
        if core.norm([o.ok, o.value if o.ok else type(o.exc).__name__]) != core.norm([ref.ok, ref.value if ref.ok else type(ref.exc).__name__]):
            raise Violation("wrong-answer", f"{what} gave {o}; the program written by hand gives {ref}")
        if d["q"] & 2:
            check(w, f"after {what}")
        if d["q"] & 4:
            take(f"after {what}")
    check(w, "at the end of the history")
    still("at the end of the history")
    if constraints(w) != cons0:
        raise Violation("operands-changed", f"constraints {cons0} became {constraints(w)}")
    if twin is not None:
        pos, neg, w2 = w.pos, w.neg, w.p
        w.p, w.pos, w.neg = twin, set(), set()
        check(w, "the sibling formulated from the same objective and constraints")
        w.p, w.pos, w.neg = w2, pos, neg
    if len(plan["clients"]) > 1:
        together(plan, w, ctx)


def together(plan, w, ctx):
    spec = w.spec()
    if plan["fresh"]:
        # an equal history on a new formulated program, first compiled by the threads
        o = World(plan)
        if w.pos or w.neg:
            core.must("declaring", lambda: o.p.where(*[o.declaration({"form": "var", "v": v, "sign": s}) for s, vs in (("pos", w.pos), ("neg", w.neg))
                                                        for v in sorted(vs)]))
        o.pos, o.neg = set(w.pos), set(w.neg)
        w = o
    refs = [[core.reference(lambda: use(w, lp.build(spec), d, spec), 400_000) for d in c["ops"]] for c in plan["clients"]]
    total = sum(r.events for row in refs for r in row)
    sched = core.Scheduler(plan["segs"], plan["gran"], 30 * total + 400_000, ctx=ctx)
    results = []

    def client(i):
        def body(me):
            for k, d in enumerate(plan["clients"][i]["ops"]):
                o = core.guarded(sched, lambda: use(w, w.p, d, spec))
                results.append((i, d, refs[i][k], o))
                sched.yield_point()
        return body

    sched.run([client(i) for i in range(len(plan["clients"]))])
    n = sum(x[2] != "exit" for x in sched.switches)
    if n:
        ctx.fault("preemption", n)
    for i, d, ref, o in results:
        if core.norm([o.ok, o.value if o.ok else type(o.exc).__name__]) != core.norm([ref.ok, ref.value if ref.ok else type(ref.exc).__name__]):
            raise Violation("wrong-answer", f"concurrent client {i} {d['op']}: {o}; the program written by hand gives {ref}")
    check(w, "after concurrent queries")
