"""Operations from every part of the library behind one interface, for the properties about all of them.

A case is a JSON value; Case(case) builds fresh objects for it; run() makes the call, answer() gives what the caller
learned in comparable form."""
import contextlib
import io

import numpy as np

from . import core, gr, lp, seams
from .props import c13, c14, c15, c17, c18, c26
from pytimize.parsers import GraphParser, LinearParser
from pytimize.programs import UnconstrainedProgram
from pytimize.utilities import Comparator, DisjointSet

EDITS = ["to_sef", "to_sef", "to_canonical_form", "simplex_iteration", "add_constraint", "add_variable"]
GEDITS = {"un": ["add_edge", "remove_edge", "add_vertex", "set_edge_weight", "set_vertex_weight"], "di": ["add_arc", "remove_arc", "add_node"]}
FAMILIES = ["lp"] * 6 + ["edit"] * 2 + ["graph"] * 4 + ["gedit", "form", "form", "unc", "dset", "draw", "rand", "parse", "compare"]
STRINGS = ["ab bc cd", "a-b b-c", "ab:1 bc:2.5", "one-two:3", "ab b", "", "1x_1+2x_2", "-3x_2+1.5x_4", "x_1", "2x_1+2x_1"]


def gen(rng, families=None):
    fam = rng.choice(families or FAMILIES)
    if fam in ("lp", "edit"):
        if fam == "lp" and rng.random() < 0.12:
            spec = lp.boxed(lp.gen_spec(rng, rows=(1, 2), cols=(1, 2), sef=False, ip=True, half=0.05), rng, 2)
            return {"family": fam, "spec": spec, "q": lp.gen_query(rng, spec, ["branch_and_bound"])}
        spec = lp.gen_spec(rng, rows=(1, 3), cols=(1, 4), wide=True)
        while True:
            q = lp.gen_query(rng, spec, EDITS if fam == "edit" else None)
            if q["op"] != "branch_and_bound":
                if rng.random() < 0.08:
                    strange(rng, spec)
                return {"family": fam, "spec": spec, "q": q}
    if fam in ("graph", "gedit"):
        base = c26.generate(rng, "quick", small=True)
        g = {k: base[k] for k in ("kind", "names", "edges", "extra")}
        k = len(g["names"])
        if fam == "graph":
            q = c26.gen_query(rng, g["kind"], k)
            if g["kind"] == "un" and rng.random() < 0.15:
                q = c26.gen_query(rng, "un", k, "walk")
                q["order"] = rng.choice(["length", "reverse"])
            if q.get("order") == "fail":
                q["order"] = "length"
            q.pop("fail", None)
            return {"family": fam, "graph": g, "q": q}
        return {"family": fam, "graph": g, "op": rng.choice(GEDITS[g["kind"]]), "a": rng.randrange(k), "b": rng.randrange(k),
                "w": rng.choice([0, 1, 2.5, -1])}
    if fam == "form":
        p = c13.generate(rng, "quick")
        return {"family": fam, "model": {k: p[k] for k in ("n", "c", "z", "obj", "cons")}, "op": rng.choice(["build", "program", "solve", "solve", "repr", "where"]),
                "decls": p["ops"][0]["decls"]}
    if fam == "unc":
        d = c14.gen_method(rng)
        d["limit"] = d["limit"] if d["limit"] is not None else 40
        return {"family": fam, "problem": c14.gen_problem(rng), "run": d, "form": rng.choice(["float", "list"])}
    if fam == "dset":
        if rng.random() < 0.1:
            n = rng.choice([300, 1100, 2500])
            return {"family": fam, "n": n, "ops": [[k, k + 1] for k in range(n - 1)]}
        return {"family": fam, "n": rng.randint(1, 8), "ops": [[rng.randrange(8), rng.randrange(8)] for _ in range(rng.randint(1, 8))]}
    if fam == "draw":
        return {"family": fam, "spec": c17.gen_region(rng), "limit": rng.choice([None, 20, 1000])}
    if fam == "rand":
        return {"family": fam, "shape": [rng.randint(1, 4), rng.randint(1, 4), rng.choice([1, 7, 100])], "kind": rng.choice(["fair", "mixed", "low", "high"]),
                "seed": rng.randrange(1 << 30), "walk": rng.random() < 0.3}
    if fam == "compare":
        v = [rng.choice([0, 1, -1, 1e-9, 2.5]) for _ in range(6)]
        return {"family": fam, "op": rng.choice(["<=", ">=", "<", ">"]), "test": rng.choice([0, 1, 2.5]), "v": v, "array": rng.random() < 0.5}
    return {"family": "parse", "text": rng.choice(STRINGS), "graph": rng.random() < 0.5}


def strange(rng, spec):
    """Data of an unusual size."""
    spec["form"] = "float"
    for _ in range(rng.randint(1, 3)):
        k = rng.randrange(len(spec["c"]))
        v = rng.choice([1e12, -3.5e15, 2.5e-7, 1e-11, 1e100, -7e-4, 123456.75])
        where = rng.randrange(3)
        if where == 0:
            spec["c"][k] = v
        elif where == 1 or not spec["b"]:
            spec["z"] = v
        else:
            spec["A"][rng.randrange(len(spec["b"]))][k] = v


class Link:
    """A function of the caller's that stands for a new one in every call of one program."""

    def __call__(self, x):
        return self.target(x)


class Case:
    """`own_at`: the call of the family's own kind (callback, random draw, display call) that fails."""

    def __init__(self, c, own_at=None, own_exc=None, made=None):
        self.c, self.fam = c, c["family"]
        self.own_at, self.own_exc = own_at, own_exc
        self.owned = 0          # how many own calls were made
        self.own_fired = False
        self.reseeded = 0
        self.touched = None
        getattr(self, "make_" + self.fam)(c, made)

    # ---- construction of the objects
    def make_lp(self, c, made):
        self.obj = made if made is not None else lp.build(c["spec"])
        self.query = lp.Query(c["q"])

    make_edit = make_lp

    def make_graph(self, c, made):
        self.obj = made if made is not None else c26.build(c["graph"])
        self.query = c26.Q(c["graph"], c["q"])

    def make_gedit(self, c, made):
        self.obj = c26.build(c["graph"])

    def make_form(self, c, made):
        self.world = made if made is not None else c13.World(c["model"])
        self.obj = self.world.p
        self.decls = [self.world.declaration(d) for d in c["decls"]]

    def make_unc(self, c, made):
        kind = {} if self.own_at is None else {"at": self.own_at, "kind": "raise", "exc": self.own_exc("injected callback failure"), "who": "any"}
        self.caller = c14.Caller(c["problem"], **kind)
        self.start = c14.start_of(c["problem"], c["form"])
        if made is None:
            made = Link()
            made.program = UnconstrainedProgram(made, c["problem"]["obj"])
        made.target = self.caller.f
        self.obj, self.link = made.program, made

    def make_dset(self, c, made):
        self.items = [f"i{k}" for k in range(c["n"])]
        self.obj = DisjointSet(self.items)

    def make_draw(self, c, made):
        self.obj = made if made is not None else lp.build(c["spec"])

    def make_rand(self, c, made):
        self.obj = None
        if c["walk"]:
            self.obj = gr.UndirectedGraph(edges={("a", "b"): 1, ("b", "c"): 1}, vertices={"d": 2})

    def make_parse(self, c, made):
        self.obj = None

    make_compare = make_parse

    # ---- the call
    def run(self):
        return getattr(self, "run_" + self.fam)(self.c)

    def run_lp(self, c):
        return self.query.run(self.obj)

    def run_edit(self, c):
        c18.apply(c["q"], self.obj)
        return self.obj

    def run_graph(self, c):
        if self.own_at is not None:
            self.query.boom = (self.own_at, self.own_exc)
        try:
            return self.query.run(self.obj)
        finally:
            self.owned = self.query.calls
            self.own_fired = self.own_at is not None and self.owned >= self.own_at

    def run_gedit(self, c):
        names, g, op = c["graph"]["names"], self.obj, c["op"]
        a, b = names[c["a"]], names[c["b"]]
        if op in ("add_edge", "set_edge_weight", "add_arc"):
            getattr(g, op)((a, b), c["w"])
        elif op in ("remove_edge", "remove_arc"):
            getattr(g, op)((a, b))
        elif op in ("add_vertex", "add_node"):
            getattr(g, op)("new" + a, c["w"])
        else:
            g.set_vertex_weight(a, c["w"])
        return g

    def run_form(self, c):
        op = c["op"]
        if op == "build":
            return c13.World(c["model"]).p.program
        if op == "program":
            return self.obj.program
        if op == "solve":
            return self.obj.solve()
        if op == "repr":
            return repr(self.obj)
        self.obj.where(*self.decls)
        return self.obj.program

    def run_unc(self, c):
        try:
            return c14.compute(self.obj, self.caller, self.start, c["run"])
        finally:
            self.owned, self.own_fired = self.caller.count["any"], self.caller.fired

    def run_dset(self, c):
        n = c["n"]
        for a, b in c["ops"]:
            self.obj.union(self.items[a % n], self.items[b % n])
        return [self.obj.find(x) for x in self.items]

    def run_draw(self, c):
        with seams.display(fail_at=self.own_at, exc=self.own_exc or seams.SimDisplayError) as d:
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    if c["limit"] is None:
                        self.obj.graph_polyhedron()
                    else:
                        self.obj.graph_polyhedron(c["limit"])
            finally:
                self.owned, self.own_fired = d.n, d.fired is not None
                self.touched = d.touched
        return d.calls

    def run_rand(self, c):
        with seams.entropy(c["kind"], c["seed"], self.own_at, self.own_exc or seams.SimEntropyError) as e:
            try:
                return list(self.obj.traverse("a", "rng")) if c["walk"] else lp.LinearProgram.random(*c["shape"])
            finally:
                self.owned, self.own_fired = e.n, e.fired is not None
                self.reseeded = e.reseeded

    def run_parse(self, c):
        return (GraphParser if c["graph"] else LinearParser).parse(c["text"])

    def run_compare(self, c):
        v = np.array(c["v"]) if c["array"] else c["v"][0]
        return Comparator.is_close_compare(v, c["op"], c["test"])

    def keep(self):
        """The object to give to the next case of the same content, for operations that leave it as it is."""
        if self.fam == "unc":
            return self.link
        if self.fam == "form" and self.c["op"] != "where":
            return self.world
        return self.obj if self.fam in ("lp", "graph", "draw") else None

    # ---- what the caller learned
    def answer(self, o):
        if not o.ok:
            return ("raise", type(o.exc).__name__)
        if self.fam == "graph":
            return ("ok", core.norm(o.value[0]))
        if self.fam == "gedit":
            return ("ok", core.norm(c26.snapshot(self.c["graph"], o.value)))
        return ("ok", lp.result(o.value))

    def name(self):
        c = self.c
        op = c["q"]["op"] if "q" in c else c.get("op") or c.get("run", {}).get("method") or ""
        return f"{self.fam} {op}".strip()


OWN_EXC = {**c14.EXC, "display": seams.SimDisplayError, "entropy": seams.SimEntropyError}
OWN = {"unc": [e for e in c14.EXCS if e != "stop"], "draw": ["display", "runtime", "os", "mem", "value", "type", "attr", "key", "interrupt"],
       "rand": ["entropy", "os", "value", "notimpl", "mem", "interrupt"],
       "walk": ["custom", "type", "value", "key", "index", "attr", "zero", "rec", "mem", "interrupt", "base"]}
OWN_NAME = {"unc": "callback failure", "draw": "display failure", "rand": "random source failure", "walk": "ordering function failure"}


def own_kind(case):
    """The sort of service of the caller's or of the process that this case uses and that can fail."""
    if case["family"] == "graph":
        return "walk" if case["q"]["op"] == "walk" and case["q"]["order"] != "none" else None
    return case["family"] if case["family"] in OWN else None


def gen_fault(rng, case):
    f = lp.gen_fault(rng)
    own = own_kind(case)
    if own and rng.random() < 0.5:
        f = {"kind": "own", "u": f.get("u", 0.5), "exc": rng.choice(OWN[own])}
    return f


def injected(fault):
    """The exception class the fault raises."""
    return OWN_EXC[fault["exc"]] if fault["kind"] == "own" else lp.EXC.get(fault.get("exc"))


def disturbed(ctx, case, fault, budget=3_000_000, made=None):
    """(case object, undisturbed answer, outcome, whether the fault was delivered)"""
    dry = Case(case)
    if fault["kind"] == "own":
        ctx.want(OWN_NAME[own_kind(case)])
        twin = core.reference(dry.run, budget)
        want = dry.answer(twin)
        if dry.owned == 0:
            x = Case(case)
            return x, want, core.call(x.run, budget), False
        x = Case(case, 1 + min(int(fault["u"] * dry.owned), dry.owned - 1), injected(fault), made)
        o = core.call(x.run, budget)
        if x.own_fired:
            ctx.fault(f"{OWN_NAME[own_kind(case)]}:{fault['exc']}")
            ctx.site((OWN_NAME[own_kind(case)], x.own_at))
        return x, want, o, x.own_fired
    x = Case(case, made=made)
    twin, o = lp.faulted(ctx, fault, x.run, dry.run, budget)
    return x, dry.answer(twin), o, bool(o.hit)
