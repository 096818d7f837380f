"""C28: answers depend on present content alone, not on what the object or the process went through before."""
import gc

import numpy as np

from .. import core, gr, lp, pristine, zoo
from ..core import Violation
from . import c14, c18, c26

LISTS = ("ops", "clients", "segs", "members", "edits")
INTS = ("segs",)


# ---- what is asked, and of what content --------------------------------------------------------
def content(kind, obj, table=None):
    if kind == "lp":
        return {"cls": type(obj).__name__, "A": np.array(obj.A), "b": np.array(obj.b), "c": np.array(obj.c), "z": obj.z, "obj": obj.objective,
                "ineq": list(obj.inequalities), "free": list(obj.free_variables), "neg": list(obj.negative_variables)}
    if kind == "un":
        return {"v": list(obj.vertices.items()), "e": list(obj.edges.items())}
    return {"v": list(table[0].items()), "e": list(table[1].items())}


def rebuild(kind, c):
    if kind == "lp":
        cls = lp.IntegerProgram if c["cls"] == "IntegerProgram" else lp.LinearProgram
        return cls(c["A"].copy(), c["b"].copy(), c["c"].copy(), c["z"], c["obj"], list(c["ineq"]), list(c["free"]), list(c["neg"]))
    g = gr.UndirectedGraph() if kind == "un" else gr.DirectedGraph()
    for v, w in c["v"]:
        (g.add_vertex if kind == "un" else g.add_node)(v, w)
    for e, w in c["e"]:
        (g.add_edge if kind == "un" else g.add_arc)(e, w)
    return g


def ask(kind, obj, q, names=None, budget=3_000_000):
    """The answer, with the entries logged on the way."""
    if kind == "lp":
        x = lp.Query(q)
        n = len(obj.steps)
        try:
            o = core.call(lambda: x.run(obj), budget if q["op"] != "branch_and_bound" else 400_000)
        except Violation as v:
            if q["op"] == "branch_and_bound":
                raise core.Skip(str(v)) from None      # need not end where the region has no bounds, as after an edit
            raise
        return lp.outcome(o), [(s["key"], c18.canon(s["text"])) for s in obj.steps[n:]] if q["op"] != "clear_steps" else None
    plan = {"kind": kind, "names": names, "edges": [], "extra": []}
    x = c26.Q(plan, q)
    x.flow = flows(obj, q) if q["op"] == "create_residual" else {}
    o = core.call(lambda: x.run(obj), budget)
    a = c26.answer(o)
    if q["op"] in c26.UNDECIDED:
        a = None
    elif q["op"] in ("ford_fulkerson", "preflow_push") and o.ok:
        a = ("ok", core.norm(o.value[0][0]))       # which maximum flow is found may depend on orders of insertion
    return a, None


def flows(g, q):
    out = {}
    for i, e in enumerate(sorted(g.arcs)):
        if q["mask"] >> (i % 6) & 1:
            out[e] = 1
    return out


def reply(req):
    if req[0] == "case":
        x = zoo.Case(req[1])
        return x.answer(core.reference(x.run, 3_000_000))
    _, kind, c, q, names = req
    try:
        return ask(kind, rebuild(kind, c), q, names)
    except Violation as v:
        raise core.Skip(str(v)) from None


pristine.start(reply)


# ---- plans --------------------------------------------------------------------------------------
def vary_spec(rng, spec):
    """A program that differs from `spec` in one respect."""
    s = {k: (list(v) if isinstance(v, list) else v) for k, v in spec.items()}
    s["A"] = [list(r) for r in spec["A"]]
    m, n = len(s["b"]), len(s["c"])
    i, j = rng.randrange(m), rng.randrange(n)
    what = rng.choice(["A", "A", "b", "b", "c", "c", "z", "obj", "ineq", "sign", "cls", "form", "same"])
    if what == "A":
        s["A"][i][j] += rng.choice([1, -1, 2])
    elif what == "b":
        s["b"][i] += rng.choice([1, -1, 3])
    elif what == "c":
        s["c"][j] += rng.choice([1, -2])
    elif what == "z":
        s["z"] += 5
    elif what == "obj":
        s["obj"] = "min" if s["obj"] == "max" else "max"
    elif what == "ineq":
        s["ineq"] = list(s["ineq"] or ["="] * m)
        s["ineq"][i] = rng.choice([r for r in ("=", "<=", ">=") if r != s["ineq"][i]])
    elif what == "sign":
        if j + 1 in s["free"]:
            s["free"].remove(j + 1)
        elif j + 1 in s["neg"]:
            s["neg"].remove(j + 1)
        else:
            s[rng.choice(["free", "neg"])].append(j + 1)
    elif what == "cls":
        s["cls"] = "lp" if s["cls"] == "ip" else "ip"
    elif what == "form":
        s["form"] = rng.choice(["list", "float", "int"])
    return s


def vary_graph(rng, g):
    h = {"kind": g["kind"], "names": g["names"], "edges": [list(e) for e in g["edges"]], "extra": [list(e) for e in g["extra"]]}
    k = len(h["names"])
    what = rng.choice(["weight", "weight", "drop", "add", "vertex", "same"])
    if what == "weight" and h["edges"]:
        h["edges"][rng.randrange(len(h["edges"]))][2] += 1
    elif what == "drop" and h["edges"]:
        h["edges"].pop(rng.randrange(len(h["edges"])))
    elif what == "add":
        have = {(a, b) for a, b, _ in h["edges"]}
        free = [[a, b] for a in range(k) for b in range(k) if (a < b if g["kind"] == "un" else a != b) and (a, b) not in have]
        if free:
            h["edges"].append(rng.choice(free) + [1])
    elif what == "vertex" and h["extra"]:
        h["extra"][rng.randrange(len(h["extra"]))][1] += 2
    return h


def vary_case(rng, c):
    """A case that differs from `c` in one respect."""
    d = dict(c)
    f = c["family"]
    if f in ("lp", "edit", "draw"):
        d["spec"] = vary_spec(rng, c["spec"])
        if len(d["spec"]["ineq"] or []) == 0 and f == "draw":
            d["spec"] = c["spec"]
        if f == "lp" and c["q"]["op"] == "branch_and_bound":
            d["spec"] = dict(c["spec"], c=[v + 1 for v in c["spec"]["c"]])
    elif f in ("graph", "gedit"):
        d["graph"] = vary_graph(rng, c["graph"])
    elif f == "form":
        m = d["model"] = dict(c["model"])
        what = rng.choice(["c", "z", "obj", "cons"])
        if what == "c":
            m["c"] = [v + 1 for v in m["c"]]
        elif what == "z":
            m["z"] += 2
        elif what == "obj":
            m["obj"] = "min" if m["obj"] == "max" else "max"
        else:
            m["cons"] = [dict(x, rhs=x["rhs"] + 1) for x in m["cons"]]
    elif f == "unc":
        p = d["problem"] = dict(c["problem"])
        if rng.random() < 0.5:
            p["m"] = [v + 1 for v in p["m"]]
        else:
            p["obj"] = "max" if p["obj"] == "min" else "min"
    elif f == "dset":
        d["ops"] = c["ops"][:-1] + [[0, 1]]
    elif f == "rand":
        d["seed"] = c["seed"] + 1
    elif f == "parse":
        d["text"] = rng.choice(zoo.STRINGS)
    return d


def generate(rng, tier):
    kind = rng.choice(["lp"] * 5 + ["un", "un", "di", "zoo", "zoo", "zoo"])
    n = rng.randint(1, 3)
    plan = {"kind": kind, "gran": "instr" if rng.random() < 0.3 else "line", "segs": core.gen_segs(rng, 2)}
    if kind == "zoo":
        base = zoo.gen(rng)
        plan["members"] = [base] + [vary_case(rng, base) if rng.random() < 0.7 else zoo.gen(rng) for _ in range(n)]
        if base["family"] in ("unc", "form") and rng.random() < 0.7:
            # the same object asked in several ways
            for i in range(1, len(plan["members"])):
                d = plan["members"][i] = dict(base)
                if base["family"] == "unc":
                    d["run"] = dict(c14.gen_method(rng))
                    d["run"]["limit"] = d["run"]["limit"] if d["run"]["limit"] is not None else rng.choice([3, 40])
                    if rng.random() < 0.5:
                        d["problem"] = dict(base["problem"], x0=[v + 1 for v in base["problem"]["x0"]])
                else:
                    d["op"] = rng.choice(["program", "solve", "repr", "build"])
            plan["shared"] = True
        plan["ops"] = [{"act": rng.choice(["case", "case", "case", "kept", "kept", "spoilt", "spoilt kept"]), "who": rng.randrange(8), "fault": None}
                       for _ in range(rng.randint(3, 8))]
        for e in plan["ops"]:
            e["fault"] = zoo.gen_fault(rng, plan["members"][e["who"] % len(plan["members"])])
        return plan
    if kind == "lp":
        boxed = rng.random() < 0.2
        if boxed:
            base = lp.boxed(lp.gen_spec(rng, rows=(1, 2), cols=(1, 2), sef=False, ip=True, half=0.05), rng, 2)
        else:
            base = lp.gen_spec(rng, rows=(1, 3), cols=(1, 4), wide=True)
        plan["members"] = [base]
        for _ in range(n):
            plan["members"].append(vary_spec(rng, rng.choice(plan["members"])))

        def query():
            while True:
                q = lp.gen_query(rng, base, ["branch_and_bound"] if boxed and rng.random() < 0.5 else None)
                if q["op"] != "branch_and_bound" or boxed:
                    return q
    else:
        base = {k: v for k, v in c26.generate(rng, tier, small=True).items() if k in ("names", "edges", "extra", "kind")}
        while base["kind"] != kind:
            base = {k: v for k, v in c26.generate(rng, tier, small=True).items() if k in ("names", "edges", "extra", "kind")}
        plan["members"] = [base]
        for _ in range(n):
            plan["members"].append(vary_graph(rng, rng.choice(plan["members"])))
        k = len(base["names"])

        def query():
            q = c26.gen_query(rng, kind, k)
            if q.get("order") == "fail":
                q["order"] = "length"
            return q
    def an_edit():
        if kind == "lp":
            if boxed and rng.random() < 0.5:
                # a bound that cuts into the box
                q = lp.gen_query(rng, base, ["add_constraint"])
                j = rng.randrange(len(base["c"]))
                return dict(q, row=[int(t == j) for t in range(len(base["c"]))], rel=rng.choice(["<=", "<=", ">="]), value=rng.randint(-1, 1))
            return lp.gen_query(rng, base, ["to_sef", "to_canonical_form", "simplex_iteration", "add_constraint", "add_constraint", "add_variable", "clear_steps"])
        return {"op": rng.choice(["add", "remove", "weight", "vertex", "swap", "swap", "swap"]), "a": rng.randrange(k), "b": rng.randrange(k),
                "w": rng.choice([0, 1, 2, 7])}

    main = query()
    if kind == "un" and rng.random() < 0.7:
        main = c26.gen_query(rng, kind, k, rng.choice(["is_connected", "is_cyclic", "partition", "is_tree", "has_spanning_tree", "bfs", "dfs", "cut", "stable", "repr"]))
    if kind == "di" and rng.random() < 0.5:
        main = c26.gen_query(rng, kind, k, rng.choice(["ford_fulkerson", "preflow_push", "create_residual"]))
    focus = rng.randrange(8) if rng.random() < 0.5 else None
    ops = []
    for _ in range(rng.randint(3, 9 if tier == "quick" else 14)):
        e = {"act": rng.choice(["ask"] * 6 + ["edit"] * 2 + ["derive"] * 2 + ["again"] * 3 + ["renew", "churn", "threads"]),
             "who": focus if focus is not None and rng.random() < 0.8 else rng.randrange(8),
             "q": main if rng.random() < 0.6 else query(), "fault": lp.gen_fault(rng) if rng.random() < 0.3 else {"kind": "none"}}
        if e["act"] == "edit":
            e["q"] = an_edit()
        elif e["act"] == "again":
            e["edits"] = [an_edit() for _ in range(rng.randint(1, 3))]
        elif e["act"] == "derive":
            e["how"] = rng.choice(["copy", "copy", "to_sef", "dual", "relax"])
        elif e["act"] == "churn":
            e["times"] = rng.randint(3, 8)
        elif e["act"] == "threads":
            e["clients"] = [{"who": rng.randrange(8), "q": main if rng.random() < 0.6 else query()} for _ in range(2)]
        ops.append(e)
    plan["ops"] = ops
    return plan


# ---- execution ----------------------------------------------------------------------------------
class Member:
    def __init__(self, kind, data):
        self.kind, self.data = kind, data
        self.table = None
        if kind == "lp":
            self.obj = lp.build(data)
        else:
            self.obj = c26.build(data)
            if kind == "di":
                names = data["names"]
                nodes, arcs = {}, {}
                for a, b, w in data["edges"]:
                    nodes.setdefault(names[a], 0)
                    nodes.setdefault(names[b], 0)
                    arcs[(names[a], names[b])] = w
                for a, w in data["extra"]:
                    nodes.setdefault(names[a], w)
                self.table = (nodes, arcs)

    def content(self):
        return content(self.kind, self.obj, self.table)


def execute(plan, ctx):
    kind = plan["kind"]
    if kind == "zoo":
        return zoo_run(plan, ctx)
    members = [core.must("construction", lambda: Member(kind, d)) for d in plan["members"]]
    names = None if kind == "lp" else plan["members"][0]["names"]

    def check(what, got, c, q):
        want = pristine.ask(("ask", kind, c, q, names))
        if got != want:
            raise Violation("answer-depends-on-history", f"{what}: {str(got)[:500]}; a new one of the same content in a new process {str(want)[:500]}")

    asked = 0
    for k, e in enumerate(plan["ops"]):
        i = e["who"] % len(members)
        m = members[i]
        act, q = e["act"], e["q"]
        what = f"op {k} {act} {q['op']} of member {i}"
        if act == "ask":
            c = m.content()
            if e["fault"]["kind"] == "none" or kind != "lp" and e["fault"]["kind"] != "int":
                got = ask(kind, m.obj, q, names)
                check(what, got, c, q)
                asked += 1
                ctx.write(k, q["op"], got)
                ctx.state(kind, q["op"], k)
            else:
                run = (lambda: lp.Query(q).run(m.obj)) if kind == "lp" else (lambda: c26.Q({"kind": kind, "names": names, "edges": [], "extra": []}, q).run(m.obj))
                trial = rebuild(kind, c)
                dry = (lambda: lp.Query(q).run(trial)) if kind == "lp" else (lambda: c26.Q({"kind": kind, "names": names, "edges": [], "extra": []}, q).run(trial))
                _, o = lp.faulted(ctx, e["fault"], run, dry, 3_000_000)
                ctx.write(k, q["op"], e["fault"]["kind"], o.hit)
        elif act == "again":
            # the same question before and after each of some edits
            for t in range(len(e["edits"]) + 1):
                c = m.content()
                check(f"{what}, after {t} edits", ask(kind, m.obj, q, names), c, q)
                if t < len(e["edits"]):
                    edit(m, e["edits"][t])
            asked += 1
            ctx.probe("questions repeated after edits", len(e["edits"]))
        elif act == "edit":
            edit(m, q)
            ctx.probe("edits")
        elif act == "derive":
            o = derive(m, e["how"])
            if o is not None:
                members.append(o)
                ctx.probe("derived members")
        elif act == "renew":
            # a dropped object makes room for another, perhaps at the same address
            j = (i + 1) % len(plan["members"])
            members[i] = None
            m = None
            gc.collect()
            members[i] = core.must("construction", lambda: Member(kind, plan["members"][j]))
            ctx.probe("renewed members")
        elif act == "churn":
            # objects come and go, the next at the address of the last
            datas = plan["members"]
            m = None
            gc.collect()
            for t in range(e["times"]):
                j = (i + t) % len(datas)
                fresh = core.must("construction", lambda: Member(kind, datas[j]))
                got = ask(kind, fresh.obj, q, names)
                check(f"{what}, object {t} made of member {j}'s data", got, fresh.content(), q)
                fresh = None
            asked += e["times"]
            ctx.probe("short-lived objects", e["times"])
        else:
            threads(plan, ctx, members, e, names, check, kind)
            asked += 2
    if asked:
        ctx.nontrivial = True


def edit(m, q):
    if m.kind == "lp":
        core.call(lambda: c18.apply(q, m.obj) if q["op"] != "clear_steps" else m.obj.clear_steps(True))
        return
    names = m.data["names"]
    a, b, w = names[q["a"]], names[q["b"]], q["w"]
    op = q["op"]
    if op == "swap":
        # one edge for another: the counts stay
        have = sorted(m.obj.edges if m.kind == "un" else m.obj.arcs)
        pairs = [(x, y) for x in sorted(names) for y in sorted(names) if (x < y if m.kind == "un" else x != y) and (x, y) not in have]
        if have and pairs:
            edit(m, dict(q, op="remove", pair=have[(q["a"] + 3 * q["b"]) % len(have)]))
            edit(m, dict(q, op="add", pair=pairs[(q["b"] + 5 * q["a"]) % len(pairs)]))
        return
    a, b = q.get("pair", (a, b))
    if m.kind == "un":
        core.call({"add": lambda: m.obj.add_edge((a, b), w), "remove": lambda: m.obj.remove_edge((a, b)),
                   "weight": lambda: m.obj.set_edge_weight((a, b), w), "vertex": lambda: m.obj.set_vertex_weight(a, w)}[op])
        return
    nodes, arcs = m.table
    if op in ("add", "weight"):
        o = core.call(lambda: m.obj.add_arc((a, b), w))
        if o.ok:
            nodes.setdefault(a, 0)
            nodes.setdefault(b, 0)
            arcs[(a, b)] = w
    else:
        o = core.call(lambda: m.obj.remove_arc((a, b)))
        if o.ok:
            del arcs[(a, b)]


def derive(m, how):
    if m.kind == "di" or how == "relax" and (m.kind != "lp" or not hasattr(m.obj, "relax")):
        return None
    if m.kind == "un":
        how = "copy"
    o = core.call(lambda: {"copy": lambda: m.obj.copy(), "to_sef": lambda: m.obj.to_sef(), "dual": lambda: m.obj.dual(),
                           "relax": lambda: m.obj.relax()}[how]())
    if not o.ok:
        return None
    new = Member.__new__(Member)
    new.kind, new.data, new.table, new.obj = m.kind, m.data, None, o.value
    return new


def threads(plan, ctx, members, e, names, check, kind):
    clients = [(members[c["who"] % len(members)], c["q"]) for c in e["clients"]]
    contents = [m.content() for m, _ in clients]
    wants = [pristine.ask(("ask", kind, c, q, names)) for c, (_, q) in zip(contents, clients)]
    sched = core.Scheduler(plan["segs"], plan["gran"], 8_000_000, ctx=ctx)
    got = {}

    def client(i):
        def body(me):
            m, q = clients[i]
            x = lp.Query(q) if kind == "lp" else c26.Q({"kind": kind, "names": names, "edges": [], "extra": []}, q)
            if kind == "di":
                x.flow = flows(m.obj, q) if q["op"] == "create_residual" else {}
            got[i] = core.guarded(sched, lambda: x.run(m.obj))
        return body

    sched.run([client(0), client(1)])
    n = sum(s[2] != "exit" for s in sched.switches)
    if n:
        ctx.fault("preemption", n)
    for i, (m, q) in enumerate(clients):
        o = got[i]
        if kind == "lp":
            a = lp.outcome(o)
        elif q["op"] in c26.UNDECIDED:
            continue
        elif q["op"] in ("ford_fulkerson", "preflow_push") and o.ok:
            a = ("ok", core.norm(o.value[0][0]))
        else:
            a = c26.answer(o)
        w = wants[i][0]
        if a != w:
            raise Violation("answer-depends-on-history", f"concurrent {q['op']}: {str(a)[:500]}; a new one of the same content in a new process {str(w)[:500]}")


def zoo_run(plan, ctx):
    kept = {}
    for k, e in enumerate(plan["ops"]):
        case = plan["members"][e["who"] % len(plan["members"])]
        home = "shared" if plan.get("shared") else e["who"] % len(plan["members"])
        made = kept.get(home) if e["act"].endswith("kept") and case.get("op") != "where" else None
        if e["act"].startswith("spoilt"):
            f = dict(e["fault"])
            own = zoo.own_kind(case)
            if f["kind"] == "own" and own is None:
                f["kind"] = "int"
                f.update(v=0.5, gran="line", exc="int")
            if f["kind"] == "own" and f["exc"] not in zoo.OWN[own]:
                f["exc"] = zoo.OWN[own][0]
            zoo.disturbed(ctx, case, f, made=made)
            continue
        x = zoo.Case(case, made=made)
        if made is not None:
            ctx.probe("objects asked again")
        got = x.answer(core.call(x.run))
        want = pristine.ask(("case", case))
        kept[home] = x.keep()
        ctx.write(k, x.name(), got)
        ctx.state(x.name(), k)
        if case["family"] == "graph" and case["q"]["op"] in ("ford_fulkerson", "preflow_push") and got[0] == want[0] == "ok":
            got, want = got[1][1], want[1][1]
        if got != want:
            raise Violation("answer-depends-on-history", f"op {k} {x.name()}: {str(got)[:500]}; in a new process {str(want)[:500]}")
    ctx.nontrivial = True
