"""C08: directed graph edits keep every view consistent."""
from .. import core, gr, lp
from ..core import Violation

LISTS = ("ops", "worlds")
INTS = ()


def generate(rng, tier):
    k = rng.choice([2, 3, 4, 5, 6] * 6 + [9, 14])
    names = gr.gen_names(rng, k)
    init = {"how": rng.choice(["empty", "arcs", "graph", "all"]),
            "arcs": [[rng.randrange(k), rng.randrange(k), rng.choice([0, 1, 3, 2.5])] for _ in range(rng.randint(0, 6))],
            "nodes": [[rng.randrange(k), rng.choice([0, 1, 4])] for _ in range(rng.randint(0, 3))]}
    ops = []
    for _ in range(rng.randint(3, 14 if tier == "quick" else 28)):
        op = rng.choice(["add_arc"] * 8 + ["add_node"] * 2 + ["remove_arc"] * 5 + ["set_arc_weight"] * 2 + ["set_node_weight", "write", "interrupt"])
        ops.append({"op": op, "target": rng.randrange(4), "a": rng.randrange(k), "b": rng.randrange(k), "w": rng.choice([0, 1, 2.5, 7]),
                    "pick": rng.randrange(256), "u": rng.randrange(10000) / 10000, "v": rng.randrange(10000) / 10000,
                    "demands": rng.choice(["none", "none", "none", "tuple", "scalar"]), "nodes": rng.random() < 0.5,
                    "bad": rng.choice(["", "", "", "", "", "self", "exists", "missing", "type"])})
    return {"k": k, "worlds": [names, gr.rename(rng, names)], "init": init, "ops": ops, "graphs": rng.choice([1, 1, 2])}


class Model:
    def __init__(self):
        self.n, self.a = set(), {}

    def add_arc(self, arc, w):
        self.a[arc] = w
        self.n.update(arc)


def compare(g, m, pick):
    bad = []

    def eq(what, got, want):
        if got != want:
            bad.append(f"{what} is {got!r}, expected {want!r}")

    eq("nodes", sorted(g.nodes), sorted(m.n))
    eq("arcs", sorted(g.arcs), sorted(m.a))
    if bad:
        return bad
    ns = sorted(m.n)
    for v in ns:
        out, inn = {e for e in m.a if e[0] == v}, {e for e in m.a if e[1] == v}
        eq(f"has_node {v}", g.has_node(v), True)
        eq(f"cut {v}", sorted(g.cut(v)), sorted(out))
        eq(f"ncut {v}", sorted(g.ncut(v)), sorted(inn))
        eq(f"outdegree {v}", g.outdegree(v), len(out))
        eq(f"indegree {v}", g.indegree(v), len(inn))
        eq(f"connections {v}", g.connections(v), len(out) + len(inn))
        for u in ns:
            eq(f"has_arc {(v, u)}", g.has_arc((v, u)), (v, u) in m.a)
    eq("has_node of a stranger", g.has_node("stranger"), False)
    sub = {v for i, v in enumerate(ns) if pick >> i & 1}
    out = {e for e in m.a if e[0] in sub and e[1] not in sub}
    inn = {e for e in m.a if e[1] in sub and e[0] not in sub}
    given = set(sub)
    for form in (given, sorted(sub)):
        eq(f"cut {sorted(sub)}", sorted(g.cut(form)), sorted(out))
        eq(f"ncut {sorted(sub)}", sorted(g.ncut(form)), sorted(inn))
        eq(f"connections {sorted(sub)}", g.connections(form), len(out) + len(inn))
    eq(f"cut of an iterator over {sorted(sub)}", sorted(g.cut(iter(sorted(sub)))), sorted(out))
    eq(f"ncut of a generator over {sorted(sub)}", sorted(g.ncut(v for v in sorted(sub))), sorted(inn))
    for name, want in (("outdegree", out), ("indegree", inn)):
        f = getattr(g, name, None)
        if callable(f):
            eq(f"{name} of an iterator over {sorted(sub)}", f(iter(sorted(sub))), len(want))
    eq("the argument of cut", given, sub)
    # capacities, through residual graphs
    for e, w in m.a.items():
        o = core.call(lambda: g.create_residual({e: w + 0.5}))
        if o.ok or not isinstance(o.exc, ArithmeticError):
            bad.append(f"a flow above the capacity {w} of {e} gave {o}")
    flow = {}
    for i, (e, w) in enumerate(sorted(m.a.items())):
        flow[e] = [0, w, w / 2][(pick >> (i % 6)) % 3]
    res = {}
    for (u, v), w in m.a.items():
        f = flow[(u, v)]
        if w - f > 0:
            res[(u, v)] = res.get((u, v), 0) + w - f
        if f > 0:
            res[(v, u)] = res.get((v, u), 0) + f
    given = dict(flow)
    r = g.create_residual(given)
    eq("the flow given to create_residual", given, flow)
    eq(f"arcs of the residual graph for {flow}", sorted(r.arcs), sorted(res))
    if not bad:
        for e, w in res.items():
            for extra, fine in ((0, True), (0.25, False)):
                o = core.call(lambda: r.create_residual({e: w + extra}))
                if o.ok != fine:
                    bad.append(f"residual capacity of {e} for {flow}: {w + extra} {'accepted' if o.ok else 'rejected'}, expected capacity {w}")
    for wrong in ({("stranger", "x"): 0}, {e: -1 for e in list(m.a)[:1]}):
        if wrong:
            o = core.call(lambda: g.create_residual(wrong))
            if o.ok or not isinstance(o.exc, ValueError):
                bad.append(f"create_residual({wrong}) gave {o}")
    return bad


def construct(init, names):
    m = Model()
    arcs, graph, nodes = {}, {}, {}
    for a, b, w in init["arcs"]:
        if a != b:
            e = (names[a], names[b])
            if init["how"] in ("arcs", "all"):
                arcs[e] = w
            if init["how"] in ("graph", "all"):
                graph.setdefault(e[0], set()).add(e[1])
    for v, w in init["nodes"]:
        nodes[names[v]] = w
        if init["how"] in ("graph", "all"):
            graph.setdefault(names[v], set())
    for v, s in graph.items():
        m.n.add(v)
        for u in s:
            m.add_arc((v, u), 0)
    for e, w in arcs.items():
        m.add_arc(e, w)
    if init["how"] != "empty":
        m.n.update(nodes)
    g = core.must("construction", lambda: gr.DirectedGraph(graph=graph or None, arcs=arcs or None,
                                                           nodes=nodes if init["how"] != "empty" else None))
    for d in (graph, arcs, nodes):
        for x in list(d):
            if isinstance(d[x], set):
                d[x].add("later")
            else:
                d[x] = 99
    return g, m


def world(plan, names, ctx):
    pairs = [construct(plan["init"], names) for _ in range(plan["graphs"])]

    def check(what, pick):
        for i, (g, m) in enumerate(pairs):
            d = core.must(f"reading after {what}", lambda: compare(g, m, pick + i))
            if d:
                raise Violation("views-wrong", f"{what} (graph {i}): {'; '.join(d)[:700]}")

    check("construction", 5)
    for k, e in enumerate(plan["ops"]):
        g, m = pairs[e["target"] % len(pairs)]
        op, bad, w = e["op"], e["bad"], e["w"]
        a, b = names[e["a"]], names[e["b"]]
        arcs = sorted(m.a)
        if op == "write":
            g.nodes.clear()
            g.arcs.clear()
            if m.n:
                for x in (g.cut(sorted(m.n)[0]), g.ncut(sorted(m.n)[0])):
                    x.clear()
            ctx.fault("write to a collection handed out")
            check(f"op {k} writing to what views returned", e["pick"])
            continue
        if op == "interrupt":
            s = set(sorted(m.n)[:2])
            views = [lambda: g.cut(s), lambda: g.ncut(s), lambda: g.connections(s), lambda: g.create_residual(dict(m.a)), lambda: g.arcs]
            f = views[e["pick"] % len(views)]
            trace = []
            core.call(f, record=trace)
            o = core.call(f, at=core.pick_event(trace, e["u"], e["v"]))
            ctx.want("interrupt")
            if o.hit:
                ctx.fault("interrupt")
                ctx.site(o.hit)
            check(f"op {k} interrupted read", e["pick"])
            continue
        if op in ("remove_arc", "set_arc_weight") and arcs and bad == "":
            a, b = arcs[e["pick"] % len(arcs)]
        if op == "set_node_weight" and m.n and bad == "":
            a = sorted(m.n)[e["pick"] % len(m.n)]
        arc = (a, b)
        if op == "add_arc":
            if bad == "self":
                arc = (a, a)
            elif bad == "exists" and arcs:
                arc = arcs[e["pick"] % len(arcs)]
            elif bad == "type":
                arc = [a, b]
            new = len({x for x in arc if x not in m.n})
            demands = {"none": None, "tuple": (1, 2), "scalar": 3}[e["demands"]]
            ok = bad != "type" and arc[0] != arc[1] and arc not in m.a and not (e["demands"] == "scalar" and new == 2)
            fn, apply = (lambda: g.add_arc(arc, w, demands)), (lambda: m.add_arc(arc, w))
            text = f"add_arc({arc},{w},{demands})"
        elif op == "add_node":
            v = [a] if bad == "type" else a
            ok = bad != "type" and a not in m.n
            fn, apply, text = (lambda: g.add_node(v, w)), (lambda: m.n.add(a)), f"add_node({v})"
        elif op == "remove_arc":
            ok = arc in m.a

            def apply():
                del m.a[arc]
                if e["nodes"]:
                    for x in arc:
                        if not any(x in y for y in m.a):
                            m.n.discard(x)
            fn, text = (lambda: g.remove_arc(arc, e["nodes"])), f"remove_arc({arc},{e['nodes']})"
        elif op == "set_arc_weight":
            ok = arc in m.a
            fn, apply, text = (lambda: g.set_arc_weight(arc, w)), (lambda: m.a.__setitem__(arc, w)), f"set_arc_weight({arc},{w})"
        else:
            ok = a in m.n
            fn, apply, text = (lambda: g.set_node_weight(a, w)), (lambda: None), f"set_node_weight({a})"
        o = core.call(fn)
        what = f"op {k} {text}"
        ctx.write(k, op, o.ok)
        if o.ok:
            if not ok:
                raise Violation("invalid-edit-accepted", what)
            apply()
            check(what, e["pick"])
        else:
            if ok:
                raise Violation("valid-edit-rejected", f"{what}: {type(o.exc).__name__}: {o.exc}")
            ctx.fault("rejected edit")
            check(f"rejected {what}", e["pick"])
        ctx.state(sorted(m.n), sorted(m.a.items()))


def execute(plan, ctx):
    for names in plan["worlds"]:
        ctx.want("hash assignment")
        world(plan, names, ctx)
    if len(plan["worlds"]) > 1:
        ctx.fault("other hash values", len(plan["worlds"]) - 1)
