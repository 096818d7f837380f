"""C07: undirected graph edits keep every view consistent; copies and views are independent."""
from .. import big, core, gr, lp
from ..core import Violation

LISTS = ("ops", "owners", "edits", "segs", "worlds", "blocks")
INTS = ("segs",)


def gen_edit(rng, k):
    op = rng.choice(["add_edge"] * 8 + ["add_vertex"] * 3 + ["remove_edge"] * 4 + ["set_edge_weight"] * 2 + ["set_vertex_weight"] * 2)
    return {"op": op, "a": rng.randrange(k), "b": rng.randrange(k), "w": rng.choice([0, 0, 1, 2.5, 7]), "pick": rng.randrange(64),
            "bad": rng.choice(["", "", "", "", "", "neg", "self", "exists", "missing", "empty", "type", "typew"])}


def generate(rng, tier):
    if rng.random() < big.RATE:
        ops = [dict(gen_edit(rng, 1 << 20), act=rng.choice(["edit"] * 5 + ["copy", "partition", "interrupt"]), u=rng.randrange(10 ** 6) / 10 ** 6)
               for _ in range(rng.randint(2, 6))]
        return {"big": big.gen(rng, 4, 26), "ops": ops}
    k = rng.choice([2, 3, 4, 5, 6] * 6 + [9, 14])
    names = gr.gen_names(rng, k)
    worlds = [names] + [gr.rename(rng, names) for _ in range(1)]
    if rng.random() < 0.3:
        rng.shuffle(worlds)
    init = {"how": rng.choice(["empty", "edges", "graph", "all"]),
            "edges": [[rng.randrange(k), rng.randrange(k), rng.choice([0, 1, 3])] for _ in range(rng.randint(0, 5))],
            "vertices": [[rng.randrange(k), rng.choice([0, 1, 4])] for _ in range(rng.randint(0, 3))]}
    ops = []
    for _ in range(rng.randint(3, 12 if tier == "quick" else 25)):
        r = rng.random()
        t = rng.randrange(8)
        if r < 0.68:
            ops.append(dict(gen_edit(rng, k), act="edit", target=t))
        elif r < 0.82:
            ops.append({"act": "copy", "target": t})
        elif r < 0.93:
            ops.append({"act": "write", "target": t, "where": rng.choice(["edges", "vertices", "graph", "inner", "cut", "partition"]), "pick": rng.randrange(64)})
        else:
            ops.append({"act": "interrupt", "target": t, "u": rng.randrange(10000) / 10000, "v": rng.randrange(10000) / 10000, "pick": rng.randrange(64)})
    n = rng.choice([0, 0, 2, 3])
    owners = [{"edits": [gen_edit(rng, k) for _ in range(rng.randint(2, 6))]} for _ in range(n)]
    return {"k": k, "worlds": worlds, "init": init, "ops": ops, "owners": owners, "gran": "instr" if rng.random() < 0.3 else "line",
            "segs": core.gen_segs(rng, max(n, 1))}


class Model:
    def __init__(self):
        self.v, self.e = {}, {}

    def copy(self):
        m = Model()
        m.v, m.e = dict(self.v), dict(self.e)
        return m

    def adj(self):
        a = {v: set() for v in self.v}
        for x, y in self.e:
            a[x].add(y)
            a[y].add(x)
        return a

    def add_edge(self, e, w):
        e = tuple(sorted(e))
        self.e[e] = w
        for x in e:
            self.v.setdefault(x, 0)


def compare(g, m, full, pick=0):
    adj = m.adj()
    bad = []

    def eq(what, got, want):
        if got != want:
            bad.append(f"{what} is {got!r}, expected {want!r}")

    eq("vertices", dict(g.vertices), m.v)
    eq("edges", dict(g.edges), m.e)
    eq("graph", {v: set(s) for v, s in g.graph.items()}, adj)
    if bad or not full:
        return bad
    eq("is_empty", g.is_empty(), not m.v)
    for v in m.v:
        eq(f"has_vertex {v}", g.has_vertex(v), True)
        eq(f"get_vertex_weight {v}", g.get_vertex_weight(v), m.v[v])
        eq(f"degree {v}", g.degree(v), len(adj[v]))
        eq(f"cut {v}", set(g.cut(v)), {e for e in m.e if v in e})
    vs = sorted(m.v)
    for i, a in enumerate(vs):
        for b in vs[i + 1:]:
            for e in ((a, b), (b, a)):
                eq(f"has_edge {e}", g.has_edge(e), (a, b) in m.e)
                if (a, b) in m.e:
                    eq(f"get_edge_weight {e}", g.get_edge_weight(e), m.e[(a, b)])
    sub = {v for i, v in enumerate(vs) if pick >> i & 1}
    want = {e for e in m.e if (e[0] in sub) != (e[1] in sub)}
    given = set(sub)
    eq(f"cut {sorted(sub)}", set(g.cut(given)), want)
    eq("the argument of cut", given, sub)
    eq(f"cut of the list {sorted(sub)}", set(g.cut(sorted(sub))), want)
    eq(f"cut of an iterator over {sorted(sub)}", set(g.cut(iter(sorted(sub)))), want)
    eq(f"degree {sorted(sub)}", g.degree(given), len(want))
    parts = gr.components(m.v, adj)
    connected = len(parts) == 1
    cyclic = len(m.e) > len(m.v) - len(parts)
    eq("is_connected", bool(g.is_connected()), connected)
    eq("has_spanning_tree", bool(g.has_spanning_tree()), connected)
    eq("is_cyclic", bool(g.is_cyclic()), cyclic)
    eq("is_tree", bool(g.is_tree()), connected and not cyclic)
    got = g.partition()
    eq("partition", sorted(sorted(p.vertices) for p in got), sorted(sorted(p) for p in parts))
    for p in got:
        vs2 = set(p.vertices)
        eq("weights in partition", dict(p.vertices), {v: w for v, w in m.v.items() if v in vs2})
        eq("edges in partition", dict(p.edges), {e: w for e, w in m.e.items() if e[0] in vs2})
        eq("graph in partition", {v: set(s) for v, s in p.graph.items()}, {v: s for v, s in adj.items() if v in vs2})
    lines = sorted(x.rstrip() for x in repr(g).split("\n")) if m.v else [""]
    eq("repr", lines if m.v else [repr(g)], sorted(f"{v}: {'-'.join(sorted(s))}".rstrip() for v, s in adj.items()) if m.v else [""])
    same = gr.UndirectedGraph(vertices=dict(m.v), edges=dict(m.e))
    eq("== with an equal graph", g == same, True)
    if m.e:
        e = sorted(m.e)[pick % len(m.e)]
        less = gr.UndirectedGraph(vertices=dict(m.v), edges={x: w for x, w in m.e.items() if x != e})
        eq("== with a graph lacking an edge", g == less, False)
        eq("a graph lacking an edge == this one", less == g, False)
        other = {x: w + 1 if x == e else w for x, w in m.e.items()}
        heavier = gr.UndirectedGraph(vertices=dict(m.v), edges=dict(other))
        eq("== with a graph of another edge weight", g == heavier, other == m.e)
        eq("!= with a graph of another edge weight", g != heavier, other != m.e)
    if m.v:
        a, b = vs[pick % len(vs)], vs[(pick >> 3) % len(vs)]
        other = dict(m.v)
        other[a], other[b] = m.v[b], m.v[a]
        if pick & 2:
            other[a] += 1
        swapped = gr.UndirectedGraph(vertices=other, edges=dict(m.e))
        eq("== with a graph whose vertices weigh otherwise", g == swapped, other == m.v)
        eq("a graph whose vertices weigh otherwise == this one", swapped == g, other == m.v)
    return bad


def resolve(e, names, m):
    """The concrete call of an edit, and whether it must be accepted; applies nothing."""
    a, b = names[e["a"]], names[e["b"]]
    op, bad, w = e["op"], e["bad"], e["w"]
    edges = sorted(m.e)
    if op in ("remove_edge", "set_edge_weight") and edges and bad == "":
        a, b = edges[e["pick"] % len(edges)]
        if e["pick"] & 32:
            a, b = b, a
    if op in ("set_vertex_weight",) and m.v and bad == "":
        a = sorted(m.v)[e["pick"] % len(m.v)]
    key = tuple(sorted((a, b)))
    if op == "add_edge":
        if bad == "neg":
            w = -1
        elif bad == "self":
            b = a
        elif bad == "exists" and edges:
            b, a = edges[e["pick"] % len(edges)]
            key = (b, a)
        elif bad == "empty":
            a = ""
        elif bad == "type":
            b = 3
        elif bad == "typew":
            w = "heavy"
        ok = bad not in ("neg", "self", "empty", "type", "typew") and a != b and key not in m.e
        return (lambda g: g.add_edge((a, b), w)), ok, (lambda: m.add_edge((a, b), w)), f"add_edge({a!r},{b!r},{w!r})"
    if op == "add_vertex":
        if bad == "neg":
            w = -2
        elif bad == "typew":
            w = "heavy"
        elif bad == "type":
            a = ["x"]
        ok = bad not in ("neg", "typew", "type") and a not in m.v
        return (lambda g: g.add_vertex(a, w)), ok, (lambda: m.v.setdefault(a, w)), f"add_vertex({a!r},{w!r})"
    if op == "remove_edge":
        if bad == "type":
            b = 3
        return (lambda g: g.remove_edge((a, b))), bad != "type" and key in m.e, (lambda: m.e.pop(key)), f"remove_edge({a!r},{b!r})"
    if op == "set_edge_weight":
        return (lambda g: g.set_edge_weight((a, b), w)), key in m.e, (lambda: m.e.__setitem__(key, w)), f"set_edge_weight({a!r},{b!r},{w})"
    return (lambda g: g.set_vertex_weight(a, w)), a in m.v, (lambda: m.v.__setitem__(a, w)), f"set_vertex_weight({a!r},{w})"


def construct(init, names):
    m = Model()
    edges, graph, vertices = {}, {}, {}
    for a, b, w in init["edges"]:
        if a != b:
            e = (names[a], names[b])
            if init["how"] in ("edges", "all") and tuple(sorted(e)) not in {tuple(sorted(x)) for x in edges}:
                edges[e] = w
            if init["how"] in ("graph", "all"):
                graph.setdefault(e[0], set()).add(e[1])
    for v, w in init["vertices"]:
        vertices[names[v]] = w
        if init["how"] in ("graph", "all"):
            graph.setdefault(names[v], set())
    for v, s in graph.items():
        m.v.setdefault(v, 0)
        for u in s:
            m.add_edge((v, u), 0)
    for e, w in edges.items():
        m.add_edge(e, w)
    for v, w in (vertices if init["how"] != "empty" else {}).items():
        m.v[v] = w
    args = {"graph": graph or None, "edges": edges or None, "vertices": vertices if init["how"] != "empty" else None}
    g = core.must("construction", lambda: gr.UndirectedGraph(**args))
    # the caller goes on using its own collections
    for d in (graph, edges, vertices):
        for x in list(d):
            if isinstance(d[x], set):
                d[x].add("later")
            else:
                d[x] = 99
        d["later"] = set()
    return g, m


def world(plan, names, ctx):
    g, m = construct(plan["init"], names)
    gs, ms = [g], [m]

    def check(what, changed=None, pick=0):
        for i, (x, y) in enumerate(zip(gs, ms)):
            d = core.must(f"reading after {what}", lambda: compare(x, y, i == changed, pick))
            if d:
                kind = "views-wrong" if i == changed else "other-graph-changed"
                raise Violation(kind, f"{what} (graph {i}): {'; '.join(d)[:700]}")

    check("construction", 0, 5)
    for k, e in enumerate(plan["ops"]):
        t = e["target"] % len(gs)
        x, y = gs[t], ms[t]
        if e["act"] == "copy":
            gs.append(core.must("copy", x.copy))
            ms.append(y.copy())
            check(f"op {k} copy", len(gs) - 1, 3)
            if not (gs[-1] == x):
                raise Violation("views-wrong", "a copy is not equal to its graph")
        elif e["act"] == "write":
            where = e["where"]
            if where in ("edges", "vertices", "graph"):
                d = getattr(x, where)
                d[("intruder", "z") if where == "edges" else "intruder"] = {"z"} if where == "graph" else 5
                for key in list(d)[:1]:
                    del d[key]
            elif where == "inner":
                for s in x.graph.values():
                    s.add("intruder")
            elif where == "cut":
                if y.v:
                    x.cut(sorted(y.v)[0]).clear()
            else:
                for part in x.partition():
                    for s in part.graph.values():
                        s.clear()
                    core.call(lambda: part.add_vertex("intruder"))
                    if part.edges:
                        core.call(lambda: part.remove_edge(sorted(part.edges)[0]))
            ctx.fault("write to a collection handed out")
            check(f"op {k} writing to what {where} returned", t, e["pick"])
        elif e["act"] == "interrupt":
            views = [lambda: x.partition(), lambda: x.is_cyclic(), lambda: x.is_tree(), lambda: x.cut(set(y.v)), lambda: x.copy(),
                     lambda: repr(x), lambda: x.is_connected(), lambda: x.graph]
            f = views[e["pick"] % len(views)]
            trace = []
            core.call(f, record=trace)
            o = core.call(f, at=core.pick_event(trace, e["u"], e["v"]))
            ctx.want("interrupt")
            if o.hit:
                ctx.fault("interrupt")
                ctx.site(o.hit)
            check(f"op {k} interrupted read", t, e["pick"])
        else:
            fn, ok, apply, text = resolve(e, names, y)
            o = core.call(lambda: fn(x))
            what = f"op {k} {text}"
            ctx.write(k, e["op"], o.ok)
            if o.ok:
                if not ok:
                    raise Violation("invalid-edit-accepted", what)
                apply()
                check(what, t, e["pick"])
            else:
                if ok:
                    raise Violation("valid-edit-rejected", f"{what}: {type(o.exc).__name__}: {o.exc}")
                ctx.fault("rejected edit")
                check(f"rejected {what}", t, e["pick"])
        ctx.state(sorted(y.v), sorted(y.e))
    owners = plan["owners"]
    if not owners:
        return
    # owners of different, related graphs edit from their own threads
    mine = []
    for i in range(len(owners)):
        g2 = core.must("copy", gs[-1].copy) if i else gs[-1]
        mine.append((g2, ms[-1].copy()))
    sched = core.Scheduler(plan["segs"], plan["gran"], ctx=ctx)
    fail = []

    def owner(i):
        def body(me):
            x, y = mine[i]
            for e in owners[i]["edits"]:
                fn, ok, apply, text = resolve(e, names, y)
                o = core.guarded(sched, lambda: fn(x))
                if o.ok != ok:
                    fail.append(("edit-outcome", f"owner {i}: {text} {'accepted' if o.ok else f'raised {o.exc!r}'}"))
                if ok:
                    apply()
                d = compare(x, y, False)
                if d:
                    fail.append(("owners-interfere", f"owner {i} after {text}: {'; '.join(d)[:500]}"))
                sched.yield_point()
        return body

    sched.run([owner(i) for i in range(len(owners))])
    if fail:
        raise Violation(*fail[0])
    for i, (x, y) in enumerate(mine):
        d = compare(x, y, True, 21)
        if d:
            raise Violation("owners-interfere", f"owner {i} at the end: {'; '.join(d)[:500]}")


def large(plan, ctx):
    names = big.names(plan["big"])
    m = Model()
    for v in names:
        m.v[v] = 0
    for i, j in big.pairs(plan["big"]):
        m.add_edge((names[i], names[j]), (i + j) % 5)
    if plan["big"]["seed"] & 4:
        g = core.must("construction", lambda: gr.UndirectedGraph(graph=m.adj()))
        for e, w in m.e.items():
            g.set_edge_weight(e, w)
    else:
        g = core.must("construction", lambda: gr.UndirectedGraph(edges=dict(m.e)))
    gs, ms = [g], [m]

    def check(what, full=True):
        for n, (x, y) in enumerate(zip(gs, ms)):
            d = core.must(f"reading after {what}", lambda: compare(x, y, False))
            if d:
                raise Violation("views-wrong", f"{what} (graph {n} of {len(gs)}): {d[0][:200]} ...")
            if not full:
                continue
            adj = y.adj()
            parts = gr.components(y.v, adj)
            cyclic = len(y.e) > len(y.v) - len(parts)
            want = {"is_connected": len(parts) == 1, "is_cyclic": cyclic, "is_tree": len(parts) == 1 and not cyclic, "has_spanning_tree": len(parts) == 1}
            for q, w in want.items():
                got = core.must(f"{q} after {what}", lambda: bool(getattr(x, q)()))
                if got != w:
                    raise Violation("views-wrong", f"{what}: {q} of graph {n} ({plan['big']['shape']}, {len(y.v)} vertices) is {got}")
            got = core.must(f"partition after {what}", x.partition)
            if sorted(sorted(p.vertices) for p in got) != sorted(sorted(p) for p in parts):
                raise Violation("views-wrong", f"{what}: partition of graph {n} ({plan['big']['shape']}, {len(y.v)} vertices) is wrong")
            for v in list(y.v)[::97]:
                if x.degree(v) != len(adj[v]) or x.cut(v) != {e for e in y.e if v in e}:
                    raise Violation("views-wrong", f"{what}: degree or cut of {v}")

    check("construction")
    for k, e in enumerate(plan["ops"]):
        x, y = gs[e["pick"] % len(gs)], ms[e["pick"] % len(gs)]
        what = f"op {k} {e['act']}"
        if e["act"] == "copy":
            gs.append(core.must("copy", x.copy))
            ms.append(y.copy())
        elif e["act"] == "partition":
            for part in core.must("partition", x.partition):
                core.call(lambda: part.add_vertex("intruder"))
                if part.edges:
                    core.call(lambda: part.remove_edge(sorted(part.edges)[0]))
        elif e["act"] == "interrupt":
            f = [x.partition, x.is_cyclic, x.is_tree, x.copy, x.is_connected][e["a"] % 5]
            ctx.want("interrupt")
            n = core.call(f).events
            o = core.call(f, at=1 + int(e["u"] * n))
            if o.hit:
                ctx.fault("interrupt")
                ctx.site(o.hit)
        else:
            fn, ok, apply, text = resolve(dict(e, a=e["a"] % len(names), b=e["b"] % len(names)), names, y)
            what = f"op {k} {text}"
            o = core.call(lambda: fn(x))
            if o.ok != ok:
                raise Violation("invalid-edit-accepted" if o.ok else "valid-edit-rejected", f"{what}: {o}"[:600])
            if ok:
                apply()
            else:
                ctx.fault("rejected edit")
        check(what, k % 2 == 0 or k == len(plan["ops"]) - 1)
    ctx.probe("large graph")
    ctx.state(plan["big"]["shape"], len(names), len(m.e))


def execute(plan, ctx):
    if "big" in plan:
        return large(plan, ctx)
    for names in plan["worlds"]:
        ctx.want("hash assignment")
        world(plan, names, ctx)
    if len(plan["worlds"]) > 1:
        ctx.fault("other hash values", len(plan["worlds"]) - 1)
