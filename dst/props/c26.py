"""C26: graph queries never alter the graph, even when cut short, and concurrent queries on one graph answer as if alone."""
from .. import big, core, gr, lp, seams
from ..core import Violation

LISTS = ("ops", "clients", "segs", "pairs", "at", "blocks")
INTS = ("segs",)
UN = ["repr", "eq", "has_edge", "has_vertex", "get_edge_weight", "get_vertex_weight", "cut", "cut", "degree", "stable", "stable", "dfs", "bfs", "bfs",
      "walk", "is_connected", "is_connected", "is_cyclic", "is_cyclic", "partition", "partition", "copy", "is_empty", "has_spanning_tree", "is_tree",
      "is_tree", "edges", "graph", "vertices", "shortest_path", "formulate_shortest_path"]
DI = ["cut", "cut", "ncut", "ncut", "has_node", "has_arc", "indegree", "outdegree", "connections", "create_residual", "create_residual", "preflow_push",
      "preflow_push", "ford_fulkerson", "ford_fulkerson", "arcs", "nodes"]
UNDECIDED = {"shortest_path", "formulate_shortest_path"}   # what they answer is another matter; they must leave the graph alone
CALLERS = ("list", "set", "tuple", "str")


def gen_query(rng, kind, k, name=None):
    q = {"op": name or rng.choice(UN if kind == "un" else DI), "a": rng.randrange(k), "b": rng.randrange(k), "mask": rng.randrange(1 << k),
         "form": rng.choice(CALLERS)}
    if rng.random() < 0.06:
        q["stranger"] = True
    if q["op"] == "walk":
        q.update(order=rng.choice(["none", "length", "reverse", "fail"]), method=rng.choice(["bfs", "dfs"]), stop=rng.choice([None, None, 1, 2]),
                 fail=rng.randint(1, 5))
    return q


def generate(rng, tier, small=False):
    if not small and rng.random() < big.RATE:
        return {"big": big.gen(rng, 4, 26), "kind": rng.choice(["un", "di"]),
                "ops": [{"op": rng.randrange(64), "u": rng.randrange(10 ** 6) / 10 ** 6, "cut short": rng.random() < 0.7} for _ in range(rng.randint(1, 4))]}
    kind = rng.choice(["un", "di"])
    k = rng.randint(2, 6 if rng.random() < 0.85 else 9)
    names = gr.gen_names(rng, k)
    pairs = [[i, j] for i in range(k) for j in range(k) if (i < j if kind == "un" else i != j)]
    rng.shuffle(pairs)
    dense = rng.choice([0.1, 0.3, 0.5, 0.9])
    edges = [[i, j, rng.choice([0, 1, 1, 2, 2.5, 5])] for i, j in pairs[:int(dense * len(pairs)) + 1]]
    extra = [[i, rng.choice([0, 1, 3])] for i in range(k) if rng.random() < 0.5]
    ops = []
    for _ in range(rng.randint(1, 4)):
        ops.append({"q": gen_query(rng, kind, k), "fault": lp.gen_fault(rng), "probe": gen_query(rng, kind, k)})
    n = rng.choice([0, 2, 2, 3])
    clients = []
    for _ in range(n):
        c = {"ops": [gen_query(rng, kind, k) for _ in range(rng.choice([1, 1, 2]))]}
        if rng.random() < 0.12:
            c["interrupt"] = rng.randrange(10 ** 6) / 10 ** 6
        clients.append(c)
    nested = []
    for _ in range(rng.choice([0, 1, 2])):
        a = gen_query(rng, kind, k)
        b = gen_query(rng, kind, k, a["op"] if rng.random() < 0.5 else None)
        nested.append({"ops": [a, b], "at": [rng.randrange(10 ** 6) / 10 ** 6 for _ in range(rng.choice([2, 5]))]})
    return {"kind": kind, "names": names, "edges": edges, "extra": extra, "ops": ops, "clients": clients, "pairs": nested,
            "gran": "instr" if rng.random() < 0.35 else "line", "segs": core.gen_segs(rng, max(n, 1))}


def build(plan):
    names = plan["names"]
    arcs = {(names[i], names[j]): w for i, j, w in plan["edges"]}
    nodes = {names[i]: w for i, w in plan["extra"]}
    if plan["kind"] == "un":
        return gr.UndirectedGraph(edges=arcs, vertices=nodes)
    return gr.DirectedGraph(arcs=arcs, nodes=nodes)


def probe_digraph(g, arcs):
    """What can be seen of a digraph without its flows."""
    out = [sorted(g.nodes), sorted(g.arcs)]
    for e, c in arcs.items():
        out.append([e, core.call(lambda: g.create_residual({e: c})).ok, core.call(lambda: g.create_residual({e: c + 0.5})).ok])
    for v in out[0]:
        out.append([v, sorted(g.cut(v)), sorted(g.ncut(v))])
    return out


def snapshot(plan, g):
    if plan["kind"] == "un":
        return [dict(g.vertices), dict(g.edges), {v: set(s) for v, s in g.graph.items()}, list(g.vertices), list(g.edges)]
    names = plan["names"]
    return probe_digraph(g, {(names[i], names[j]): w for i, j, w in plan["edges"]})


class OrderFailed(Exception):
    pass


class Q:
    """A query with the caller's own argument objects."""

    def __init__(self, plan, q):
        self.q, self.kind = q, plan["kind"]
        names = plan["names"]
        self.a, self.b = names[q["a"] % len(names)], names[q["b"] % len(names)]
        if q.get("stranger"):
            self.a = "nobody"
        some = [v for i, v in enumerate(names) if q["mask"] >> i & 1]
        self.nodes = self.a if q["form"] == "str" else {"list": list, "set": set, "tuple": tuple}[q["form"]](some)
        self.flow = {}
        for i, (x, y, w) in enumerate(plan["edges"]):
            if q["mask"] >> (i % 6) & 1:
                self.flow[(names[x], names[y])] = w / 2 if i % 3 else w
        self.other = build(dict(plan, edges=plan["edges"][: max(1, q["mask"] % (len(plan["edges"]) + 1))]) if plan["edges"] else plan)
        self.calls = 0
        self.boom = None        # (ordinal, exception class): the call of the ordering function that fails

    def args(self):
        return core.norm([self.a, self.b, self.nodes, self.flow])

    def order(self, v):
        self.calls += 1
        o = self.q["order"]
        if self.boom and self.calls == self.boom[0]:
            raise self.boom[1]("the ordering function failed")
        if o == "fail" and self.calls == self.q["fail"]:
            raise OrderFailed("order")
        return (len(v), v) if o == "length" else tuple(-ord(c) for c in v) + (1,)

    def run(self, g):
        """Returns (comparable answer, objects handed to the caller)."""
        op, a, b, nodes = self.q["op"], self.a, self.b, self.nodes
        if op == "walk":
            order = None if self.q["order"] == "none" else self.order
            out = []
            it = g.traverse(a, self.q["method"], order)
            for v in it:
                out.append(v)
                if len(out) == self.q["stop"]:
                    break
            getattr(it, "close", lambda: None)()
            return out, []
        if op in ("cut", "ncut", "degree", "indegree", "outdegree", "connections"):
            r = getattr(g, op)(nodes)
            return (sorted(r), [r]) if op in ("cut", "ncut") else (r, [])
        if op in ("has_edge", "get_edge_weight", "has_arc"):
            return getattr(g, op)((a, b)), []
        if op in ("has_vertex", "get_vertex_weight", "has_node"):
            return getattr(g, op)(a), []
        if op == "repr":
            return repr(g), []
        if op == "eq":
            return [g == self.other, self.other == g], []
        if op in ("dfs", "bfs"):
            r = getattr(g, op)(a)
            return list(r), [r]
        if op in ("is_connected", "is_cyclic", "is_empty", "has_spanning_tree", "is_tree"):
            return bool(getattr(g, op)()), []
        if op == "partition":
            r = g.partition()
            return sorted((sorted(p.vertices.items()), sorted(p.edges.items()), sorted((v, sorted(s)) for v, s in p.graph.items())) for p in r), [r]
        if op == "copy":
            r = g.copy()
            return [r.vertices, r.edges, r.graph], [r]
        if op in ("edges", "vertices", "graph", "arcs", "nodes"):
            r = getattr(g, op)
            return (sorted(r) if isinstance(r, list) else {k: (set(v) if isinstance(v, set) else v) for k, v in r.items()}), [r]
        if op == "stable":
            r = g.formulate_max_stable_set()
            if r is None:
                return None, []
            p, m = r
            return [lp.result(p), dict(m)], [m]
        if op in UNDECIDED:
            getattr(g, op)(a, b)
            return None, []
        if op == "create_residual":
            r = g.create_residual(self.flow)
            return [sorted(r.arcs), sorted(r.nodes), probe_digraph(r, {e: 1 for e in r.arcs})], [r]
        if op in ("ford_fulkerson", "preflow_push"):
            v, f = getattr(g, op)(a, b)
            return [v, dict(f)], [f]
        raise core.HarnessError(op)


def answer(o):
    return ("ok", core.norm(o.value[0])) if o.ok else ("raise", type(o.exc).__name__)


def spoil(o):
    """What was handed out belongs to the caller, who may do as he likes with it."""
    if not o.ok:
        return
    for x in o.value[1]:
        if isinstance(x, gr.UndirectedGraph):
            core.call(lambda: (x.add_edge(("spoiled", "rotten"), 1), [x.set_vertex_weight(v, 99) for v in x.vertices], [x.remove_edge(e) for e in x.edges]))
        elif isinstance(x, gr.DirectedGraph):
            core.call(lambda: (x.add_arc(("spoiled", "rotten"), 1), [x.remove_arc(e) for e in x.arcs]))
        elif isinstance(x, dict):
            for k, v in list(x.items()):
                if isinstance(v, set):
                    v.clear()
                x[k] = -5
            x["spoiled"] = 1
        elif isinstance(x, set):
            x.clear()
        elif isinstance(x, list):
            for y in x:
                if isinstance(y, gr.UndirectedGraph):
                    core.call(lambda: (y.add_edge(("spoiled", "rotten"), 1), [y.set_vertex_weight(v, 99) for v in y.vertices]))
            x.clear()


def large(plan, ctx):
    names = big.names(plan["big"])
    edges = {(names[i], names[j]): 1 + i % 3 for i, j in big.pairs(plan["big"])}

    def make():
        return core.must("construction", lambda: gr.UndirectedGraph(edges=dict(edges)) if plan["kind"] == "un" else gr.DirectedGraph(arcs=dict(edges)))

    def see(x):
        if plan["kind"] == "un":
            return [dict(x.vertices), dict(x.edges), {v: set(s) for v, s in x.graph.items()}]
        return [sorted(x.nodes), sorted(x.arcs), sorted(x.create_residual({e: c for n, (e, c) in enumerate(edges.items()) if n % 3 == 0}).arcs)]

    some = set(names[::3])
    if plan["kind"] == "un":
        qs = [lambda x: sorted(x.cut(set(some))), lambda x: list(x.bfs(names[0])), lambda x: list(x.dfs(names[-1])), lambda x: x.is_connected(),
              lambda x: x.is_cyclic(), lambda x: x.is_tree(), lambda x: sorted(sorted(p.vertices) for p in x.partition()),
              lambda x: [see(x.copy()), x == x.copy()], lambda x: repr(x), lambda x: x.has_spanning_tree(), lambda x: x.degree(set(some))]
    else:
        qs = [lambda x: sorted(x.cut(set(some))), lambda x: sorted(x.ncut(set(some))), lambda x: sorted(x.create_residual(dict(edges)).arcs),
              lambda x: x.ford_fulkerson(names[0], names[-1])[0], lambda x: x.connections(names[5]), lambda x: x.indegree(set(some)),
              lambda x: x.ford_fulkerson(names[-1], names[0])[0]]
    g = make()
    base = see(g)
    for k, e in enumerate(plan["ops"]):
        f = qs[e["op"] % len(qs)]
        alone = core.reference(lambda: f(make()), 60_000_000)
        what = f"query {k} ({e['op'] % len(qs)}) of a {plan['kind']} {plan['big']['shape']} of {len(names)} vertices"
        if e["cut short"]:
            ctx.want("interrupt")
            o = core.call(lambda: f(g), 60_000_000, at=1 + int(e["u"] * alone.events * 0.7))
            if o.hit:
                ctx.fault("interrupt")
                ctx.site(o.hit)
            if see(g) != base:
                raise Violation("graph-changed", f"interrupted {what}")
        o = core.call(lambda: f(g), 60_000_000)
        if o.ok != alone.ok or (o.ok and o.value != alone.value):
            raise Violation("later-answer-differs", f"{what}: not what it answers on an equal graph: {str(o)[:200]}")
        if not o.ok:
            raise Violation("unexpected-error", f"{what} raised {type(o.exc).__name__}: {str(o.exc)[:200]}")
        if see(g) != base:
            raise Violation("graph-changed", what)
        ctx.write(k, o.ok)
    ctx.probe("large graph")
    ctx.state(plan["kind"], plan["big"]["shape"], len(names))


def execute(plan, ctx):
    if "big" in plan:
        return large(plan, ctx)
    g = core.must("construction", lambda: build(plan))
    base = core.must("reading", lambda: snapshot(plan, g))

    def check(what):
        now = core.must("reading", lambda: snapshot(plan, g))
        if now != base:
            raise Violation("graph-changed", f"{what}: {base} -> {now}"[:1200])

    twins = {}

    def alone(q):
        key = repr(sorted(q.items()))
        if key not in twins:
            o = core.reference(lambda: Q(plan, q).run(build(plan)), 300_000)
            twins[key] = (answer(o), o.events)
        return twins[key]

    for k, e in enumerate(plan["ops"]):
        q = e["q"]
        x, dry = Q(plan, q), Q(plan, q)
        frozen = x.args()
        copy = build(plan)
        _, o = lp.faulted(ctx, e["fault"], lambda: x.run(g), lambda: dry.run(copy), 300_000)
        what = f"op {k} {q['op']} ended with {answer(o)[:2] if not o.ok else 'a result'} under {e['fault']['kind']} at {o.hit}"
        if x.args() != frozen:
            raise Violation("arguments-changed", f"{what}: {frozen} -> {x.args()}")
        if q["op"] == "walk" and q["order"] == "fail" and not o.ok and isinstance(o.exc, OrderFailed):
            ctx.fault("failing ordering function")
        spoil(o)
        check(what)
        ctx.write(k, q["op"], answer(o))
        ctx.state(plan["kind"], q["op"], e["fault"]["kind"], o.hit, o.ok)
        for name, qq in (("retry", q), ("probe", e["probe"])):
            want = alone(qq)[0]
            o = core.call(lambda: Q(plan, qq).run(g))
            if qq["op"] not in UNDECIDED and answer(o) != want:
                raise Violation("later-answer-differs", f"after {what}, {name} {qq['op']}: {answer(o)} instead of {want}")
            spoil(o)
            check(f"{name} {qq['op']} after {what}")
    if len(plan["clients"]) > 1:
        together(plan, ctx, g, plan["clients"], plan["segs"], plan["gran"], alone)
        check("after concurrent queries")
    for pair in plan["pairs"]:
        clients = [{"ops": [q]} for q in pair["ops"]]
        n = alone(pair["ops"][0])[1]
        if n < 4000:
            for u in pair["at"]:
                together(plan, ctx, g, clients, [[1 + int(u * n), 0], [1 << 30, 1]], "line", alone)
            check("after nested queries")


def together(plan, ctx, g, clients, segs, gran, alone):
    solo = [[alone(q) for q in c["ops"]] for c in clients]
    total = sum(n for row in solo for _, n in row)
    if total > 200_000:
        raise core.Skip("too long for this property")
    sched = core.Scheduler(segs, gran, 30 * total + 200_000, ctx=ctx)
    results = []

    def client(i):
        def body(me):
            for k, q in enumerate(clients[i]["ops"]):
                at = None
                if k == 0 and "interrupt" in clients[i]:
                    at = 1 + int(clients[i]["interrupt"] * solo[i][k][1])
                    ctx.want("interrupt")
                x = Q(plan, q)
                frozen = x.args()
                o = core.guarded(sched, lambda: x.run(g), at)
                if o.hit:
                    ctx.fault("interrupt")
                    ctx.site(o.hit)
                results.append((i, k, q, o, x.args() == frozen))
                if not o.hit and q["op"] not in UNDECIDED:
                    spoil(o)
                sched.yield_point()
        return body

    sched.run([client(i) for i in range(len(clients))])
    n = sum(s[2] != "exit" for s in sched.switches)
    if n:
        ctx.fault("preemption", n)
    for i, k, q, o, same in sorted(results, key=lambda r: r[:2]):
        if not same:
            raise Violation("arguments-changed", f"client {i} {q['op']}")
        if o.hit or q["op"] in UNDECIDED:
            continue
        ctx.write(i, k, answer(o))
        if answer(o) != solo[i][k][0]:
            raise Violation("answer-differs", f"client {i} {q['op']}: {answer(o)} but alone {solo[i][k][0]}")
