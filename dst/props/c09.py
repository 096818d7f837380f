"""C09: maximum flow under hash orders, arc orders, interleavings and interrupts."""
from .. import big, core, gr, lp
from ..core import Violation

LISTS = ("arcs", "worlds", "clients", "ops", "segs", "spare", "blocks")
INTS = ("segs",)


def gen_cap(rng, style):
    if style == "decimal":
        return rng.choice([0, 0.1, 0.2, 0.3, 0.7, 1.1, 3.3, 2])
    if style == "half":
        return rng.choice([0, 0.5, 1, 1.5, 2.5, 4])
    if style == "unit":
        return rng.choice([0, 1, 1, 1])
    if style == "tiny":
        return rng.choice([0, 1, 1, 2, 3, 5]) / rng.choice([256, 1024])
    if style == "wide":
        return rng.choice([0, 1 / 512, 3 / 128, 0.25, 1, 2, 77, 10 ** 6, 2 ** 33])
    return rng.choice([0, 1, 1, 2, 3, 5, 8, 10 ** 6])


def generate(rng, tier):
    if rng.random() < 2 * big.RATE:
        method = rng.choice(["ff", "ff", "ff", "pp"])
        return {"big": big.gen(rng, 4, 26, ["path", "path", "path", "cycle", "comb", "star", "tree", "ladder"]) if method == "ff" else big.gen(rng, 1, 2), "method": method, "seed": rng.randrange(1 << 30),
                "dirs": rng.choice(["up", "both", "mixed"]), "caps": rng.choice([[1], [1, 2, 3], [2, 7], [0, 1, 5, 10 ** 6], [0.5, 1.5]]),
                "u": rng.randrange(10 ** 6) / 10 ** 6}
    k = rng.randint(2, 6 if tier == "quick" else 7)
    if rng.random() < 0.1:
        k = rng.randint(7, 9)
    names = gr.gen_names(rng, k)
    style = rng.choice(["int", "int", "unit", "half", "decimal", "tiny", "wide"])
    pairs = [(i, j) for i in range(k) for j in range(k) if i != j]
    rng.shuffle(pairs)
    dense = rng.choice([0.15, 0.35, 0.6, 1.0])
    arcs = [[i, j, gen_cap(rng, style)] for i, j in pairs[:min(30, max(1, int(dense * len(pairs))))]]
    if rng.random() < 0.4:      # opposite arcs
        arcs += [[j, i, gen_cap(rng, style)] for i, j, _ in arcs if rng.random() < 0.5 and not any(x[:2] == [j, i] for x in arcs)]
    s, t = rng.sample(range(k), 2)
    worlds = [{"names": names, "order": rng.randrange(1 << 30)}] + [{"names": gr.rename(rng, names), "order": rng.randrange(1 << 30)}
                                                                   for _ in range(rng.choice([1, 2]))]
    clients = []
    for _ in range(rng.choice([2, 2, 3])):
        ops = []
        for _ in range(rng.choice([1, 1, 2])):
            op = {"op": rng.choice(["ff", "ff", "pp", "pp", "cut", "residual", "arcs"])}
            if rng.random() < 0.25:
                op["s"], op["t"] = rng.sample(range(k), 2)
            if rng.random() < 0.2:
                op["interrupt"] = rng.randrange(10 ** 6) / 10 ** 6
            ops.append(op)
        clients.append({"ops": ops})
    return {"k": k, "arcs": arcs, "s": s, "t": t, "worlds": worlds, "clients": clients, "exact": style != "decimal",
            "spare": [i for i in range(k) if rng.random() < 0.3], "cuts": [rng.randrange(10 ** 6) / 10 ** 6 for _ in range(4)],
            "gran": "instr" if rng.random() < 0.35 else "line", "segs": core.gen_segs(rng, len(clients))}


def max_flow(nodes, arcs, s, t):
    """Minimum cut over all node sets with s and without t."""
    inner = [v for v in nodes if v not in (s, t)]
    best = None
    for mask in range(1 << len(inner)):
        side = {s} | {v for i, v in enumerate(inner) if mask >> i & 1}
        c = sum(w for (u, v), w in arcs.items() if u in side and v not in side)
        best = c if best is None else min(best, c)
    return best


def check_flow(what, out, nodes, arcs, s, t, exact):
    tol = 0 if exact else 1e-9 * (1 + sum(arcs.values()))
    if not isinstance(out, tuple) or len(out) != 2:
        raise Violation("bad-flow", f"{what} returned {out!r}")
    value, flow = out
    want = max_flow(nodes, arcs, s, t)
    if not set(flow) <= set(arcs):
        raise Violation("bad-flow", f"{what}: flow on {sorted(set(flow) - set(arcs))}, which are not arcs")
    for e, f in flow.items():
        if not -tol <= f <= arcs[e] + tol:
            raise Violation("bad-flow", f"{what}: {f} on {e} of capacity {arcs[e]}")

    def net(v):
        return sum(f for e, f in flow.items() if e[0] == v) - sum(f for e, f in flow.items() if e[1] == v)

    for v in nodes:
        if v not in (s, t) and abs(net(v)) > tol:
            raise Violation("bad-flow", f"{what}: flow is not conserved at {v}: {flow}")
    if abs(net(s) - value) > tol:
        raise Violation("bad-flow", f"{what}: value {value} but {net(s)} leaves the source: {flow}")
    if abs(value - want) > tol:
        raise Violation("not-maximum", f"{what}: value {value}, maximum is {want}: {flow}")


def world(plan, w, ctx, ordinal):
    names = w["names"]
    order = sorted(range(len(plan["arcs"])), key=lambda i: (i * 2654435761 + w["order"]) % 1000003 if w["order"] else i)
    arcs = {(names[plan["arcs"][i][0]], names[plan["arcs"][i][1]]): plan["arcs"][i][2] for i in order}
    s, t = names[plan["s"]], names[plan["t"]]
    nodes = {names[i]: 0 for i in plan["spare"]}
    nodes.update({s: 0, t: 0})
    if w["order"] & 1:
        nodes = dict(reversed(list(nodes.items())))
    g = core.must("construction", lambda: gr.DirectedGraph(arcs=dict(arcs), nodes=dict(nodes)))
    everyone = sorted(set(nodes) | {v for e in arcs for v in e})

    def intact(what):
        if sorted(g.arcs) != sorted(arcs) or sorted(g.nodes) != everyone:
            raise Violation("digraph-changed", f"{what}: arcs {sorted(g.arcs)}, nodes {sorted(g.nodes)}")
        o = core.call(lambda: g.create_residual({}))
        if not o.ok or sorted(o.value.arcs) != sorted(e for e, c in arcs.items() if c > 0):
            raise Violation("digraph-changed", f"{what}: residual of no flow is {o.value.arcs if o.ok else o}")
        for e, c in arcs.items():
            if core.call(lambda: g.create_residual({e: c + 1})).ok or not core.call(lambda: g.create_residual({e: c})).ok:
                raise Violation("digraph-changed", f"{what}: capacity of {e} is no longer {c}")

    def run(op, src=s, dst=t):
        if op == "ff":
            return g.ford_fulkerson(src, dst)
        if op == "pp":
            return g.preflow_push(src, dst)
        if op == "cut":
            return (sorted(g.cut(src)), sorted(g.ncut({src, dst})), g.connections(dst))
        if op == "residual":
            return sorted(g.create_residual({e: c for e, c in arcs.items()}).arcs)
        return sorted(g.arcs)

    budget = 20000 + 4000 * len(everyone) ** 2 * max(1, len(arcs))
    lengths = {}
    for op in ("ff", "pp"):
        what = f"world {ordinal} {'ford_fulkerson' if op == 'ff' else 'preflow_push'}({s!r}, {t!r}) of {arcs}"
        for at in [None] + plan["cuts"][:2]:
            if at is not None:
                ctx.want("interrupt")
                o = core.call(lambda: run(op), budget, at=1 + int(at * lengths[op]))
                if o.hit:
                    ctx.fault("interrupt")
                    ctx.site(o.hit)
                intact(f"interrupted {what}")
            o = core.call(lambda: run(op), budget)
            if not o.ok:
                raise Violation("unexpected-error", f"{what} raised {type(o.exc).__name__}: {o.exc}")
            lengths[op] = o.events
            check_flow(what, o.value, everyone, arcs, s, t, plan["exact"])
            ctx.state(op, o.value[0] if plan["exact"] else 0, sorted(o.value[1].items()) if plan["exact"] else 0)
            # what was returned belongs to the caller
            for e in o.value[1]:
                o.value[1][e] = -1
        intact(what)
    for bad in ((s, s), ("nobody", t), (s, "nobody")):
        for op in ("ff", "pp"):
            o = core.call(lambda: run(op, *bad))
            if o.ok or not isinstance(o.exc, ValueError):
                raise Violation("bad-arguments", f"{op}{bad} gave {o}")
    if len(plan["clients"]) < 2:
        return
    ready = []
    for c in plan["clients"]:
        row = []
        for q in c["ops"]:
            src, dst = names[q.get("s", plan["s"])], names[q.get("t", plan["t"])]
            if src not in everyone or dst not in everyone or src == dst:
                src, dst = s, t
            alone = None if q["op"] in ("ff", "pp") else core.call(lambda: run(q["op"], src, dst))
            row.append((q, src, dst, alone))
        ready.append(row)
    sched = core.Scheduler(plan["segs"], plan["gran"], budget * 40, ctx=ctx)
    results = []

    def client(i):
        def body(me):
            for q, src, dst, alone in ready[i]:
                at = None
                if "interrupt" in q:
                    ctx.want("interrupt")
                    at = 1 + int(q["interrupt"] * lengths.get(q["op"], 60))
                o = core.guarded(sched, lambda: run(q["op"], src, dst), at)
                if o.hit:
                    ctx.fault("interrupt")
                    ctx.site(o.hit)
                results.append((i, q, src, dst, alone, o))
                sched.yield_point()
        return body

    sched.run([client(i) for i in range(len(ready))])
    n = sum(x[2] != "exit" for x in sched.switches)
    if n:
        ctx.fault("preemption", n)
    intact("after concurrent computations")
    for i, q, src, dst, alone, o in results:
        if o.hit:
            continue
        what = f"world {ordinal} client {i} {q['op']}({src!r}, {dst!r}) of {arcs}"
        if not o.ok:
            raise Violation("unexpected-error", f"{what} raised {type(o.exc).__name__}: {o.exc}")
        if alone is None:
            check_flow(what, o.value, everyone, arcs, src, dst, plan["exact"])
        elif core.norm(o.value) != core.norm(alone.value):
            raise Violation("answer-differs", f"{what}: {o.value} but alone {alone.value}")


def large(plan, ctx):
    rng = core.rng_for("large", plan["seed"])
    names = big.names(plan["big"])
    arcs = {}
    for i, j in big.pairs(plan["big"]):
        if plan["dirs"] != "mixed" or rng.random() < 0.9:
            arcs[(names[i], names[j])] = rng.choice(plan["caps"])
        if plan["dirs"] == "both" or (plan["dirs"] == "mixed" and rng.random() < 0.3):
            arcs[(names[j], names[i])] = rng.choice(plan["caps"])
    s, t = (names[0], names[-1]) if rng.random() < 0.8 else rng.sample(names, 2)
    if plan["big"]["shape"] in ("star", "tree"):        # many paths: the far ends meet in the sink
        t = "t"
        for v in [v for v in names[1:] if not any((v, u) in arcs for u in names[-60:])][-200:]:
            arcs[(v, t)] = rng.choice(plan["caps"])
    arcs.setdefault((s, "sx"), 3)
    arcs.setdefault(("sx", t), 2)
    everyone = sorted({v for e in arcs for v in e})
    g = core.must("construction", lambda: gr.DirectedGraph(arcs=dict(arcs)))
    name = {"ff": "ford_fulkerson", "pp": "preflow_push"}[plan["method"]]
    what = f"{name}({s!r}, {t!r}) on a {plan['big']['shape']} of {len(everyone)} nodes"
    budget = 60_000_000
    f = lambda: getattr(g, name)(s, t)  # noqa: E731
    first = core.reference(f, budget)
    ctx.want("interrupt")
    o = core.call(f, budget, at=1 + int(plan["u"] * first.events))
    if o.hit:
        ctx.fault("interrupt")
        ctx.site(o.hit)
    second = core.call(f, budget)
    for o in (first, second):
        if not o.ok:
            raise Violation("unexpected-error", f"{what} raised {type(o.exc).__name__}: {str(o.exc)[:200]}")
        value, flow = o.value
        if not set(flow) <= set(arcs) or any(not 0 <= x <= arcs[e] for e, x in flow.items()):
            raise Violation("bad-flow", f"{what}: flow outside the arcs or capacities")
        net = dict.fromkeys(everyone, 0)
        for (a, b), x in flow.items():
            net[a] += x
            net[b] -= x
        if any(net[v] for v in everyone if v not in (s, t)) or net[s] != value:
            raise Violation("bad-flow", f"{what}: not conserved, or the value {value} is not what leaves the source ({net[s]})")
        out = {v: set() for v in everyone}
        for (a, b), c in arcs.items():
            if flow.get((a, b), 0) < c:
                out[a].add(b)
            if flow.get((a, b), 0) > 0:
                out[b].add(a)
        seen, todo = {s}, [s]
        while todo:
            for v in out[todo.pop()] - seen:
                seen.add(v)
                todo.append(v)
        if t in seen:
            raise Violation("not-maximum", f"{what}: value {value}, and more can be sent")
    if sorted(g.arcs) != sorted(arcs) or sorted(g.nodes) != everyone:
        raise Violation("digraph-changed", what)
    ctx.probe("large graph")
    ctx.write(plan["method"], first.value[0], first.events if plan["method"] == "none" else 0)
    ctx.state(plan["big"]["shape"], len(everyone), plan["method"], first.value[0])


def execute(plan, ctx):
    if "big" in plan:
        return large(plan, ctx)
    for i, w in enumerate(plan["worlds"]):
        ctx.want("hash assignment and arc order")
        world(plan, w, ctx, i)
    if len(plan["worlds"]) > 1:
        ctx.fault("other hash values and arc order", len(plan["worlds"]) - 1)
