"""C10: walks in flight over one undirected graph, interleaved, abandoned, interrupted, with failing ordering functions."""
import random

import numpy as np

from .. import big, core, gr, lp
from ..core import Violation
from . import c07

LISTS = ("edges", "lone", "worlds", "phases", "walks", "clients", "steps", "segs", "edits", "blocks")
INTS = ("segs",)


class SimOrderError(Exception):
    """Raised by the caller's ordering function."""


EXC = {"custom": SimOrderError, "type": TypeError, "value": ValueError, "key": KeyError, "index": IndexError, "attr": AttributeError,
       "zero": ZeroDivisionError, "rec": RecursionError, "mem": MemoryError, "interrupt": core.SimInterrupt,
       "runtime": RuntimeError, "lookup": LookupError, "plain": Exception, "os": OSError, "exit": SystemExit}
EXCS = sorted(EXC)


def generate(rng, tier):
    if rng.random() < big.RATE:
        walks = [{"start": rng.randrange(1 << 20), "method": rng.choice(["bfs", "dfs", "bfs", "dfs", "rng"]), "order": rng.choice(["none", "reverse", "length"]),
                  "upto": rng.choice([1, 7, 400, 1 << 20, 1 << 20, 1 << 20]), "chunk": rng.choice([1, 30, 1 << 20])} for _ in range(rng.randint(1, 3))]
        return {"big": big.gen(rng, 4, 26), "walks": walks, "seed": rng.randrange(1 << 30), "u": rng.randrange(10 ** 6) / 10 ** 6}
    k = rng.choice([1, 2, 3, 4, 5, 6, 7, 8] * 4 + [14])
    names = gr.gen_names(rng, k)
    pairs = [[i, j] for i in range(k) for j in range(i + 1, k)]
    rng.shuffle(pairs)
    edges = pairs[:int(rng.choice([0.2, 0.4, 0.6, 1.0]) * len(pairs))]
    phases = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        n = rng.choice([1, 2, 2, 3])
        clients = []
        for _ in range(n):
            walks = []
            for _ in range(rng.choice([1, 2, 2, 3])):
                w = {"start": rng.randrange(k), "method": rng.choice(["bfs"] * 4 + ["dfs"] * 4 + ["rng"]), "how": rng.choice(["lazy"] * 5 + ["list"]),
                     "order": rng.choice(["none", "none", "reverse", "shuffle", "length", "const"])}
                if w["order"] != "none" and rng.random() < 0.3:
                    w["fail"] = rng.randint(1, 2 * k)
                    w["exc"] = rng.choice(EXCS)
                if w["order"] != "none" and rng.random() < 0.2:
                    w["nested"] = rng.choice(["bfs", "dfs", "rng"])
                walks.append(w)
            steps = []
            for _ in range(rng.randint(1, 14)):
                r = rng.random()
                if r < 0.8:
                    steps.append({"do": "next", "walk": rng.randrange(len(walks)), "n": rng.choice([1, 1, 1, 2, 3, 99])})
                elif r < 0.87:
                    steps.append({"do": "abandon", "walk": rng.randrange(len(walks))})
                elif r < 0.93:
                    steps.append({"do": "interrupt", "walk": rng.randrange(len(walks)), "at": rng.randint(1, 25)})
                else:
                    steps.append({"do": "read", "walk": 0, "what": rng.choice(["connected", "cyclic", "partition", "copy", "spoil"])})
            clients.append({"walks": walks, "steps": steps, "finish": rng.random() < 0.7})
        phases.append({"clients": clients, "edits": [c07.gen_edit(rng, k) for _ in range(rng.randint(0, 3))],
                       "gran": "instr" if rng.random() < 0.3 else "line", "segs": core.gen_segs(rng, n)})
    return {"k": k, "edges": edges, "lone": [i for i in range(k)], "phases": phases, "seed": rng.randrange(1 << 30),
            "worlds": [names] + [gr.rename(rng, names)]}


def key_of(order, seed):
    if order == "none":
        return lambda v: v
    if order == "reverse":
        return lambda v: [-ord(c) for c in v]
    if order == "length":
        return len
    if order == "const":
        return lambda v: 0
    return lambda v: core.digest((seed, v))


def valid_prefix(seq, start, adj, key, kind):
    """None, or why seq is not how a walk of this kind begins. kind: bfs, dfs+, dfs-."""
    if not seq:
        return None
    if seq[0] != start:
        return f"begins at {seq[0]!r}"
    seen, active = {start}, [start]
    for x in seq[1:]:
        if kind == "bfs":
            active = [p for p in active if adj[p] - seen]
            at = active[0] if active else None
        else:
            while active and not adj[active[-1]] - seen:
                active.pop()
            at = active[-1] if active else None
        if at is None:
            return f"{x!r} is not reachable or comes again"
        left = adj[at] - seen
        pick = (max if kind == "dfs-" else min)(key(v) for v in left)
        if x not in left or key(x) != pick:
            return f"{x!r} where one of {sorted(v for v in left if key(v) == pick)} (next to {at!r}) was due"
        seen.add(x)
        active.append(x)
    return None


def reach(start, adj):
    seen, todo = {start}, [start]
    while todo:
        for v in adj[todo.pop()] - seen:
            seen.add(v)
            todo.append(v)
    return seen


def check_walk(what, seq, method, start, adj, key, complete):
    if method == "rng":
        if len(set(seq)) != len(seq) or not set(seq) <= set(adj) or (complete and set(seq) != set(adj)):
            raise Violation("wrong-walk", f"{what}: random walk gave {seq} over the vertices {sorted(adj)}")
        return
    kinds = ["bfs"] if method == "bfs" else ["dfs+", "dfs-"]
    why = [valid_prefix(seq, start, adj, key, kd) for kd in kinds]
    if all(why):
        raise Violation("wrong-walk", f"{what}: {seq}: {why[0]}")
    if complete and set(seq) != reach(start, adj):
        raise Violation("wrong-walk", f"{what}: {seq} but {sorted(reach(start, adj))} are reachable")


def world(plan, names, ctx, ordinal):
    m = c07.Model()
    for i in plan["lone"]:
        m.v[names[i]] = 0
    for i, j in plan["edges"]:
        m.add_edge((names[i], names[j]), 0)
    if not m.v:
        return
    g = core.must("construction", lambda: gr.UndirectedGraph(vertices=dict(m.v), edges=dict(m.e)))
    random.seed(plan["seed"])
    np.random.seed(plan["seed"] % (1 << 31))
    for n, phase in enumerate(plan["phases"]):
        run_phase(plan, phase, names, g, m, ctx, f"world {ordinal} phase {n}")
        d = core.must("reading", lambda: c07.compare(g, m, True, n * 7))
        if d:
            raise Violation("graph-changed", f"after phase {n}: {'; '.join(d)[:600]}")
        for e in phase["edits"]:
            fn, ok, apply, text = c07.resolve(e, names, m)
            o = core.call(lambda: fn(g))
            if o.ok != ok:
                raise core.Skip("edit outcome (C07)")
            if ok:
                apply()


def run_phase(plan, phase, names, g, m, ctx, label):
    adj = m.adj()
    here = sorted(m.v)
    sched = core.Scheduler(phase["segs"], phase["gran"], ctx=ctx)
    out = []

    def client(i):
        spec = phase["clients"][i]

        def body(me):
            walks = []
            for k, w in enumerate(spec["walks"]):
                start = here[w["start"] % len(here)]
                st = {"seq": [], "state": "open", "start": start, "w": w, "key": key_of(w["order"], plan["seed"]), "calls": 0, "error": None,
                      "what": f"{label} client {i} walk {k} ({w['method']} from {start!r}, order {w['order']})"}
                st["it"] = None
                walks.append(st)
                out.append(st)

            def order_of(st):
                w = st["w"]
                if w["order"] == "none":
                    return None

                def order(v):
                    st["calls"] += 1
                    if st["calls"] == w.get("fail"):
                        st["error"] = EXC[w["exc"]](f"no order for {v}")
                        ctx.fault(f"ordering function failed:{w['exc']}")
                        raise st["error"]
                    if "nested" in w and st["calls"] <= 4:
                        s = here[st["calls"] % len(here)]
                        seq = list(g.traverse(s, w["nested"]))
                        check_walk(f"{st['what']}, walk inside its ordering function", seq, w["nested"], s, adj, lambda x: x, True)
                        ctx.probe("walk inside an ordering function")
                    return st["key"](v)
                return order

            def advance(st, at=None):
                """One next() call; returns whether the walk goes on."""
                w = st["w"]
                if st["it"] is None:
                    if "fail" in w:
                        ctx.want("ordering function failed")
                    if w["how"] == "list" and w["order"] == "none" and w["method"] in ("bfs", "dfs"):
                        o = core.guarded(sched, lambda: list(getattr(g, w["method"])(st["start"])), at)
                        if o.ok:
                            st["seq"], st["state"] = o.value, "complete"
                            return False
                        return failed(st, o)
                    o = core.guarded(sched, lambda: iter(g.traverse(st["start"], w["method"], order_of(st))), at)
                    if not o.ok:
                        return failed(st, o)
                    st["it"] = o.value
                o = core.guarded(sched, lambda: next(st["it"]), at)
                if not o.ok:
                    return failed(st, o)
                if st["error"] is not None:
                    raise Violation("error-lost", f"{st['what']}: the ordering function failed but the walk gave {o.value!r}")
                st["seq"].append(o.value)
                if len(st["seq"]) > 2 * len(here) + 2:
                    raise Violation("wrong-walk", f"{st['what']} does not end: {st['seq']}")
                return True

            def failed(st, o):
                if o.hit:
                    ctx.fault("interrupt")
                    ctx.site(o.hit)
                    st["state"] = "interrupted"
                elif isinstance(o.exc, StopIteration) and st["error"] is None:
                    st["state"] = "complete"
                elif st["error"] is not None:
                    if o.exc is not st["error"]:
                        raise Violation("error-lost", f"{st['what']}: the ordering function raised {st['error']!r}, the consumer got {o.exc!r}")
                    st["state"] = "failed"
                else:
                    raise Violation("unexpected-error", f"{st['what']} raised {type(o.exc).__name__}: {o.exc}")
                return False

            for s in spec["steps"]:
                st = walks[s["walk"] % len(walks)] if walks else None
                if s["do"] == "read":
                    what = s["what"]
                    if what == "connected":
                        o = core.guarded(sched, lambda: bool(g.is_connected()))
                        if not o.ok or o.value != (len(gr.components(m.v, adj)) == 1):
                            raise Violation("wrong-answer", f"{label} client {i}: is_connected gave {o} for {adj}")
                    elif what == "cyclic":
                        o = core.guarded(sched, lambda: bool(g.is_cyclic()))
                        if not o.ok or o.value != (len(m.e) > len(m.v) - len(gr.components(m.v, adj))):
                            raise Violation("wrong-answer", f"{label} client {i}: is_cyclic gave {o} for {adj}")
                    elif what == "partition":
                        o = core.guarded(sched, g.partition)
                        if not o.ok or sorted(sorted(p.vertices) for p in o.value) != sorted(sorted(c) for c in gr.components(m.v, adj)):
                            raise Violation("wrong-answer", f"{label} client {i}: partition gave {o}")
                    elif what == "copy":
                        o = core.guarded(sched, lambda: g.copy())
                        if o.ok:
                            c = o.value
                            core.guarded(sched, lambda: c.add_vertex("extra vertex"))
                            core.guarded(sched, lambda: c.add_edge((here[0], "extra vertex")))
                    else:
                        o = core.guarded(sched, lambda: [x.clear() for x in g.graph.values()])
                        ctx.fault("write to a collection handed out")
                elif st is None or st["state"] != "open":
                    pass
                elif s["do"] == "abandon":
                    st["state"] = "abandoned"
                    if hasattr(st["it"], "close"):
                        st["it"].close()
                    st["it"] = None
                    ctx.fault("walk abandoned")
                elif s["do"] == "interrupt":
                    ctx.want("interrupt")
                    advance(st, s["at"])
                else:
                    for _ in range(s["n"]):
                        if not advance(st):
                            break
                        sched.yield_point()
                sched.yield_point()
            if spec["finish"]:
                for st in walks:
                    while st["state"] == "open" and advance(st):
                        pass
        return body

    sched.run([client(i) for i in range(len(phase["clients"]))])
    n = sum(x[2] != "exit" for x in sched.switches)
    if n:
        ctx.fault("preemption", n)
    for st in out:
        w = st["w"]
        check_walk(st["what"], st["seq"], w["method"], st["start"], adj, st["key"], st["state"] == "complete")
        ctx.write(st["what"], st["state"], st["seq"] if w["method"] != "rng" else len(st["seq"]))
        ctx.state(st["state"], w["method"], len(st["seq"]), sorted(m.e))
    for method in ("bfs", "dfs", "rng"):
        o = core.call(lambda: list(g.traverse("nobody", method)))
        if o.ok or not isinstance(o.exc, ValueError):
            raise Violation("unknown-start", f"traverse from a vertex not in the graph gave {o}")


def large(plan, ctx):
    names = big.names(plan["big"])
    m = c07.Model()
    for i, j in big.pairs(plan["big"]):
        m.add_edge((names[i], names[j]), 0)
    g = core.must("construction", lambda: gr.UndirectedGraph(edges=dict(m.e)))
    adj = m.adj()
    random.seed(plan["seed"])
    live = []
    for k, w in enumerate(plan["walks"]):
        start = names[w["start"] % len(names)]
        key = key_of(w["order"], plan["seed"])
        what = f"walk {k} ({w['method']} from {start!r}, order {w['order']}) over a {plan['big']['shape']} of {len(names)} vertices"
        it = core.must(what, lambda: iter(g.traverse(start, w["method"], None if w["order"] == "none" else key)))
        live.append([what, w, start, key, it, [], False])
        if w["method"] != "rng":
            ctx.want("interrupt")
            n = core.call(lambda: list(g.traverse(start, w["method"]))).events
            o = core.call(lambda: list(g.traverse(start, w["method"])), at=1 + int(plan["u"] * n))
            if o.hit:
                ctx.fault("interrupt")
                ctx.site(o.hit)
    going = True
    while going:
        going = False
        for x in live:
            what, w, start, key, it, seq, done = x
            for _ in range(w["chunk"]):
                if x[6] or len(seq) >= w["upto"]:
                    break
                going = True
                try:
                    seq.append(core.must(what, lambda: next(it, it)))
                except Violation as v:
                    raise Violation(v.cls, str(v)[:600]) from None
                if seq[-1] is it:
                    seq.pop()
                    x[6] = True
                if len(seq) > 2 * len(names):
                    raise Violation("wrong-walk", f"{what} does not end")
    for what, w, start, key, it, seq, done in live:
        try:
            check_walk(what, seq, w["method"], start, adj, key, done)
        except Violation as v:
            raise Violation(v.cls, f"{what}: {str(v)[-300:]}") from None
        if not done:
            ctx.fault("walk abandoned")
        ctx.write(w["method"], len(seq), done)
    d = core.must("reading", lambda: c07.compare(g, m, False))
    if d:
        raise Violation("graph-changed", f"after walks over a large graph: {d[0][:300]}")
    ctx.probe("large graph")
    ctx.state(plan["big"]["shape"], len(names), [w["method"] for w in plan["walks"]])


def execute(plan, ctx):
    if "big" in plan:
        return large(plan, ctx)
    for i, names in enumerate(plan["worlds"]):
        ctx.want("hash assignment")
        world(plan, names, ctx, i)
    if len(plan["worlds"]) > 1:
        ctx.fault("other hash values", len(plan["worlds"]) - 1)
