"""C11: random programs and random walks, whatever the random sources deal and whichever draw fails."""
import random

import numpy as np

from .. import core, gr, lp, seams
from ..core import Violation
from . import c07

LISTS = ("streams", "queries", "clients", "ops", "segs", "edges")
INTS = ("segs",)
KINDS = ["low", "high", "mid", "flip", "mixed", "mixed", "fair", "fair"]


def gen_shape(rng):
    return {"rows": rng.choice([1, 1, 2, 3, 4, 6]), "cols": rng.choice([1, 1, 2, 3, 4, 6, 9]),
            "mag": rng.choice([100, 100, 1, 0.5, 7, 12.345, 1000000, 0]), "defaults": rng.random() < 0.1}


def generate(rng, tier):
    k = rng.randint(1, 7)
    pairs = [[i, j] for i in range(k) for j in range(i + 1, k)]
    rng.shuffle(pairs)
    streams = []
    for _ in range(rng.randint(1, 3)):
        streams.append({"kind": rng.choice(KINDS), "seed": rng.randrange(1 << 30), "fail": rng.randrange(10 ** 6) / 10 ** 6,
                        "shape": gen_shape(rng), "start": rng.randrange(k), "op": rng.choice(["lp", "lp", "walk"])})
    clients = [{"ops": [{"op": rng.choice(["lp", "lp", "walk"]), "shape": gen_shape(rng), "start": rng.randrange(k)}
                        for _ in range(rng.choice([1, 2]))]} for _ in range(rng.choice([0, 2, 3]))]
    names = gr.gen_names(rng, k)
    return {"k": k, "names": names, "alias": gr.rename(rng, names), "edges": pairs[:rng.randint(0, len(pairs))], "streams": streams,
            "qseed": rng.randrange(1 << 30), "queries": [0, 1, 2], "spec": lp.gen_spec(rng), "clients": clients,
            "common": {"kind": rng.choice(KINDS), "seed": rng.randrange(1 << 30)},
            "fail": rng.randint(1, 80) if rng.random() < 0.3 else 0,
            "gran": "instr" if rng.random() < 0.3 else "line", "segs": core.gen_segs(rng, max(len(clients), 1))}


def make(shape):
    if shape["defaults"]:
        return lp.LinearProgram.random()
    return lp.LinearProgram.random(shape["rows"], shape["cols"], shape["mag"])


def check_program(what, p, shape):
    rows, cols, mag = (4, 6, 100) if shape["defaults"] else (shape["rows"], shape["cols"], shape["mag"])
    bad = []
    if not isinstance(p, lp.LinearProgram):
        raise Violation("invalid-program", f"{what}: {type(p).__name__}")
    A, b, c = np.asarray(p.A), np.asarray(p.b), np.asarray(p.c)
    if A.shape != (rows, cols) or b.shape != (rows,) or c.shape != (cols,):
        bad.append(f"shapes {A.shape} {b.shape} {c.shape} for {rows} rows and {cols} columns")
    for name, v in (("A", A), ("b", b), ("c", c), ("z", np.asarray(p.z, dtype=float))):
        if not np.all(np.isfinite(v)) or np.any(np.abs(v) > mag + 0.005001):
            bad.append(f"{name} is {v.tolist()}, magnitude {mag}")
    rel = p.inequalities
    if len(rel) != rows or any(r not in ("=", "<=", ">=") for r in rel):
        bad.append(f"relations {rel}")
    if p.objective not in ("max", "min"):
        bad.append(f"objective {p.objective!r}")
    free, neg = list(p.free_variables), list(p.negative_variables)
    if len(set(free)) != len(free) or len(set(neg)) != len(neg) or set(free) & set(neg) or not set(free + neg) <= set(range(1, cols + 1)):
        bad.append(f"free {free}, negative {neg} of {cols} variables")
    if bad:
        raise Violation("invalid-program", f"{what}: {'; '.join(bad)[:600]}")


def seeded(what, s, fn):
    """The process's own generators, restarted from equal seeds, give equal results."""
    outs = []
    for _ in range(2):
        random.seed(s["seed"])
        np.random.seed(s["seed"] & 0xffffffff)
        o = core.call(fn)
        if not o.ok:
            raise Violation("unexpected-error", f"{what} on the process's generators raised {type(o.exc).__name__}: {o.exc}")
        outs.append(core.norm(lp.snapshot(o.value)) if s["op"] == "lp" else o.value)
    if outs[0] != outs[1]:
        raise Violation("not-reproducible", f"{what}: from equal seeds of the process's generators {str(outs[0])[:300]} then {str(outs[1])[:300]}")


def spec_of(p):
    return {"A": np.asarray(p.A).tolist(), "b": np.asarray(p.b).tolist(), "c": np.asarray(p.c).tolist(), "z": float(p.z), "obj": p.objective,
            "ineq": list(p.inequalities), "free": list(p.free_variables), "neg": list(p.negative_variables), "form": "float", "cls": "lp"}


def execute(plan, ctx):
    names = plan["names"]
    m = c07.Model()
    for n in names:
        m.v[n] = 0
    for i, j in plan["edges"]:
        m.add_edge((names[i], names[j]), 0)
    g = core.must("construction", lambda: gr.UndirectedGraph(vertices=dict(m.v), edges=dict(m.e)))
    # the same graph under names that hash differently
    alias = plan.get("alias", [])
    twin = None
    if len(set(alias)) == len(names):
        twin = core.must("construction", lambda: gr.UndirectedGraph(vertices={alias[names.index(v)]: w for v, w in m.v.items()},
                                                                    edges={(alias[names.index(a)], alias[names.index(b)]): w for (a, b), w in m.e.items()}))
    other = lp.build(plan["spec"])
    other0 = lp.snapshot(other)
    made = []

    def bystanders(what):
        d = lp.diff(other0, lp.snapshot(other)) + core.must("reading", lambda: c07.compare(g, m, False))
        for p, snap in made:
            d += lp.diff(snap, lp.snapshot(p))
        if d:
            raise Violation("bystander-changed", f"{what}: {'; '.join(d)[:500]}")

    def walk(start):
        return list(g.traverse(names[start % len(names)], "rng"))

    def check_walk(what, seq):
        if sorted(seq) != sorted(names):
            raise Violation("wrong-walk", f"{what}: {seq} over {sorted(names)}")

    for k, s in enumerate(plan["streams"]):
        ctx.want(f"stream {s['kind']}")
        fn = (lambda: make(s["shape"])) if s["op"] == "lp" else (lambda: walk(s["start"]))
        what = f"stream {k} ({s['kind']}, seed {s['seed']}) {s['op']} {s['shape'] if s['op'] == 'lp' else ''}"
        outs = []
        for _ in range(2):
            with seams.entropy(s["kind"], s["seed"]) as e:
                np.random.seed(1)
                o = core.call(fn)
            if not o.ok:
                raise Violation("unexpected-error", f"{what} raised {type(o.exc).__name__}: {o.exc}")
            outs.append(o.value)
        seeded(what, s, fn)
        draws = e.n
        ctx.fault(f"stream {s['kind']}", 2)
        bystanders(what)
        if s["op"] == "walk":
            for seq in outs:
                check_walk(what, seq)
            if outs[0] != outs[1]:
                raise Violation("not-reproducible", f"{what}: {outs[0]} then {outs[1]}")
            if twin is not None:
                ctx.want("hash assignment")
                with seams.entropy(s["kind"], s["seed"]):
                    seq = core.must("walk over renamed vertices", lambda: list(twin.traverse(alias[s["start"] % len(names)], "rng")))
                ctx.fault("other hash values")
                if [alias.index(v) if v in alias else v for v in seq] != [names.index(v) for v in outs[0]]:
                    raise Violation("not-reproducible", f"{what}: {outs[0]}; under names {alias} that hash differently {seq}")
        else:
            p = outs[0]
            for q in outs:
                check_program(what, q, s["shape"])
            if lp.snapshot(outs[0]) != lp.snapshot(outs[1]):
                raise Violation("not-reproducible", f"{what}: {'; '.join(lp.diff(lp.snapshot(outs[0]), lp.snapshot(outs[1])))[:500]}")
            made.append((outs[1], lp.snapshot(outs[1])))
            usable(plan, p, what, ctx, k)
        bystanders(f"using the result of {what}")
        # one failing draw
        if draws:
            at = 1 + int(s["fail"] * draws)
            ctx.want("random source failed")
            with seams.entropy(s["kind"], s["seed"], at) as e:
                o = core.call(fn)
            if e.fired is not None:
                ctx.fault("random source failed")
                ctx.site((s["op"], at))
                if o.ok:
                    raise Violation("failure-hidden", f"{what}: draw {at} failed but the call returned {core.norm(o.value)}")
            bystanders(f"failing draw {at} of {what}")
            with seams.entropy(s["kind"], s["seed"]):
                o = core.call(fn)
            again = lp.snapshot(o.value) if o.ok and s["op"] == "lp" else o.value
            first = lp.snapshot(outs[1]) if s["op"] == "lp" else outs[1]
            if again != first:
                raise Violation("not-reproducible", f"{what} after a failed draw: {o}")
        ctx.write(k, s["op"], draws)
        ctx.state(s["op"], s["shape"], s["kind"], s["seed"] if s["kind"] in ("fair", "mixed") else 0)
    if len(names) >= 5:
        orders = set()
        for seed in range(24):
            with seams.entropy("fair", seed):
                orders.add(tuple(core.must("walk", lambda: walk(0))))
        if len(orders) < 2:
            raise Violation("not-random", f"24 independent streams of random values all gave the walk {orders}")
        orders = set()
        for seed in range(24):
            with seams.entropy("fair", seed):
                orders.add(repr(lp.snapshot(core.must("random", lambda: lp.LinearProgram.random(3, 4)))))
        if len(orders) < 20:
            raise Violation("not-random", f"24 independent streams of random values gave {len(orders)} different programs")
    if plan["streams"] and plan["streams"][0]["op"] == "lp":
        shape = plan["streams"][0]["shape"]
        mag = 100 if shape["defaults"] else shape["mag"]
        big = 0
        for kind in ("low", "high"):
            with seams.entropy(kind, 1):
                p = core.must("random", lambda: make(shape))
            big = max(big, float(np.max(np.abs(p.A))))
        if mag >= 1 and big < mag / 2:
            raise Violation("invalid-program", f"magnitude {mag} requested, largest coefficient of the extreme programs is {big}")
    if len(plan["clients"]) > 1:
        together(plan, ctx, walk, check_walk, bystanders)


def usable(plan, p, what, ctx, k):
    """Every operation does with the generated program what it does with an equal one that was written by hand."""
    spec = spec_of(p)
    snap = lp.snapshot(p)
    hand = core.must("construction from the generated data", lambda: lp.build(spec))
    if lp.snapshot(hand) != snap:
        raise Violation("unusable", f"{what}: rebuilt by hand: {'; '.join(lp.diff(snap, lp.snapshot(hand)))[:500]}")
    rng = core.rng_for("queries", plan["qseed"], k)
    for _ in plan["queries"]:
        q = lp.gen_query(rng, spec)
        if q["op"] == "to_rref":
            continue
        want = core.reference(lambda: lp.Query(q).run(lp.build(spec)), 400_000)
        got = core.call(lambda: lp.Query(q).run(p), 1_000_000)
        ctx.write(k, q["op"], got.ok)
        if lp.outcome(got) != lp.outcome(want):
            raise Violation("unusable", f"{what}: {q['op']} gave {lp.outcome(got)}, on the same program written by hand {lp.outcome(want)}")
    if lp.snapshot(p) != snap:
        raise Violation("unusable", f"{what}: changed by queries")
    for q in (p, hand):
        core.must("in-place edit", lambda: q.to_sef(in_place=True))
    if lp.snapshot(p) != lp.snapshot(hand):
        raise Violation("unusable", f"{what}: to_sef in place gives {'; '.join(lp.diff(lp.snapshot(hand), lp.snapshot(p)))[:500]}")


def together(plan, ctx, walk, check_walk, bystanders):
    sched = core.Scheduler(plan["segs"], plan["gran"], ctx=ctx)
    results = []

    def client(i):
        def body(me):
            for q in plan["clients"][i]["ops"]:
                o = core.guarded(sched, (lambda: make(q["shape"])) if q["op"] == "lp" else (lambda: walk(q["start"])))
                results.append((i, q, o))
                sched.yield_point()
        return body

    if plan["fail"]:
        ctx.want("random source failed")
    with seams.entropy(plan["common"]["kind"], plan["common"]["seed"], plan["fail"] or None) as e:
        sched.run([client(i) for i in range(len(plan["clients"]))])
    n = sum(x[2] != "exit" for x in sched.switches)
    if n:
        ctx.fault("preemption", n)
    if e.fired is not None:
        ctx.fault("random source failed")
    failures = 0
    for i, q, o in results:
        what = f"client {i} {q['op']} {q['shape']}"
        if not o.ok:
            failures += 1
            if failures > (1 if e.fired is not None else 0):
                raise Violation("unexpected-error", f"{what} raised {type(o.exc).__name__}: {o.exc}")
        elif q["op"] == "walk":
            check_walk(what, o.value)
        else:
            check_program(what, o.value, q["shape"])
    bystanders("after concurrent generation")
