"""C02: concurrent queries on one shared program answer as if alone."""
from .. import core, lp, seams
from ..core import Violation

LISTS = ("clients", "ops", "segs", "pairs", "at")
INTS = ("segs",)
LIGHT = ["simplex_iteration", "to_sef", "to_canonical_form", "dual", "auxiliary", "is_feasible", "is_feasible", "is_basis", "is_basis_feasible",
         "compute_basic_solution", "is_basic_solution", "is_feasible_basic_solution", "evaluate", "value_of", "value_of",
         "verify_infeasibility", "verify_unboundedness", "verify_optimality", "repr", "copy", "add_constraint", "add_variable",
         "cs_conditions", "properties", "to_rref", "clear_steps", "is_solution_optimal", "simplex", "solve", "two_phase_simplex"]


def generate(rng, tier):
    spec, extra = lp.gen_program(rng)
    n = rng.choice([2, 2, 2, 3, 3, 4])
    same = rng.random()
    clients = []
    for i in range(n):
        ops = lp.gen_ops(rng, spec, extra, rng.choice([1, 1, 2]))
        if i and same < 0.2:
            ops[0] = clients[0]["ops"][0]
        elif i and same < 0.6:
            ops[0] = lp.gen_query(rng, spec, [clients[0]["ops"][0]["op"]])   # the same operation, other arguments
        c = {"ops": ops}
        if rng.random() < 0.12:
            c["interrupt"] = rng.randrange(1000000) / 1000000
        clients.append(c)
    pairs = []
    for _ in range(rng.choice([1, 2, 3])):
        a, b = lp.gen_query(rng, spec, LIGHT), lp.gen_query(rng, spec, LIGHT)
        if rng.random() < 0.7:
            b = lp.gen_query(rng, spec, [a["op"]])   # the same operation, other arguments
        pairs.append({"ops": [a, b], "at": [rng.randrange(1000000) / 1000000 for _ in range(rng.choice([3, 6, 10]))]})
    return {"spec": spec, "clients": clients, "gran": "instr" if rng.random() < 0.4 else "line",
            "shared_args": rng.random() < 0.7, "segs": core.gen_segs(rng, n),
            "pairs": pairs}


def execute(plan, ctx):
    spec = plan["spec"]
    solo = []
    for c in plan["clients"]:
        row = []
        for k, q in enumerate(c["ops"]):
            o = core.reference(lambda: lp.Query(q).run(lp.build(spec)))
            row.append((lp.outcome(o), o.events))
        solo.append(row)
    args = lp.build_args(spec)
    args0 = lp.freeze(args)
    p = lp.build(spec, args)
    base = lp.snapshot(p)
    common = {}
    queries = [[lp.Query(q, common if plan["shared_args"] else None) for q in c["ops"]] for c in plan["clients"]]
    frozen = [[q.args() for q in qs] for qs in queries]
    results = [[None] * len(c["ops"]) for c in plan["clients"]]
    total = sum(n for row in solo for _, n in row)
    if total > 400_000:
        raise core.Skip("too long for this property")
    budget = 20 * total + 200_000 if plan["gran"] == "instr" else 3 * total + 100_000
    sched = core.Scheduler(plan["segs"], plan["gran"], budget, ctx=ctx)

    def client(i):
        def body(me):
            for k, q in enumerate(queries[i]):
                at = None
                if k == 0 and "interrupt" in plan["clients"][i]:
                    at = 1 + int(plan["clients"][i]["interrupt"] * solo[i][k][1])
                    ctx.want("interrupt")
                o = core.guarded(sched, lambda: q.run(p), at)
                if o.hit:
                    ctx.fault("interrupt")
                    ctx.site(o.hit)
                results[i][k] = (o, o.hit)
                sched.yield_point()
        return body

    sched.run([client(i) for i in range(len(queries))])
    ctx.fault("preemption", sum(s[2] != "exit" for s in sched.switches)) if any(s[2] != "exit" for s in sched.switches) else None
    d = lp.diff(base, lp.snapshot(p))
    if d:
        raise Violation("program-changed", "after concurrent queries: " + "; ".join(d)[:600])
    if lp.freeze(args) != args0:
        raise Violation("caller-data-changed", "arrays given to the constructor changed")
    for i, c in enumerate(plan["clients"]):
        for k, q in enumerate(c["ops"]):
            if queries[i][k].args() != frozen[i][k]:
                raise Violation("arguments-changed", f"client {i} {q['op']}: {frozen[i][k]} -> {queries[i][k].args()}")
            o, hit = results[i][k]
            if hit:
                continue
            got, want = lp.outcome(o), solo[i][k][0]
            ctx.write(i, k, got)
            ctx.state(q["op"], got)
            if got != want:
                raise Violation("answer-differs", f"client {i} {q['op']}: {got} but alone {want}")
    nested(plan, ctx, p, base)


def nested(plan, ctx, p, base):
    """At seeded events of one operation, the whole of another takes place."""
    spec = plan["spec"]
    for pair in plan["pairs"]:
        solo = [core.reference(lambda: lp.Query(q).run(lp.build(spec))) for q in pair["ops"]]
        want = [lp.outcome(o) for o in solo]
        n = solo[0].events
        if n + solo[1].events > 4000:
            continue
        for u in pair["at"]:
            sched = core.Scheduler([[1 + int(u * n), 0], [1 << 30, 1]], "line", 100_000 + 4 * n, ctx=ctx)
            got = [None, None]

            def body(i):
                q = lp.Query(pair["ops"][i])

                def run(me):
                    got[i] = core.guarded(sched, lambda: q.run(p))
                return run

            sched.run([body(0), body(1)])
            if any(s[2] != "exit" for s in sched.switches):
                ctx.fault("preemption")
            for i, q in enumerate(pair["ops"]):
                g = lp.outcome(got[i])
                if g != want[i]:
                    raise Violation("answer-differs", f"{'outer' if i == 0 else 'inner'} {q['op']}: {g} but alone {want[i]} (at {sched.switches[:2]})")
            ctx.write(pair["ops"][0]["op"], sched.n)
    d = lp.diff(base, lp.snapshot(p))
    if d:
        raise Violation("program-changed", "after nested queries: " + "; ".join(d)[:600])
