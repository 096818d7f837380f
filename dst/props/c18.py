"""C18: the log of solution steps is append-only and complete."""
import functools
import re

from .. import core, lp, seams
from ..core import Violation

LISTS = ("ops", "clients", "segs", "pairs", "at")
INTS = ("segs",)
LOGGING = (["solve"] * 3 + ["two_phase_simplex"] * 3 + ["simplex"] * 4 + ["simplex_iteration"] * 3 + ["to_sef"] * 3
           + ["to_canonical_form"] * 3 + ["is_feasible"] * 5 + ["is_basic_solution"] * 4 + ["verify_unboundedness"] * 2
           + ["dual", "auxiliary", "verify_infeasibility", "verify_optimality", "is_feasible_basic_solution", "optimal_value",
              "is_solution_optimal", "is_basis", "evaluate", "repr", "copy", "clear_steps", "add_constraint", "add_variable", "properties",
              "steps_string"])
TAKES_FLAG = {"solve", "two_phase_simplex", "simplex", "simplex_iteration", "to_sef", "to_canonical_form", "is_feasible", "is_basic_solution",
              "verify_unboundedness", "dual", "auxiliary", "verify_infeasibility", "verify_optimality"}
NUM = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?")


def gen_op(rng, spec):
    r = rng.random()
    e = {"who": rng.randrange(8), "keep": rng.random() < 0.5}
    if r < 0.14:
        e["act"] = "copy"
    elif r < 0.2:
        e["act"] = "clear"
    elif r < 0.26:
        e["act"] = "clear_copy"
    elif r < 0.44:
        e["act"] = "edit"
        e["q"] = lp.gen_query(rng, spec, ["to_sef", "to_canonical_form", "simplex_iteration", "simplex_iteration", "add_constraint", "add_variable"])
    else:
        e["act"] = "query"
        e["q"] = lp.gen_query(rng, spec, LOGGING)
    e["fault"] = lp.gen_fault(rng) if rng.random() < 0.5 else {"kind": "none"}
    return e


def generate(rng, tier):
    spec = lp.gen_spec(rng, rows=(1, 3), cols=(1, 4), sef=True if rng.random() < 0.5 else None, wide=True)
    ops = [gen_op(rng, spec) for _ in range(rng.randint(2, 7 if tier == "quick" else 12))]
    n = rng.choice([0, 2, 2, 3])
    clients = []
    for i in range(n):
        c = {"ops": [lp.gen_query(rng, spec, LOGGING) for _ in range(rng.choice([1, 1, 2, 3]))]}
        if rng.random() < 0.3:
            c["ops"].insert(rng.randrange(len(c["ops"]) + 1), {"op": "copy", "form": "float", "steps": True})
        if rng.random() < 0.2:
            c["interrupt"] = rng.randrange(1000000) / 1000000
        clients.append(c)
    pairs = []
    for _ in range(rng.choice([0, 1, 2])):
        a = lp.gen_query(rng, spec, LOGGING)
        b = lp.gen_query(rng, spec, [a["op"]] if rng.random() < 0.5 else LOGGING)
        pairs.append({"ops": [a, b], "at": [rng.randrange(1000000) / 1000000 for _ in range(rng.choice([2, 4]))]})
    return {"spec": spec, "pairs": pairs, "ops": ops, "clients": clients, "target": rng.randrange(8), "gran": "instr" if rng.random() < 0.5 else "line",
            "segs": core.gen_segs(rng, max(n, 1)), "long": rng.choice([300, 1100, 2100]) if rng.random() < 0.006 else 0}


@functools.lru_cache(maxsize=4096)
def canon(text):
    def num(m):
        v = float(m.group())
        return "0" if abs(v) < 1e-9 else repr(core.quantise(v))
    return re.sub(r"\s+", " ", NUM.sub(num, text)).strip()


def log(p):
    """The log as (key, text) pairs; a broken entry is a violation."""
    out = []
    for s in p.steps:
        if not isinstance(s, dict) or not isinstance(s.get("key"), str) or not isinstance(s.get("text"), str):
            raise Violation("broken-entry", f"log entry {s!r}")
        out.append((s["key"], canon(s["text"])))
    return out


def rendered(what, p):
    """The printed log shows every entry, in order."""
    text = core.must("steps_string", lambda: p.steps_string)
    at = 0
    for s in p.steps:
        t = s["text"].strip()
        k = text.find(t, at)
        if k < 0:
            raise Violation("incomplete-rendering", f"{what}: entry {s} is missing or out of order in {text[-400:]!r}")
        at = k + len(t)


def fresh(p):
    return type(p)(p.A.copy(), p.b.copy(), p.c.copy(), p.z, p.objective, list(p.inequalities), list(p.free_variables), list(p.negative_variables))


def show(entries):
    return str(entries)[:300]


def suffix(what, before, after):
    if after[:len(before)] != before:
        raise Violation("log-not-append-only", f"{what}: log was {show(before)}, is {show(after)}")
    return after[len(before):]


def silent(q):
    return q["op"] in TAKES_FLAG and not q["steps"]


def apply(q, p):
    """An edit in place."""
    x = lp.Query(q)
    op, s = q["op"], q["steps"]
    if op == "to_sef":
        return p.to_sef(s, True)
    if op == "to_canonical_form":
        return p.to_canonical_form(x.basis, s, True)
    if op == "simplex_iteration":
        return p.simplex_iteration(x.basis, s, True)
    if op == "add_constraint":
        return p.add_constraint(x.row, q["rel"], q["value"], True)
    return p.add_variable(q["coef"], x.col, q["free"], q["neg"], True)


def execute(plan, ctx):
    family = [lp.build(plan["spec"])]
    if log(family[0]):
        raise Violation("wrong-entries", "a new program has a log")
    if plan["long"]:
        long_log(plan, family[0], ctx)
    for k, e in enumerate(plan["ops"]):
        i = e["who"] % len(family)
        p = family[i]
        logs = [log(q) for q in family]
        what = f"op {k} {e['act']} {e.get('q', {}).get('op', '')} on program {i}"
        act = e["act"]
        if act in ("copy", "clear_copy", "clear"):
            fn = {"copy": lambda: p.copy(), "clear_copy": lambda: p.clear_steps(), "clear": lambda: p.clear_steps(True)}[act]
            o = disturbed(ctx, e["fault"], fn)
            now = log(p)
            if not o.ok:
                if o.hit is None:
                    raise Violation("unexpected-error", f"{what} raised {type(o.exc).__name__}: {o.exc}")
                if now != logs[i] and not (act == "clear" and now == []):
                    raise Violation("log-not-append-only", f"{what} was cut short: log was {show(logs[i])}, is {show(now)}")
            elif act == "clear":
                if now:
                    raise Violation("not-cleared", f"{what}: log is {show(now)}")
                if o.value is not p:
                    raise Violation("not-cleared", f"{what} did not return the program it was asked to clear")
            else:
                if now != logs[i]:
                    raise Violation("log-not-append-only", f"{what}: log of the original was {show(logs[i])}, is {show(now)}")
                want = logs[i] if act == "copy" else []
                if log(o.value) != want:
                    raise Violation("wrong-copy", f"{what}: log of the result is {show(log(o.value))}, expected {show(want)}")
                if o.value is p:
                    raise Violation("wrong-copy", f"{what} returned the program itself")
                if len(family) < 6:
                    family.append(o.value)
                    logs.append(want)
        else:
            q = e["q"]
            twin = core.must("construction from public data", lambda: fresh(p))
            if act == "edit":
                ref = core.reference(lambda: apply(q, twin))
                o = core.call(lambda: apply(q, p))
            else:
                if q["op"] == "steps_string" and e["fault"]["kind"] != "none":
                    e = dict(e, fault={"kind": "none"})
                ref, o = lp.faulted(ctx, e["fault"], lambda: lp.Query(q).run(p), lambda: lp.Query(q).run(twin))
            want = log(twin)
            if silent(q) and want:
                raise Violation("logged-when-off", f"{what}: with recording off a fresh equal program logged {show(want)}")
            new = suffix(what, logs[i], log(p))
            hit = o.hit is not None
            if not hit and o.ok == ref.ok and new != want:
                raise Violation("wrong-entries", f"{what} logged {show(new)}; the same call on a fresh equal program logs {show(want)}")
            if hit and not o.ok and new != want[:len(new)]:
                raise Violation("wrong-entries", f"{what} was cut short and logged {show(new)}; undisturbed it logs {show(want)}")
            if hit and o.ok and e["fault"]["kind"] == "int" and new != want:
                raise Violation("wrong-entries", f"{what} returned although disturbed at {o.hit} and logged {show(new)}; undisturbed it logs {show(want)}")
            if silent(q) and new:
                raise Violation("logged-when-off", f"{what} logged {show(new)}")
            if new and o.ok:
                rendered(what, p)
            ctx.write(k, act, q["op"], o.ok, len(new))
            ctx.state(q["op"], len(logs[i]), new)
            if o.ok and e["keep"] and lp.is_program(o.value) and o.value is not p and len(family) < 6:
                family.append(o.value)
                logs.append(log(o.value))
        for j, q in enumerate(family):
            if j != i and log(q) != logs[j]:
                raise Violation("foreign-log-changed", f"{what}: log of program {j} was {show(logs[j])}, is {show(log(q))}")
        if act == "edit" or len(family) > 1:
            ctx.nontrivial = True
        ctx.probe("entries", sum(map(len, logs)))
    if len(plan["clients"]) > 1:
        together(plan, ctx, family, plan["clients"], plan["segs"], plan["gran"])
    for pair in plan["pairs"]:
        clients = [{"ops": [q]} for q in pair["ops"]]
        n = core.reference(lambda: lp.Query(pair["ops"][0]).run(fresh(family[plan["target"] % len(family)]))).events
        if n < 3000:
            for u in pair["at"]:
                together(plan, ctx, family, clients, [[1 + int(u * n), 0], [1 << 30, 1]], "line")


def long_log(plan, p, ctx):
    """The program has logged a great deal before the history begins."""
    x = [0] * len(plan["spec"]["c"])
    each = None
    while len(p.steps) < plan["long"]:
        n, last = len(p.steps), p.steps[-1:]
        if not core.call(lambda: p.is_feasible(x, True)).ok or len(p.steps) == n == 0:
            return
        each = each or len(p.steps)
        if len(p.steps) != n + each or p.steps[:each] + p.steps[n - 1:n] != p.steps[:each] + last:
            raise Violation("log-not-append-only", f"the log had {n} entries, {len(p.steps)} after another check that logs {each}")
    ctx.probe("long log")


def disturbed(ctx, fault, fn):
    """fn, cut short by an interrupt if the fault is one. fn itself locates the point: it is run once undisturbed
    only when it has no lasting effect, so the point is given as a small event number."""
    if fault["kind"] != "int":
        return core.call(fn)
    ctx.want("int")
    at = 1 + int(fault["u"] * (60 if fault["gran"] == "line" else 600))
    o = core.call(fn, at=at, exc=lp.EXC[fault["exc"]], gran=fault["gran"])
    if o.hit:
        ctx.fault(lp.ARRIVAL[fault["exc"]])
        ctx.site(o.hit)
    return o


def together(plan, ctx, family, clients, segs, gran):
    p = family[plan["target"] % len(family)]
    base = log(p)
    others = [(q, log(q)) for q in family if q is not p]
    deltas, events = [], []
    for c in clients:
        row, ev = [], []
        for q in c["ops"]:
            twin = core.must("construction from public data", lambda: fresh(p))
            o = core.reference(lambda: lp.Query(q).run(twin))
            row.append(log(twin))
            ev.append(o.events)
            if silent(q) and row[-1]:
                raise Violation("logged-when-off", f"{q['op']} with recording off logged {show(row[-1])}")
        deltas.append(row)
        events.append(ev)
    total = sum(map(sum, events))
    if total > 300_000:
        raise core.Skip("too long for this property")
    sched = core.Scheduler(segs, gran, 20 * total + 200_000, ctx=ctx)
    n = len(clients)
    contrib = [[] for _ in range(n)]   # per client: entries it must have logged
    partial = [[] for _ in range(n)]   # further entries of which any prefix may follow
    copies = []

    def client(i):
        def body(me):
            spec = clients[i]
            for k, q in enumerate(spec["ops"]):
                at = None
                if "interrupt" in spec and k == len(spec["ops"]) - 1:
                    at = 1 + int(spec["interrupt"] * events[i][k])
                    ctx.want("interrupt")
                x = lp.Query(q)
                lo = len(p.steps)
                o = core.guarded(sched, lambda: x.run(p), at)
                hi = len(p.steps)
                if o.hit:
                    ctx.fault("interrupt")
                    ctx.site(o.hit)
                if o.hit and not o.ok:
                    partial[i] = deltas[i][k]
                else:
                    contrib[i] += deltas[i][k]
                if q["op"] == "copy" and o.ok:
                    got = log(o.value)
                    copies.append((i, k, o.value, got, lo, hi))
                sched.yield_point()
        return body

    sched.run([client(i) for i in range(n)])
    switches = sum(s[2] != "exit" for s in sched.switches)
    if switches:
        ctx.fault("preemption", switches)
    final = log(p)
    new = suffix("concurrent queries", base, final)
    seqs = [contrib[i] + partial[i] for i in range(n)]
    need = [len(contrib[i]) for i in range(n)]
    front = {tuple([0] * n)}
    for pos, entry in enumerate(new):
        nxt = set()
        for f in front:
            for i in range(n):
                if f[i] < len(seqs[i]) and seqs[i][f[i]] == entry:
                    nxt.add(f[:i] + (f[i] + 1,) + f[i + 1:])
        if not nxt:
            raise Violation("wrong-entries", f"entry {pos} {entry} of {show(new)} fits no client; expected an interleaving of {[show(s) for s in seqs]}")
        front = nxt
    if not any(all(a >= b for a, b in zip(f, need)) for f in front):
        raise Violation("entries-lost", f"log gained {len(new)} entries, clients logged {need}: {show(new)} from {[show(s) for s in seqs]}")
    for i, k, c, got, lo, hi in copies:
        if got != final[:len(got)] or not lo <= len(got) <= hi:
            raise Violation("wrong-copy", f"client {i} op {k}: a copy taken between {lo} and {hi} entries has {len(got)}: {show(got)}")
        if log(c) != got:
            raise Violation("foreign-log-changed", f"log of a copy changed from {show(got)} to {show(log(c))}")
    for q, l in others:
        if log(q) != l:
            raise Violation("foreign-log-changed", f"log of another program was {show(l)}, is {show(log(q))}")
    rendered("after concurrent queries", p)
    ctx.write("together", new)
    ctx.state("together", tuple(sorted(map(str, new))), sched.switches)
