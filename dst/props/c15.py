"""C15: disjoint sets through histories, concurrent finds, interrupted unions and finds, rejected calls, long chains."""
import copy

from .. import core, lp
from ..core import Violation
from pytimize.utilities import DisjointSet

LISTS = ("ops", "clients", "finds", "segs")
INTS = ("segs",)


def generate(rng, tier):
    big = rng.random() < (0.04 if tier == "quick" else 0.08)
    n = rng.choice([2000, 5000, 12000]) if big else rng.choice([1, 2, 3, 5, 8, 12, 20])
    ops = []
    shape = rng.choice(["random", "chain", "swapped", "swapped", "reverse", "tournament", "star"])
    for k in range(rng.randint(1, 14 if tier == "quick" else 30)):
        r = rng.random()
        op = {"op": "union" if r < 0.62 else "find" if r < 0.8 else "reject" if r < 0.9 else "burst" if r < 0.95 else "finds",
              "a": rng.randrange(1 << 20), "b": rng.randrange(1 << 20), "kind": rng.choice(["left", "right", "both", "find", "duplicate", "unhashable"])}
        if op["op"] in ("union", "find") and rng.random() < 0.35:
            op["interrupt"] = rng.randrange(10 ** 6) / 10 ** 6
            op["exc"] = rng.choice(["int", "int", "async", "async", "mem"])
            op["gran"] = "instr" if rng.random() < 0.4 else "line"
        ops.append(op)
    clients = []
    for _ in range(rng.choice([0, 2, 2, 3, 4])):
        clients.append({"finds": [rng.randrange(1 << 20) for _ in range(rng.randint(1, 8))],
                        "interrupt": rng.randrange(1, 30) if rng.random() < 0.2 else 0})
    return {"n": n, "shape": shape, "bulk": big or rng.random() < 0.5, "items": rng.choice(["str", "str", "int", "tuple"]), "ops": ops, "clients": clients,
            "gran": "instr" if rng.random() < 0.5 else "line", "segs": core.gen_segs(rng, max(1, len(clients)))}


class Partition:
    def __init__(self, items):
        self.of = {x: i for i, x in enumerate(items)}
        self.members = {i: [x] for i, x in enumerate(items)}

    def union(self, a, b):
        i, j = self.of[a], self.of[b]
        if i == j:
            return
        if len(self.members[i]) < len(self.members[j]):
            i, j = j, i
        for x in self.members.pop(j):
            self.of[x] = i
            self.members[i].append(x)

    def joined(self, a, b):
        q = Partition([])
        q.of = dict(self.of)
        q.members = {i: list(m) for i, m in self.members.items()}
        q.union(a, b)
        return q


def mismatch(find, part, items):
    """Why the representatives do not describe the partition, or None."""
    reps = {}
    for x in items:
        r = find(x)
        if r not in part.of or part.of[r] != part.of[x]:
            return f"the representative of {x!r} is {r!r}, which is not in its set"
        g = part.of[x]
        if reps.setdefault(g, r) != r:
            return f"{x!r} has representative {r!r}, another member of its set {reps[g]!r}"
    return None


class _NoMonitor:
    def __enter__(self):
        self.h = core.MON.handler
        core.MON.handler = None

    def __exit__(self, *e):
        core.MON.handler = self.h


def execute(plan, ctx):
    n = plan["n"]
    items = [f"v{i}" if plan["items"] == "str" else i if plan["items"] == "int" else ("v", i) for i in range(n)]
    given = list(items)
    s = core.must("construction", lambda: DisjointSet(given))
    part = Partition(items)
    deep = n > 1500

    def peek():
        return copy.deepcopy(s)

    def check(what, full=True):
        some = items if full and not deep else items[:: max(1, n // 400)] + items[-3:]
        try:
            # looking shortens paths: look at a copy, so that the history alone shapes the forest
            d = mismatch(peek().find, part, some)
        except RecursionError:
            raise Violation("recursion-limit", f"{what}: finding in a collection of {n} ran into the recursion limit") from None
        except Exception as e:
            raise Violation("unexpected-error", f"{what}: find raised {type(e).__name__}: {e}") from e
        if d:
            raise Violation("wrong-partition", f"{what}: {d}")

    def plain_union(a, b, what):
        try:
            s.union(a, b)
        except RecursionError:
            raise Violation("recursion-limit", f"{what}: joining in a collection of {n} ran into the recursion limit") from None
        part.union(a, b)

    check("after construction")
    if plan["bulk"]:
        sh = plan["shape"]
        m = n if deep else max(1, n // 2)
        rng = core.rng_for("bulk", n, sh)
        if sh == "chain":
            pairs = [(i, i + 1) for i in range(m - 1)]
        elif sh == "swapped":
            pairs = [(i + 1, i) for i in range(m - 1)]
        elif sh == "reverse":
            pairs = [(i + 1, i) for i in reversed(range(m - 1))]
        elif sh == "star":
            pairs = [(i, 0) for i in range(1, m)]
        elif sh == "tournament":
            pairs, w = [], 1
            while w < m:
                pairs += [(i, i + w) for i in range(0, m - w, 2 * w)]
                w *= 2
        else:
            pairs = [(rng.randrange(m), rng.randrange(m)) for _ in range(m)]
        for i, j in pairs:
            plain_union(items[i], items[j], f"bulk {sh}")
        check(f"after joining {len(pairs)} pairs ({sh})")
        if deep:
            ctx.probe("large collection")
            ctx.nontrivial = True
    for k, op in enumerate(plan["ops"]):
        a, b = items[op["a"] % n], items[op["b"] % n]
        what = f"op {k} {op['op']}"
        if op["op"] in ("union", "find"):
            fn = (lambda: s.union(a, b)) if op["op"] == "union" else (lambda: s.find(a))
            what += f"({a!r}, {b!r})" if op["op"] == "union" else f"({a!r})"
            after = part.joined(a, b) if op["op"] == "union" and not deep else None
            if "interrupt" in op and not deep:
                ctx.want("interrupt")
                o = core.call(fn, 100_000, at=1 + int(op["interrupt"] * (40 if op["gran"] == "line" else 160)), exc=lp.EXC[op["exc"]], gran=op["gran"])
                if o.hit:
                    ctx.fault(lp.ARRIVAL[op["exc"]])
                    ctx.site(o.hit)
                    if o.ok:
                        raise core.Skip("interrupt swallowed")
                    with _NoMonitor():
                        before_ok = mismatch(peek().find, part, items)
                        if before_ok is not None:
                            if after is None or mismatch(peek().find, after, items) is not None:
                                raise Violation("wrong-partition", f"{what} interrupted at {o.hit}: neither the partition before nor after: {before_ok}")
                            part = after
                    ctx.write(k, op["op"], "interrupted", before_ok is None)
                    continue
            else:
                o = core.call(fn, 3_000_000)
            if not o.ok:
                cls = "recursion-limit" if isinstance(o.exc, RecursionError) else "unexpected-error"
                raise Violation(cls, f"{what} raised {type(o.exc).__name__}: {o.exc}")
            if op["op"] == "union":
                part.union(a, b)
            ctx.write(k, op["op"])
        elif op["op"] == "reject":
            bad = ("stranger", k)
            calls = {"left": lambda: s.union(bad, a), "right": lambda: s.union(a, bad), "both": lambda: s.union(bad, bad), "find": lambda: s.find(bad),
                     "duplicate": lambda: DisjointSet([a, b, a]), "unhashable": lambda: s.find(["x"])}
            o = core.call(calls[op["kind"]])
            if o.ok:
                raise Violation("bad-call-accepted", f"{what} {op['kind']} returned {o.value!r}")
            if op["kind"] != "unhashable" and not isinstance(o.exc, ValueError):
                raise Violation("bad-call-accepted", f"{what} {op['kind']} raised {type(o.exc).__name__}: {o.exc}")
            ctx.fault("rejected call")
        elif op["op"] == "burst":
            for i in range(min(n, 30)):
                plain_union(items[(op["a"] + i) % n], items[(op["b"] + 3 * i) % n], what)
        else:
            for i in range(min(n, 12)):
                s.find(items[(op["a"] + 5 * i) % n])
        if given != items:
            raise Violation("caller-data-changed", "the list given to the constructor changed")
        if not deep or k == len(plan["ops"]) - 1:
            check(f"after {what}", full=not deep)
        ctx.state(n, sorted(len(m) for m in part.members.values()) if not deep else len(part.members))
    given.clear()
    check("after the caller emptied its own list")
    if len(plan["clients"]) > 1:
        sched = core.Scheduler(plan["segs"], plan["gran"], ctx=ctx)
        got = []

        def client(i):
            c = plan["clients"][i]

            def body(me):
                for k, x in enumerate(c["finds"]):
                    x = items[x % n]
                    at = c["interrupt"] if k == 0 and c["interrupt"] else None
                    if at:
                        ctx.want("interrupt")
                    o = core.guarded(sched, lambda: s.find(x), at)
                    if o.hit:
                        ctx.fault("interrupt")
                        ctx.site(o.hit)
                    else:
                        got.append((i, x, o))
                    sched.yield_point()
            return body

        sched.run([client(i) for i in range(len(plan["clients"]))])
        m = sum(x[2] != "exit" for x in sched.switches)
        if m:
            ctx.fault("preemption", m)
        rep = {}
        for i, x, o in got:
            if not o.ok:
                cls = "recursion-limit" if isinstance(o.exc, RecursionError) else "unexpected-error"
                raise Violation(cls, f"concurrent find({x!r}) by client {i} raised {type(o.exc).__name__}: {o.exc}")
            if o.value not in part.of or part.of[o.value] != part.of[x] or rep.setdefault(part.of[x], o.value) != o.value:
                raise Violation("wrong-partition", f"concurrent find({x!r}) by client {i} gave {o.value!r}; others of its set gave {rep.get(part.of[x])!r}")
        check("after concurrent finds")
