"""C03: programs derived from one another, and from caller arrays, are independent."""
import numpy as np

from .. import core, lp
from ..core import Violation

LISTS = ("ops", "owners", "edits", "segs")
INTS = ("segs",)
DERIVE = ["copy", "copy", "dual", "dual", "to_sef", "auxiliary", "add_constraint", "add_variable", "to_canonical_form",
          "simplex_iteration", "clear_steps"]
EDIT = ["add_constraint", "add_variable", "to_sef", "to_canonical_form", "simplex_iteration", "write", "write", "clear_steps"]


def gen_edit(rng):
    return {"op": rng.choice(EDIT), "r": [rng.randrange(10000) / 10000 for _ in range(12)], "where": rng.choice("Abc")}


def gen_mixed(rng):
    """A small integer program, and what the caller does to his lists after it is built."""
    n = rng.randint(1, 3)
    return {"w": [rng.randint(2, 9) for _ in range(n)], "c": [rng.randint(1, 9) for _ in range(n)], "cap": rng.randint(3, 20), "top": [rng.randint(1, 4) for _ in range(n)],
            "integral": rng.sample(range(n), rng.randint(0, n)), "r": [rng.randrange(10000) / 10000 for _ in range(12)],
            "which": rng.choice(["integral_variables", "integral_variables", "inequalities", "free_variables", "negative_variables"])}


def mixed(s, ctx):
    n = len(s["w"])
    if len(s["c"]) != n or len(s["top"]) != n or any(i >= n for i in s["integral"]):
        return
    A = [s["w"]] + [[int(i == j) for j in range(n)] for i in range(n)]

    def build():
        lists = {"inequalities": ["<="] * (n + 1), "free_variables": [], "negative_variables": [], "integral_variables": list(s["integral"])}
        return lists, core.must("construction", lambda: lp.IntegerProgram(A, [s["cap"]] + s["top"], s["c"], 0, "max", **lists))

    want = core.norm(core.must("branch and bound", build()[1].branch_and_bound))
    lists, p = build()
    for _ in range(2):
        rewrite(lists[s["which"]], s["r"], n)
        got = core.norm(core.must("branch and bound", p.branch_and_bound))
        ctx.fault("the caller's list written")
        if got != want:
            raise Violation("caller-list-shared", f"the caller's list of {s['which']} became {lists[s['which']]} and the program's answer {got} instead of {want}")


def generate(rng, tier):
    spec = lp.gen_spec(rng, rows=(1, 3), cols=(1, 3), wide=True)
    ops = []
    for _ in range(rng.randint(2, 9)):
        r = rng.random()
        if r < 0.45:
            kind = rng.choice(DERIVE + (["relax", "relax", "relax"] if spec["cls"] == "ip" else []) + ["rebuild", "from_exposed"])
            ops.append(dict(gen_edit(rng), act="derive", op=kind, target=rng.randrange(64)))
        elif r < 0.85:
            ops.append(dict(gen_edit(rng), act="edit", target=rng.randrange(64)))
        else:
            ops.append(dict(gen_edit(rng), act="caller"))
            if rng.random() < 0.3:
                ops[-1]["where"] = rng.choice(["inequalities", "free_variables", "negative_variables"])
    n = rng.choice([0, 2, 2, 3])
    owners = [{"edits": [gen_edit(rng) for _ in range(rng.randint(1, 4))]} for _ in range(n)]
    if n:
        owners[rng.randrange(n)]["caller"] = rng.random() < 0.5
    return {"mixed": gen_mixed(rng) if rng.random() < 0.04 else None, "spec": spec, "ops": ops, "owners": owners, "gran": "instr" if rng.random() < 0.3 else "line",
            "segs": core.gen_segs(rng, max(n, 1))}


def numbers(r, k):
    return [int(r[(3 + i) % 12] * 13) - 6 for i in range(k)]


def scribble(a, r):
    """Writes into an array or list the way its owner may."""
    if isinstance(a, list):
        if a and isinstance(a[0], list):
            a = a[int(r[1] * len(a))]
        if a and not isinstance(a[0], str):
            a[int(r[2] * len(a))] = int(r[3] * 90) + 10
        return
    if a.size == 0 or not a.flags.writeable:
        return
    if r[0] < 0.3:
        a[...] = int(r[3] * 90) + 10
    elif r[0] < 0.5:
        a *= -3
    else:
        a[tuple(int(r[i + 1] * n) for i, n in enumerate(a.shape))] = int(r[3] * 90) + 10


def rewrite(a, r, n):
    """Writes into a list of relations or indices the way its owner may."""
    if a and isinstance(a[0], str):
        a[int(r[2] * len(a))] = ["<=", ">=", "="][int(r[3] * 3)]
    elif a and r[1] < 0.6:
        a.clear()
    else:
        a.append(1 + int(r[2] * n))
    if r[4] < 0.2:
        a.reverse()


def own(a):
    """The array behind a read-only view that the caller passed: the caller's to write."""
    return a.base if isinstance(a, np.ndarray) and not a.flags.writeable and isinstance(a.base, np.ndarray) else a


def apply_edit(p, e, in_place):
    """One edit or derivation on p; returns the derived program (or None)."""
    r, op = e["r"], e["op"]
    n, m = len(p.c), len(p.b)
    if op == "write":
        scribble(getattr(p, e["where"]), r)
        return None
    if op == "add_constraint":
        row = np.array(numbers(r, n), dtype=float)
        q = p.add_constraint(row, ["=", "<=", ">="][int(r[0] * 3)], int(r[1] * 9) - 2, in_place)
        row[...] = 77  # the caller reuses its array
        return q
    if op == "add_variable":
        col = np.array(numbers(r, m), dtype=float)
        q = p.add_variable(int(r[0] * 9) - 4, col, r[1] < 0.3, 0.3 <= r[1] < 0.6, in_place)
        col[...] = 77
        return q
    if op == "to_sef":
        return p.to_sef(r[0] < 0.5, in_place)
    if op in ("to_canonical_form", "simplex_iteration"):
        basis = sorted(sorted(range(1, n + 1), key=lambda j: r[j % 12] + j / 100)[:m])
        if op == "to_canonical_form":
            return p.to_canonical_form(basis, r[0] < 0.5, in_place)
        return p.simplex_iteration(basis, r[0] < 0.5, in_place)[2]
    if op == "clear_steps":
        return p.clear_steps(in_place)
    if op == "copy":
        return p.copy()
    if op == "dual":
        return p.dual()
    if op == "auxiliary":
        return p.auxiliary()
    if op == "relax":
        return p.relax() if hasattr(p, "relax") else p.copy()
    if op == "from_exposed":
        return lp.LinearProgram(p.A, p.b, p.c, p.z, p.objective, p.inequalities, p.free_variables, p.negative_variables)
    raise core.HarnessError(op)


class World:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.args = lp.build_args(plan["spec"])
        self.progs = [lp.build(plan["spec"], self.args)]
        self.snaps = [lp.snapshot(self.progs[0])]
        self.args0 = lp.freeze(self.args)

    def check(self, what, changed=None, caller=False):
        for i, (p, s) in enumerate(zip(self.progs, self.snaps)):
            if i == changed:
                self.snaps[i] = lp.snapshot(p)
                continue
            d = lp.diff(s, lp.snapshot(p))
            if d:
                raise Violation("other-program-changed", f"{what} changed program {i}: {'; '.join(d)[:500]}")
        if caller:
            self.args0 = lp.freeze(self.args)
        elif lp.freeze(self.args) != self.args0:
            raise Violation("caller-data-changed", f"{what} changed the arrays or lists of the caller")

    def sequential(self):
        for k, e in enumerate(self.plan["ops"]):
            if e["act"] == "caller":
                if len(e["where"]) > 1:
                    if self.args[e["where"]] is not None:
                        rewrite(self.args[e["where"]], e["r"], len(self.plan["spec"]["c"]))
                else:
                    scribble(own(self.args[e["where"]]), e["r"])
                self.check(f"op {k}: the caller writing to its {e['where']}", caller=True)
                continue
            t = e["target"] % len(self.progs)
            p = self.progs[t]
            what = f"op {k}: {e['act']} {e['op']} of program {t}"
            if e["act"] == "derive":
                if e["op"] == "rebuild":
                    o = core.call(lambda: lp.build(self.plan["spec"], self.args))
                else:
                    o = core.call(lambda: apply_edit(p, e, False))
                self.check(what)
                if o.ok:
                    if any(o.value is x for x in self.progs):
                        raise Violation("same-object", f"{what} returned an existing program")
                    self.progs.append(o.value)
                    self.snaps.append(lp.snapshot(o.value))
                self.ctx.write(what, o.ok)
                continue
            o = core.call(lambda: apply_edit(p, e, True))
            self.check(what, changed=t)
            self.ctx.write(what, o.ok, self.snaps[t])
            if o.ok:
                self.ctx.nontrivial = True
                self.ctx.fault("in-place edit of a related program")

    def owned(self, i):
        """Owner i's program: the latest ones, one each."""
        return self.progs[-1 - (i % len(self.progs))]

    def owner(self, i, sched=None):
        o = self.plan["owners"][i]

        def body(me=None):
            for e in o["edits"]:
                if o.get("caller"):
                    scribble(own(self.args[e["where"]]), e["r"])
                    if sched:
                        sched.yield_point()
                    continue
                f = (lambda: apply_edit(self.owned(i), e, True))
                if sched:
                    core.guarded(sched, f)
                    sched.yield_point()
                else:
                    core.call(f)
        return body


def execute(plan, ctx):
    if plan.get("mixed"):
        mixed(plan["mixed"], ctx)
    owners = plan["owners"]
    w = World(plan, ctx)
    w.sequential()
    for s in w.snaps:
        ctx.state(s)
    if not owners or len(w.progs) < len(owners):
        return
    # expectation: every owner alone in its own copy of the world
    want = []
    quiet = core.Ctx()
    quiet.start()
    for i in range(len(owners)):
        alone = World(plan, quiet)
        alone.sequential()
        alone.owner(i)()
        want.append(lp.snapshot(alone.owned(i)))
    sched = core.Scheduler(plan["segs"], plan["gran"], ctx=ctx)
    sched.run([w.owner(i, sched) for i in range(len(owners))])
    for i in range(len(owners)):
        if owners[i].get("caller"):
            # its program is edited by nobody
            d = lp.diff(w.snaps[-1 - (i % len(w.progs))], lp.snapshot(w.owned(i)))
        else:
            d = lp.diff(tuple(map(core.norm, want[i])), tuple(map(core.norm, lp.snapshot(w.owned(i)))))
        ctx.write(i, lp.snapshot(w.owned(i)))
        if d:
            raise Violation("owners-interfere", f"owner {i}: {'; '.join(d)[:600]}")
    owned = {id(w.owned(i)) for i in range(len(owners))}
    for j, p in enumerate(w.progs):
        if id(p) not in owned:
            d = lp.diff(w.snaps[j], lp.snapshot(p))
            if d:
                raise Violation("other-program-changed", f"program {j}, which nobody edited, changed: {'; '.join(d)[:500]}")
