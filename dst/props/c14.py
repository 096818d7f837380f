"""C14: descent methods with failing, NaN-returning, scribbling and re-entrant callbacks, threads sharing a start point."""
import numpy as np

from .. import core, lp, seams
from ..core import Violation
from pytimize.programs import UnconstrainedProgram

LISTS = ("faults", "clients", "segs")
INTS = ("segs",)
EXCS = ["custom", "value", "linalg", "zero", "stop", "interrupt", "base", "type", "key", "index", "over", "fpe", "attr", "rec", "mem", "notimpl", "assert", "os",
        "runtime", "arith", "lookup", "plain", "exit", "genexit"]


class SimCallbackError(Exception):
    pass


class SimBase(BaseException):
    pass


EXC = {"custom": SimCallbackError, "value": ValueError, "linalg": np.linalg.LinAlgError, "zero": ZeroDivisionError, "stop": StopIteration,
       "interrupt": core.SimInterrupt, "base": SimBase, "type": TypeError, "key": KeyError, "index": IndexError, "over": OverflowError,
       "fpe": FloatingPointError, "attr": AttributeError, "rec": RecursionError, "mem": MemoryError, "notimpl": NotImplementedError,
       "assert": AssertionError, "os": OSError, "runtime": RuntimeError, "arith": ArithmeticError, "lookup": LookupError, "plain": Exception,
       "exit": SystemExit, "genexit": GeneratorExit}


def gen_problem(rng):
    n = rng.randint(1, 4) if rng.random() < 0.97 else rng.randint(7, 14)
    kind = rng.choice(["quad"] * 6 + ["linear"])
    # B'B + D with small entries: strictly convex, moderately conditioned
    B = [[rng.choice([0, 0, 1, -1, 2]) for _ in range(n)] for _ in range(n)]
    D = [rng.choice([1, 1, 2, 3, 0.5]) for _ in range(n)]
    Q = [[sum(B[k][i] * B[k][j] for k in range(n)) + (D[i] if i == j else 0) for j in range(n)] for i in range(n)]
    hands = rng.choice(["new", "new", "kept"])
    m = [rng.choice([0, 1, -2, 3.5, 10, -7.25]) for _ in range(n)]
    if rng.random() < 0.04:
        # the gradient at a point is the point
        hands, kind, m = "self", "quad", [0] * n
        Q = [[float(i == j) for j in range(n)] for i in range(n)]
    return {"n": n, "kind": kind, "Q": Q, "hands": hands, "m": m, "k": rng.choice([0, 0, 2, -5]),
            "g": [rng.choice([1, -2, 0.5]) for _ in range(n)], "x0": [rng.choice([0, 1, -1, 4, 2.5, -30, 100, 7]) for _ in range(n)],
            "obj": rng.choice(["min", "max"])}


def gen_method(rng):
    d = {"method": rng.choice(["sd", "sd", "newton"]), "tol": rng.choice([None, None, 1e-3, 1e-6]), "limit": None}
    if d["method"] == "sd" and rng.random() < 0.4:
        d.update(alpha=rng.choice([1, 2, 0.5]), c=rng.choice([0.7, 0.3, 0.1]), p=rng.choice([0.5, 0.8, 0.3]))
    if rng.random() < 0.25:
        d["limit"] = rng.choice([0, 1, 2, 5, 7.0])
    return d


def generate(rng, tier):
    p = gen_problem(rng)
    faults = []
    for _ in range(rng.randint(1, 4)):
        faults.append({"kind": rng.choice(["raise", "raise", "raise", "nan", "inf", "scribble", "nested", "interrupt"]), "who": rng.choice(["f", "df", "df", "d2f", "any"]),
                       "u": rng.randrange(10 ** 6) / 10 ** 6, "exc": rng.choice(EXCS), "early": rng.random() < 0.5})
    clients = []
    for _ in range(rng.choice([0, 2, 2, 3])):
        c = dict(gen_method(rng))
        c["limit"] = c["limit"] if c["limit"] is not None else 60
        if rng.random() < 0.3:
            c["fault"] = {"kind": "raise", "who": "any", "u": rng.randrange(10 ** 6) / 10 ** 6, "exc": rng.choice(EXCS), "early": True}
        clients.append(c)
    return {"problem": p, "run": gen_method(rng), "form": rng.choice(["float", "int", "list", "readonly", "strided", "float"]), "faults": faults,
            "clients": clients, "gran": "instr" if rng.random() < 0.3 else "line", "segs": core.gen_segs(rng, max(1, len(clients)))}


class Caller:
    """The caller's functions, one instance per computation; counts its calls and misbehaves at one of them."""

    def __init__(self, p, at=None, kind=None, exc=None, who="any", nested=None):
        self.p, self.at, self.kind, self.who, self.nested = p, at, kind, who, nested
        self.exc = exc
        self.count = {"any": 0, "f": 0, "df": 0, "d2f": 0}
        self.fired = False
        self.sign = 1 if p["obj"] == "min" else -1
        self.kept = {}
        self.spoilt = None

    def hand(self, key, x, good):
        """The array the caller's function returns: new, one the caller keeps, or its own argument."""
        hands = self.p.get("hands", "new")
        if hands == "self" and isinstance(x, np.ndarray) and x.dtype == good.dtype and np.array_equal(x, good):
            return x
        if hands == "new":
            return good
        mine = self.kept.setdefault(key, good)
        if not np.array_equal(mine, good, equal_nan=True):
            self.spoilt = f"{key[0]} at {list(key[1:])} had returned {good.tolist()}, the array is now {mine.tolist()}"
        return mine

    def look(self):
        """What became of the arrays the caller keeps."""
        for key, mine in list(self.kept.items()):
            if key[0] == "df":
                self.hand(key, None, self.grad(key[1:]))
            else:
                self.hand(key, None, self.curve())
        return self.spoilt

    def _tick(self, name, x, good):
        self.count["any"] += 1
        self.count[name] += 1
        hit = self.at is not None and self.count[self.who] == self.at and self.who in ("any", name)
        if not hit:
            return good
        self.at = None
        self.fired = True
        if self.kind == "raise":
            raise self.exc
        if self.kind in ("nan", "inf"):
            v = float(self.kind)
            return v if np.ndim(good) == 0 else np.full(np.shape(good), v)
        if self.kind == "scribble":
            if isinstance(x, np.ndarray) and x.flags.writeable:
                x[...] = 3.0
            elif isinstance(x, list):
                x[:] = [3.0] * len(x)
        elif self.kind == "nested":
            self.nested()
        return good

    def f(self, x):
        p, n = self.p, self.p["n"]
        v = [float(t) for t in x]
        if p["kind"] == "linear":
            y = sum(p["g"][i] * v[i] for i in range(n))
        else:
            e = [v[i] - p["m"][i] for i in range(n)]
            y = sum(e[i] * p["Q"][i][j] * e[j] for i in range(n) for j in range(n)) / 2 + p["k"]
        return self._tick("f", x, self.sign * y)

    def df(self, x):
        return self._tick("df", x, self.hand(("df", *map(float, x)), x, self.grad(x)))

    def grad(self, x):
        p, n = self.p, self.p["n"]
        v = [float(t) for t in x]
        if p["kind"] == "linear":
            g = [self.sign * t for t in p["g"]]
        else:
            e = [v[i] - p["m"][i] for i in range(n)]
            g = [self.sign * sum(p["Q"][i][j] * e[j] for j in range(n)) for i in range(n)]
        return np.array(g, dtype=float)

    def d2f(self, x):
        p, n = self.p, self.p["n"]
        return self._tick("d2f", x, self.hand(("d2f",), None, self.curve()))

    def curve(self):
        p, n = self.p, self.p["n"]
        return self.sign * np.array(p["Q"] if p["kind"] != "linear" else [[1.0 if i == j else 0 for j in range(n)] for i in range(n)], dtype=float)


def compute(program, call, x, d):
    kw = {}
    if d["tol"] is not None:
        kw["tolerance"] = d["tol"]
    if d["limit"] is not None:
        kw["max_iteration"] = d["limit"]
    if d["method"] == "newton":
        return program.newton_method(x, call.df, call.d2f, **kw)
    for key in ("alpha", "c", "p"):
        if key in d:
            kw[key] = d[key]
    return program.steepest_descent(x, call.df, **kw)


def start_of(p, form):
    if form == "list":
        return list(p["x0"])
    if form == "readonly":
        a = np.array(p["x0"], dtype=float)
        a.setflags(write=False)
        return a
    return lp.arr(p["x0"], form)


def check_point(what, p, d, x):
    x = np.asarray(x)
    n = p["n"]
    if x.shape != (n,):
        raise Violation("wrong-point", f"{what}: {x!r} in dimension {n}")
    limit = 10 ** 5 if d["limit"] is None else int(d["limit"])
    tol = 10e-5 if d["tol"] is None else d["tol"]
    c = Caller(p)
    if p["kind"] == "linear":
        # every iteration moves by exactly one step along the gradient, so the distance shows how many there were
        a = (d.get("alpha", 1) if d["method"] == "sd" else 1) * np.linalg.norm(p["g"])
        if np.linalg.norm(x - np.array(p["x0"], dtype=float)) > limit * a * (1 + 1e-9) + 1e-9:
            raise Violation("iteration-limit", f"{what}: moved {np.linalg.norm(x - np.array(p['x0']))} within {limit} iterations of length {a}")
        return
    g = float(np.linalg.norm(c.grad(x)))
    if d["limit"] is None and not g <= tol * (1 + 1e-6):
        raise Violation("wrong-point", f"{what}: {x.tolist()} has gradient {g}, tolerance {tol}; the optimum is {p['m']}")
    if d["limit"] is not None and d["method"] == "newton" and limit >= 1 and not g <= 1e-6 * (1 + max(map(abs, p["x0"] + p["m"]))):
        raise Violation("wrong-point", f"{what}: {x.tolist()} after {limit} Newton steps on a quadratic; the optimum is {p['m']}")
    if d["limit"] is not None and c.sign * c.f(x) > c.sign * c.f(p["x0"]) + 1e-6:
        raise Violation("wrong-point", f"{what}: {x.tolist()} is worse than the start {p['x0']}")


def budget_of(d):
    limit = 10 ** 5 if d["limit"] is None else int(d["limit"]) + 1
    return min(40_000_000, 4000 * limit + 20000)


def execute(plan, ctx):
    p, d = plan["problem"], dict(plan["run"])
    if p["kind"] == "linear" and d["limit"] is None:
        d["limit"] = 9
    what = f"{'steepest descent' if d['method'] == 'sd' else 'Newton'} {'minimising' if p['obj'] == 'min' else 'maximising'} {p['kind']} from {p['x0']}"
    start = start_of(p, plan["form"])
    before = lp.freeze(start)

    def unchanged(when):
        if lp.freeze(start) != before:
            raise Violation("start-changed", f"{what}: the starting point {before} became {lp.freeze(start)} {when}")

    # one program object whose objective function goes to whichever caller is being served
    current = {}

    def f(x):
        return current["c"].f(x)

    program = core.must("construction", lambda: UnconstrainedProgram(f, p["obj"]))

    def serve(call, dd):
        def go():
            current["c"] = call
            return compute(program, call, start, dd)
        return go

    base = Caller(p)
    o = core.call(serve(base, d), budget_of(d))
    if not o.ok:
        raise Violation("unexpected-error", f"{what} raised {type(o.exc).__name__}: {o.exc}")
    if base.look():
        raise Violation("caller-data-changed", f"{what}: {base.spoilt}")
    if p.get("hands", "new") != "new":
        ctx.probe("caller keeps what its functions return")
    check_point(what, p, d, o.value)
    unchanged("in an undisturbed run")
    want = core.norm(np.asarray(o.value, dtype=float))
    ctx.write(d["method"], dict(base.count), want)
    ctx.state(d["method"], p["obj"], p["Q"], p["x0"])
    if isinstance(start, np.ndarray) and isinstance(o.value, np.ndarray) and np.shares_memory(start, o.value) and d["limit"] != 0:
        raise Violation("start-changed", f"{what}: the result is the starting array itself")
    for k, ft in enumerate(plan["faults"]):
        if ft["kind"] == "interrupt":
            ctx.want("interrupt")
            x = core.call(serve(Caller(p), d), budget_of(d), at=1 + int(ft["u"] * (o.events if not ft["early"] else min(o.events, 60))))
            if x.hit:
                ctx.fault("interrupt")
                ctx.site(x.hit)
            unchanged("by an interrupted run")
        else:
            who = ft["who"] if base.count[ft["who"]] else "any"
            n = base.count[who]
            if n == 0:
                continue
            at = 1 + int(ft["u"] * (min(n, 8) if ft["early"] else n))
            exc = EXC[ft["exc"]]("from the caller")
            inner = []

            def nested():
                c2 = Caller(p)
                saved = current["c"]
                current["c"] = c2
                inner.append(compute(program, c2, start, dict(d)))
                current["c"] = saved

            dd = dict(d)
            if ft["kind"] in ("nan", "inf", "scribble"):
                dd["limit"] = 6 if d["limit"] is None else min(int(d["limit"]), 6)
            c = Caller(p, at, ft["kind"], exc, who, nested)
            ctx.want(f"callback {ft['kind']}")
            x = core.call(serve(c, dd), 2 * budget_of(dd) + 100_000)
            if c.fired:
                ctx.fault(f"callback {ft['kind']}" + (f":{ft['exc']}" if ft["kind"] == "raise" else ""))
                ctx.site((f"{d['method']}:{who}", min(at, 20)))
            label = f"when call {at} of {who} {ft['kind']}s"
            unchanged(label)
            if c.look():
                raise Violation("caller-data-changed", f"{what}: {label}: {c.spoilt}")
            if c.fired and ft["kind"] == "raise" and (x.ok or x.exc is not exc):
                raise Violation("exception-lost", f"{what}: {label} with {exc!r} the caller got {x}")
            if ft["kind"] == "nested" and c.fired:
                for v in inner + ([x.value] if x.ok else []):
                    if core.norm(np.asarray(v, dtype=float)) != want:
                        raise Violation("retry-differs", f"{what}: {label}: {v}, undisturbed {want}")
                if not x.ok:
                    raise Violation("unexpected-error", f"{what}: {label}: {type(x.exc).__name__}: {x.exc}")
        again = core.call(serve(Caller(p), d), budget_of(d))
        if not again.ok or core.norm(np.asarray(again.value, dtype=float)) != want:
            raise Violation("retry-differs", f"{what}: trying again after fault {k} gives {again}, undisturbed {want}")
        unchanged("by trying again")
    if len(plan["clients"]) > 1:
        together(plan, p, start, unchanged, ctx)


def together(plan, p, start, unchanged, ctx):
    # each client has its own functions but the same start; those of one method share a program too
    sched = core.Scheduler(plan["segs"], plan["gran"], 10_000_000, ctx=ctx)
    owner = {}

    def f(x):
        return owner[sched.cur.i].f(x)

    program = UnconstrainedProgram(f, p["obj"])
    solo, results = [], []
    for c in plan["clients"]:
        call = Caller(p)
        alone = UnconstrainedProgram(call.f, p["obj"])
        o = core.call(lambda: compute(alone, call, start_of(p, plan["form"]), c), budget_of(c))
        solo.append((o, dict(call.count)))
    unchanged("alone")

    def client(i):
        def body(me):
            c = plan["clients"][i]
            at = exc = None
            if "fault" in c and solo[i][1]["any"]:
                at = 1 + int(c["fault"]["u"] * solo[i][1]["any"])
                exc = EXC[c["fault"]["exc"]]("from the caller")
                ctx.want("callback raise")
            owner[i] = Caller(p, at, "raise", exc)
            o = core.guarded(sched, lambda: compute(program, owner[i], start, c))
            results.append((i, o, exc, owner[i].fired))
        return body

    sched.run([client(i) for i in range(len(plan["clients"]))])
    n = sum(x[2] != "exit" for x in sched.switches)
    if n:
        ctx.fault("preemption", n)
    unchanged("by concurrent runs")
    for i, o, exc, fired in results:
        what = f"concurrent client {i} ({plan['clients'][i]})"
        if fired:
            ctx.fault(f"callback raise:{plan['clients'][i]['fault']['exc']}")
            if o.ok or o.exc is not exc:
                raise Violation("exception-lost", f"{what}: expected {exc!r}, got {o}")
            continue
        want = solo[i][0]
        if o.ok != want.ok or (o.ok and core.norm(np.asarray(o.value, dtype=float)) != core.norm(np.asarray(want.value, dtype=float))):
            raise Violation("retry-differs", f"{what}: {o}, alone {want}")
