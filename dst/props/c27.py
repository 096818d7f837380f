"""C27: library calls leave process-wide settings as they found them, whatever cuts them short."""
import random

import numpy as np

from .. import core, lp, settings, zoo
from ..core import Violation

LISTS = ("ops", "clients", "segs", "pairs", "at")
INTS = ("segs",)
# what a thread may not do while others run (redirecting the process's output, dealing scripted randomness) is left out of threads
SHARED_OK = ["lp"] * 6 + ["edit", "graph", "graph", "gedit", "form", "form", "unc", "dset", "parse", "compare"]


def generate(rng, tier):
    ops = []
    for _ in range(rng.randint(1, 4)):
        case = zoo.gen(rng)
        ops.append({"case": case, "fault": zoo.gen_fault(rng, case)})
    clients = []
    for _ in range(rng.choice([0, 2, 2, 3])):
        c = {"ops": [zoo.gen(rng, SHARED_OK) for _ in range(rng.choice([1, 2]))]}
        if rng.random() < 0.2:
            c["interrupt"] = rng.randrange(10 ** 6) / 10 ** 6
        clients.append(c)
    if len(clients) > 1 and rng.random() < 0.5:      # the same operation in several threads
        clients[1]["ops"][0] = clients[0]["ops"][0]
    pairs = []
    for _ in range(rng.choice([0, 1, 1])):
        a = zoo.gen(rng, SHARED_OK)
        pairs.append({"ops": [a, a if rng.random() < 0.6 else zoo.gen(rng, SHARED_OK)], "at": [rng.randrange(10 ** 6) / 10 ** 6 for _ in range(3)]})
    # two calls that overlap without one being inside the other
    for _ in range(rng.choice([0, 1, 1])):
        a = zoo.gen(rng, [rng.choice(sorted(set(SHARED_OK)))])
        pairs.append({"ops": [a, a if rng.random() < 0.7 else zoo.gen(rng, [a["family"]])],
                      "at": [[rng.randrange(10 ** 6) / 10 ** 6 for _ in range(2)] for _ in range(3)]})
    return {"colour": rng.randrange(1, 1 << 30) if rng.random() < 0.6 else 0, "ops": ops, "clients": clients, "pairs": pairs, "seed": rng.randrange(1 << 30), "gran": "instr" if rng.random() < 0.3 else "line",
            "segs": core.gen_segs(rng, max(len(clients), 1))}


_warm = False


def warm():
    """First calls import and set up things that are not settings of the caller's."""
    global _warm
    if _warm:
        return
    _warm = True
    for fam in sorted(set(zoo.FAMILIES)):
        for i in range(6):
            x = zoo.Case(zoo.gen(core.rng_for("warm", fam, i), [fam]))
            core.call(x.run)
    settings.shared(), settings.local()


def read():
    return {**settings.local(), **settings.shared()}


def excuse(case, keeper):
    """Random operations may use up randomness."""
    if case["family"] == "rand":
        random.setstate(keeper.random)
        np.random.set_state(keeper.np_random)


def shown(base, now, keys):
    return "; ".join(f"{k}: {str(base[k])[:150]} -> {str(now[k])[:150]}" for k in keys)[:900]


def execute(plan, ctx):
    warm()
    random.seed(plan["seed"])
    np.random.seed(plan["seed"] % (1 << 32))
    keeper = settings.Keeper()
    try:
        if plan.get("colour"):
            settings.colour(plan["colour"])
            ctx.probe("settings of the caller's choice")
        inner(plan, ctx)
    finally:
        keeper.restore()


def inner(plan, ctx):
    base = read()
    for k, e in enumerate(plan["ops"]):
        case, fault = e["case"], e["fault"]
        keeper = settings.Keeper()
        leaks(ctx, base, k, case, fault, keeper)
        if fault["kind"] == "int":
            keeper.restore()
    if len(plan["clients"]) > 1:
        together(plan, ctx, base, [c["ops"] for c in plan["clients"]], [c.get("interrupt") for c in plan["clients"]], plan["segs"], plan["gran"])
    for pair in plan["pairs"]:
        n = core.reference(zoo.Case(pair["ops"][0]).run, 100_000).events
        for u in pair["at"]:
            if isinstance(u, list):
                if len(u) < 2:
                    continue
                k = core.reference(zoo.Case(pair["ops"][1]).run, 100_000).events
                segs = [[1 + int(u[0] * n), 0], [1 + int(u[1] * k), 1], [1 << 30, 0], [1 << 30, 1]]
            else:
                segs = [[1 + int(u * n), 0], [1 << 30, 1]]
            together(plan, ctx, base, [[c] for c in pair["ops"]], [None, None], segs, "line")


def leaks(ctx, base, k, case, fault, keeper):
    if fault["kind"] != "int":
        x, want, o, fired = zoo.disturbed(ctx, case, fault)
        excuse(case, keeper)
        if x.reseeded:
            raise Violation("setting-changed", f"op {k} {x.name()}: the process's random sources were reseeded")
        if x.touched:
            raise Violation("setting-changed", f"op {k} {x.name()}: {x.touched} reaches a figure the caller has open")
        now = read()
        bad = settings.diff(base, now)
        what = f"op {k} {x.name()} under {fault['kind']} at {o.hit or fired}, which {'returned' if o.ok else 'raised ' + type(o.exc).__name__}"
        ctx.write(k, x.name(), fault["kind"], fired)
        ctx.state(x.name(), fault["kind"], o.hit, o.ok)
        if bad:
            raise Violation("setting-changed", f"{what}: {shown(base, now, bad)}")
        return
    # An interrupt may arrive in the instant between a change and the entry into the block that undoes it; what may not
    # happen is that it stays changed for interrupts at three events in a row.
    ctx.want("int")
    trace = []
    core.MON.off()
    dry = zoo.Case(case)
    try:
        core.call(dry.run, 1_000_000, record=trace)
    except Violation:
        raise core.Skip("reference run too long") from None
    excuse(case, keeper)
    now = read()
    bad = settings.diff(base, now)
    if bad:
        raise Violation("setting-changed", f"op {k} {dry.name()} undisturbed: {shown(base, now, bad)}")
    at = core.pick_event(trace, fault["u"], fault["v"])
    if at is None:
        return
    row = 0
    # of a run of three events around the chosen one
    for j in range(max(1, at - 2), at + 3):
        x = zoo.Case(case)
        o = core.call(x.run, 1_000_000, at=j, exc=lp.EXC[fault["exc"]])
        if not o.hit:
            break
        if j == at:
            ctx.fault(lp.ARRIVAL[fault["exc"]])
            ctx.site(o.hit)
            ctx.write(k, x.name(), at, o.hit)
            ctx.state(x.name(), "int", o.hit, o.ok)
        excuse(case, keeper)
        now = read()
        bad = settings.diff(base, now)
        if bad:
            keeper.restore()
            row += 1
            if row == 3:
                raise Violation("setting-changed", f"op {k} {x.name()} interrupted at {o.hit} (and at the two events before): {shown(base, now, bad)}")
        else:
            row = 0
            if j >= at:
                break


def together(plan, ctx, base, lists, interrupts, segs, gran):
    solo = [[core.reference(zoo.Case(c).run, 200_000).events for c in ops] for ops in lists]
    total = sum(sum(r) for r in solo)
    sched = core.Scheduler(segs, gran, 30 * total + 200_000, ctx=ctx)
    changed = []

    def client(i):
        def body(me):
            mine = settings.local()
            for k, c in enumerate(lists[i]):
                x = zoo.Case(c)
                at = None
                if k == 0 and interrupts[i] is not None:
                    at = 1 + int(interrupts[i] * solo[i][k])
                    ctx.want("interrupt")
                o = core.guarded(sched, x.run, at)
                if o.hit:
                    ctx.fault("interrupt")
                    ctx.site(o.hit)
                now = settings.local()
                bad = settings.diff(mine, now)
                if bad and not o.hit:
                    changed.append((i, k, x.name(), shown(mine, now, bad)))
                sched.yield_point()
        return body

    local0 = settings.local()
    sched.run([client(i) for i in range(len(lists))])
    n = sum(s[2] != "exit" for s in sched.switches)
    if n:
        ctx.fault("preemption", n)
    if any(c.hit for c in sched.clients):
        return
    now = read()
    bad = settings.diff(base, now)
    names = [[zoo.Case(c).name() for c in ops] for ops in lists]
    if bad:
        raise Violation("setting-changed", f"after concurrent {names}: {shown(base, now, bad)}")
    if local0 != settings.local():
        raise Violation("setting-changed", f"after concurrent {names}")
    # a setting of the process (not of one thread) may be seen changed by others meanwhile; a thread's own may not
    if changed and not process_wide():
        raise Violation("setting-changed", f"concurrent client {changed[0][0]} {changed[0][2]}: {changed[0][3]}")


_wide = None


def process_wide():
    """Whether this numpy shares error handling or print options between threads."""
    global _wide
    if _wide is None:
        import threading
        out = []
        with np.errstate(divide="raise"), np.printoptions(precision=3):
            t = threading.Thread(target=lambda: out.append((np.geterr()["divide"], np.get_printoptions()["precision"])))
            t.start()
            t.join()
        _wide = out[0][0] == "raise" or out[0][1] == 3
    return _wide
