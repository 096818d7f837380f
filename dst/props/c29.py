"""C29: a failure during any library call reaches the caller; it never becomes an answer."""
from .. import core, zoo
from ..core import Violation

LISTS = ("ops",)
INTS = ()


def generate(rng, tier):
    ops = []
    for _ in range(rng.randint(2, 5)):
        case = zoo.gen(rng)
        f = zoo.gen_fault(rng, case)
        while f["kind"] == "none":
            f = zoo.gen_fault(rng, case)
        ops.append({"case": case, "fault": f, "twice": rng.randrange(10 ** 6) / 10 ** 6 if rng.random() < 0.5 else None})
    return {"ops": ops}


def chain(e):
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        yield e
        e = e.__cause__ or e.__context__


def judge(ctx, case, fault, k):
    x, want, o, fired = zoo.disturbed(ctx, case, fault)
    what = f"op {k} {x.name()} under {fault['kind']} at {o.hit or 'its own call'}"
    got = x.answer(o)
    ctx.write(k, x.name(), fault["kind"], fired, got)
    ctx.state(x.name(), fault["kind"], o.hit, o.ok)
    if not fired:
        if got != want:
            raise Violation("undisturbed-answer-differs", f"{what}: {got}, an equal undisturbed call {want}")
        return
    cls = zoo.injected(fault)
    if not o.ok:
        if any(isinstance(e, cls) for e in chain(o.exc)):
            return
        if not issubclass(cls, Exception):
            raise Violation("interrupt-lost", f"{what}: {cls.__name__} was raised inside, the caller got {type(o.exc).__name__}: {o.exc}")
        if got == want:
            return      # the call overcame the failure and went on to raise what it raises anyway
        raise Violation("failure-disguised", f"{what}: {cls.__name__} was raised inside, the caller got {type(o.exc).__name__}: {o.exc}")
    if not issubclass(cls, Exception):
        raise Violation("interrupt-lost", f"{what}: {cls.__name__} was raised inside and the call returned {got}")
    if got != want:
        raise Violation("failure-became-answer", f"{what}: {cls.__name__} was raised inside and the call returned {got}; undisturbed {want}")


def execute(plan, ctx):
    for k, e in enumerate(plan["ops"]):
        judge(ctx, e["case"], e["fault"], k)
        if e["twice"] is not None:
            judge(ctx, e["case"], dict(e["fault"], u=e["twice"]), k)
