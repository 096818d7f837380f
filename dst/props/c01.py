"""C01: queries never alter the program or the caller's arguments, even when cut short."""
from .. import core, lp
from ..core import Violation

LISTS = ("ops",)
INTS = ()


def generate(rng, tier):
    spec, extra = lp.gen_program(rng)
    qs = lp.gen_ops(rng, spec, extra, rng.randint(1, 4))
    probes = lp.gen_ops(rng, spec, extra, len(qs))
    return {"spec": spec, "ops": [{"q": q, "fault": lp.gen_fault(rng), "probe": pr} for q, pr in zip(qs, probes)]}


def execute(plan, ctx):
    spec = plan["spec"]
    args = lp.build_args(spec)
    args0 = lp.freeze(args)
    p = lp.build(spec, args)
    base = lp.snapshot(p)
    store, twins = {}, {}

    def check(what):
        d = lp.diff(base, lp.snapshot(p))
        if d:
            raise Violation("program-changed", f"{what}: {'; '.join(d)[:600]}")
        if lp.freeze(args) != args0:
            raise Violation("caller-data-changed", f"{what}: arrays or lists given to the constructor changed")

    for k, op in enumerate(plan["ops"]):
        q = op["q"]
        query = lp.Query(q, store)
        frozen = query.args()
        log = list(p.steps)
        dry_p = lp.build(spec)
        dry_q = lp.Query(q)
        twin, o = lp.faulted(ctx, op["fault"], lambda: query.run(p), lambda: dry_q.run(dry_p))
        twin = lp.outcome(twin)
        what = f"op {k} {q['op']} ended with {lp.outcome(o)[:2] if not o.ok else 'a result'} under {op['fault']['kind']} at {o.hit}"
        check(what)
        if query.args() != frozen:
            raise Violation("arguments-changed", f"{what}: {frozen} -> {query.args()}")
        if p.steps[:len(log)] != log:
            raise Violation("log-changed", f"{what}: earlier steps are gone")
        ctx.write(k, q["op"], lp.outcome(o))
        ctx.state(q["op"], spec["cls"], op["fault"]["kind"], o.hit, o.ok)
        # the same call again, and another one, answer as on an untouched program
        for name, qq, want in (("retry", q, twin), ("probe", op["probe"], None)):
            if want is None:
                key = repr(qq)
                if key not in twins:
                    twins[key] = lp.outcome(core.reference(lambda: lp.Query(qq).run(lp.build(spec))))
                want = twins[key]
            again = lp.Query(qq, store)
            frozen = again.args()
            got = lp.outcome(core.call(lambda: again.run(p)))
            if got != want:
                raise Violation("later-answer-differs", f"after {what}, {name} {qq['op']}: {got} instead of {want}")
            check(f"{name} {qq['op']} after {what}")
            if again.args() != frozen:
                raise Violation("arguments-changed", f"{name} {qq['op']}")
