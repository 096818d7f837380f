"""Simulator core: seeded decisions, event seam, thread scheduler, fault seams.

Everything that decides an execution comes from the plan (a JSON value derived from one integer);
nothing here draws randomness or reads a clock.
"""
import collections
import dis
import hashlib
import math
import os
import random
import sys
import threading
import traceback

REPO = os.path.realpath(os.environ.get("PYTIMIZE_REPO", "/repo"))
CODE_PREFIXES = (REPO + "/pytimize/", REPO + "/docs/")
TESTS = "/tests/"
mon = sys.monitoring
TOOL = 3


class Violation(Exception):
    """The property is broken; `cls` names the kind of breakage (kept stable while minimising)."""

    def __init__(self, cls, msg):
        super().__init__(f"[{cls}] {msg}")
        self.cls, self.msg = cls, msg


class HarnessError(Exception):
    pass


INJECTED = "injected"


class Skip(Exception):
    """The generated case does not meet the property's precondition."""


class SimInterrupt(KeyboardInterrupt):
    """An interrupt injected by the simulator."""


class SimAsyncError(Exception):
    """An asynchronous exception (e.g. a signal handler's timeout) injected by the simulator."""


class BudgetExceeded(BaseException):
    """More simulated steps than any correct execution needs."""


def in_repo(filename):
    return filename.startswith(CODE_PREFIXES)


# --------------------------------------------------------------------------------------------
# Event seam: every LINE or INSTRUCTION executed in /repo code calls `handler(code, pos)`.
_leaving = {}


def leaving(code, pos):
    """Whether the event about to be answered sits on the way out of a `with` block, before its exit method is
    entered. Python code cannot guard that instant, so no interrupt is placed there."""
    where = _leaving.get(code)
    if where is None:
        where = _leaving[code] = set()
        ins = list(dis.get_instructions(code))
        for i, x in enumerate(ins):
            if x.opname == "PUSH_EXC_INFO" and i + 1 < len(ins) and ins[i + 1].opname == "WITH_EXCEPT_START":
                where |= {x.offset, ins[i + 1].offset}
            if x.opname == "CALL" and x.arg == 2 and i >= 3 and all(y.opname == "LOAD_CONST" and y.argval is None for y in ins[i - 3:i]):
                where |= {y.offset for y in ins[i - 3:i + 1]}
    if not where:
        return False
    f = sys._getframe(1)
    while f is not None and f.f_code is not code:
        f = f.f_back
    return f is not None and f.f_lasti in where


_undelivered = collections.Counter()
_report = sys.unraisablehook


def _unraisable(u):
    """An injected failure placed in the clean-up of an object being released (the end of an abandoned generator, say)
    cannot reach any caller: the interpreter drops it. It then counts as not injected."""
    if u.exc_value is not None and u.exc_value.args == (INJECTED,):
        _undelivered[threading.get_ident()] += 1
    else:
        _report(u)


sys.unraisablehook = _unraisable


def undelivered():
    return _undelivered[threading.get_ident()]


class Monitor:
    def __init__(self):
        self.handler = None
        self.mode = 0
        self.total = 0
        mon.use_tool_id(TOOL, "dst")
        mon.register_callback(TOOL, mon.events.LINE, self._event)
        mon.register_callback(TOOL, mon.events.INSTRUCTION, self._event)

    def _event(self, code, pos):
        if not code.co_filename.startswith(CODE_PREFIXES):
            return mon.DISABLE
        h = self.handler
        if h is not None:
            self.total += 1
            h(code, pos)

    def on(self, gran, handler):
        mode = mon.events.INSTRUCTION if gran == "instr" else mon.events.LINE
        if mode != self.mode:
            mon.set_events(TOOL, mode)
            self.mode = mode
        self.handler = handler

    def off(self):
        self.handler = None


MON = Monitor()


class Outcome:
    __slots__ = ("ok", "value", "exc", "events", "hit")

    def __init__(self, ok, value=None, exc=None, events=0, hit=None):
        self.ok, self.value, self.exc, self.events, self.hit = ok, value, exc, events, hit

    def __repr__(self):
        return f"ok({self.value!r})" if self.ok else f"raise({type(self.exc).__name__}: {self.exc})"


def call(fn, budget=4_000_000, at=None, exc=SimInterrupt, gran="line", record=None):
    """Runs fn() alone under the event seam. `at`: raise exc() at that event. `record`: list that
    receives (code name, pos) of every event."""
    state = [0, None]
    lost = undelivered()

    def handler(code, pos):
        n = state[0] = state[0] + 1
        if record is not None:
            record.append((code.co_qualname, pos))
        if at is not None and n >= at and state[1] is None and not leaving(code, pos):
            state[1] = (code.co_qualname, pos)
            raise exc(INJECTED)
        if n > budget:
            raise BudgetExceeded(f"{code.co_qualname}:{pos}")

    prev = MON.handler
    MON.on(gran, handler)
    try:
        value = fn()
        MON.handler = prev
        return Outcome(True, value, None, state[0], state[1] if undelivered() == lost else None)
    except BudgetExceeded as e:
        raise Violation("no-progress", f"call did not finish within {budget} steps (at {e})") from None
    except (Violation, HarnessError, Skip):
        raise
    except BaseException as e:
        MON.handler = prev
        if type(e).__name__ == "Wall":
            raise
        if isinstance(e, KeyboardInterrupt) and not isinstance(e, SimInterrupt):
            raise
        return Outcome(False, None, e, state[0], state[1] if undelivered() == lost else None)
    finally:
        MON.handler = prev


def pick_event(trace, u, v):
    """Chooses an event ordinal (1-based): a code site by u, then one of its occurrences by v."""
    if not trace:
        return None
    sites = collections.OrderedDict()
    for i, site in enumerate(trace):
        sites.setdefault(site, []).append(i + 1)
    keys = list(sites)
    occ = sites[keys[min(int(u * len(keys)), len(keys) - 1)]]
    return occ[min(int(v * len(occ)), len(occ) - 1)]


# --------------------------------------------------------------------------------------------
class SimLock:
    """What the code under test gets from threading.Lock() and RLock(): waiting is a decision of the scheduler,
    and waiting for a lock nobody will release is a violation instead of a hang."""

    def __init__(self, again=False):
        self._again, self._owner, self._depth = again, None, 0

    def acquire(self, blocking=True, timeout=-1):
        s = SCHED[0]
        me = s.cur if s is not None else SimLock
        if self._owner is me and self._again:
            self._depth += 1
            return True
        while self._owner is not None:
            if not blocking or timeout >= 0:
                return False
            if s is None or not s.block(self):
                raise Violation("no-progress", "a lock is waited for that nobody will release")
        self._owner, self._depth = me, 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._depth -= 1
        if self._depth == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


SCHED = [None]    # the scheduler whose clients are running


def install_locks():
    def make(orig, again):
        def factory(*a, **k):
            f = sys._getframe(1)
            while f is not None and f.f_code.co_filename == threading.__file__:
                f = f.f_back
            if f is not None and in_repo(f.f_code.co_filename):
                return SimLock(again)
            return orig(*a, **k)
        return factory

    threading.Lock = make(threading.Lock, False)
    threading.RLock = make(threading.RLock, True)


class Client:
    __slots__ = ("i", "fn", "lock", "done", "error", "arm_at", "arm_exc", "count", "hit", "thread", "waits", "lost", "ident")

    def __init__(self, i, fn):
        self.i, self.fn = i, fn
        self.lock = threading.Lock()
        self.lock.acquire()
        self.done = False
        self.waits = None
        self.error = None
        self.arm_at = None
        self.arm_exc = None
        self.count = 0
        self.hit = None
        self.ident = None


class Scheduler:
    """Runs client functions on real threads, exactly one at a time. Control changes hands only
    at events, as told by `segs`: a list of [events to run, which runnable client next]."""

    def __init__(self, segs, gran="line", budget=6_000_000, ctx=None):
        self.segs = list(segs)
        self.gran, self.budget, self.ctx = gran, budget, ctx
        self.pos = 0
        self.n = 0
        self.left = 0
        self.cur = None
        self.abort = None
        self.switches = []
        self.main = threading.Lock()
        self.seq = 0

    def stamp(self):
        self.seq += 1
        return self.seq

    def _next_seg(self):
        if self.pos < len(self.segs):
            left, pick = self.segs[self.pos]
            self.pos += 1
            self.left = max(1, int(left))
            return pick
        self.left = -1  # run to completion
        return 0

    def _handler(self, code, pos):
        me = self.cur
        if me.ident != threading.get_ident():
            return      # a thread that has finished drops what it held, a suspended generator for instance
        self.n += 1
        if self.abort is not None or self.n > self.budget:
            if self.abort is None:
                self.abort = f"{code.co_qualname}:{pos}"
            raise BudgetExceeded(self.abort)
        me.count += 1
        if me.arm_at is not None and me.count >= me.arm_at and not leaving(code, pos):
            me.hit = (code.co_qualname, pos)
            me.arm_at = None
            raise me.arm_exc(INJECTED)
        if self.left > 0:
            self.left -= 1
            if self.left == 0:
                self._switch(code, pos)

    def _switch(self, code, pos):
        me = self.cur
        pick = self._next_seg()
        self._hand_over(self._runnable(), pick, code.co_qualname, pos)

    def _runnable(self):
        return [c for c in self.clients if not c.done and (c.waits is None or not c.waits.locked())]

    def _hand_over(self, alive, pick, name, pos):
        me = self.cur
        nxt = alive[pick % len(alive)]
        if nxt is me:
            return
        self.switches.append((me.i, nxt.i, name, pos))
        self.cur = nxt
        nxt.lock.release()
        me.lock.acquire()

    def block(self, lock):
        """The running client waits for `lock`; False if nobody is left to release it."""
        me = self.cur
        me.waits = lock
        alive = self._runnable()
        if alive and self.abort is None:
            pick = self._next_seg() if self.left >= 0 else 0
            self._hand_over(alive, pick, "lock", 0)
            me.waits = None
            return True
        me.waits = None
        self.abort = self.abort or "a lock nobody will release"
        return False

    def yield_point(self, label="op"):
        """Explicit switch opportunity between operations of a client."""
        if self.left > 0:
            self.left -= 1
            if self.left == 0:
                self._switch(_Label, label)

    def arm(self, at, exc=SimInterrupt):
        me = self.cur
        me.count, me.hit, me.arm_at, me.arm_exc, me.lost = 0, None, at, exc, undelivered()

    def disarm(self):
        me = self.cur
        me.arm_at = None
        return me.hit if undelivered() == me.lost else None

    def _body(self, c):
        c.lock.acquire()
        c.ident = threading.get_ident()
        try:
            c.fn(c)
        except BaseException as e:
            c.error = e
        c.done = True
        left = [x for x in self.clients if not x.done]
        if not left:
            self.main.release()
            return
        alive = self._runnable()
        if not alive:      # everyone else waits for a lock the finished client kept
            self.abort = self.abort or "a lock nobody will release"
            alive = left
        if self.left >= 0:
            pick = self._next_seg()
        else:
            pick = 0
        nxt = alive[pick % len(alive)]
        self.switches.append((c.i, nxt.i, "exit", 0))
        self.cur = nxt
        nxt.lock.release()

    def run(self, fns, wall=120):
        self.clients = [Client(i, f) for i, f in enumerate(fns)]
        self.main.acquire()
        for c in self.clients:
            c.thread = threading.Thread(target=self._body, args=(c,), daemon=True)
            c.thread.start()
        pick = self._next_seg()
        self.cur = self.clients[pick % len(self.clients)]
        MON.on(self.gran, self._handler)
        SCHED[0] = self
        self.cur.lock.release()
        ok = self.main.acquire(timeout=wall)
        SCHED[0] = None
        MON.off()
        if not ok:
            raise HarnessError("simulated threads made no progress within the wall limit")
        for c in self.clients:
            c.thread.join(10)
        if self.ctx is not None:
            self.ctx.note_schedule(self)
        if self.abort is not None:
            raise Violation("no-progress", f"clients did not finish within {self.budget} steps (at {self.abort})")
        for c in self.clients:
            if isinstance(c.error, (Violation, HarnessError, Skip)):
                raise c.error
        for c in self.clients:
            if c.error is not None:
                raise c.error
        return self


class _Label:
    co_qualname = "between-operations"


def guarded(sched, fn, at=None, exc=SimInterrupt):
    """One operation of a client inside a scheduled run, optionally interrupted at its `at`-th event."""
    sched.arm(at, exc)
    try:
        v = fn()
        hit = sched.disarm()
        return Outcome(True, v, None, 0, hit)
    except (BudgetExceeded, Violation, HarnessError, Skip):
        raise
    except BaseException as e:
        hit = sched.disarm()
        return Outcome(False, None, e, 0, hit)


# --------------------------------------------------------------------------------------------
class Ctx:
    """Per-process accumulation of what runs covered; per-run log for determinism digests."""

    def __init__(self):
        self.faults = collections.Counter()
        self.configured = collections.Counter()
        self.probes = collections.Counter()
        self.schedules = set()
        self.sites = set()
        self.states = set()
        self.switches = 0
        self.log = []
        self.nontrivial = False

    def start(self):
        self.log = []
        self.nontrivial = False
        self._ev0 = MON.total

    def fault(self, kind, n=1):
        self.faults[kind] += n
        self.nontrivial = True

    def want(self, kind, n=1):
        self.configured[kind] += n

    def probe(self, name, n=1):
        self.probes[name] += n

    def site(self, hit):
        if hit is not None:
            self.sites.add(f"{hit[0]}:{hit[1]}")

    def state(self, *key):
        self.states.add(digest(key)[:12])

    def note_schedule(self, sched):
        inside = [s for s in sched.switches if s[2] not in ("exit",)]
        self.switches += len(inside)
        if inside:
            self.nontrivial = True
            self.schedules.add(digest(inside)[:12])
        for s in inside:
            self.sites.add(f"{s[2]}:{s[3]}")
        self.log.append(("schedule", sched.switches, sched.n))

    def write(self, *entry):
        self.log.append(entry)

    def digest(self):
        return digest(self.log)


def digest(x):
    return hashlib.sha256(repr(norm(x)).encode()).hexdigest()


def quantise(f):
    """About 8 significant digits, with cell borders at awkward places so that values such as 1/256
    never sit on one."""
    if f == 0 or abs(f) == float("inf"):
        return 0.0 if f == 0 else f
    step = 1e-7
    while abs(f) > 7777.7777 * (step / 1e-7):
        step *= 10
    return math.floor(f / step + 0.3183098861) * step


def norm(v):
    """Canonical, comparison-friendly form of a result (floats rounded: the last digits of BLAS
    results may depend on memory alignment, which is not part of any property)."""
    import numpy as np
    if v is None or isinstance(v, (bool, np.bool_)):
        return None if v is None else bool(v)
    if isinstance(v, (int, np.integer)):
        return quantise(float(v)) if abs(int(v)) < 10 ** 15 else int(v)   # 5 and 5.0 are the same answer
    if isinstance(v, (float, np.floating)):
        f = float(v)
        if f != f:
            return "nan"
        return quantise(f)
    if isinstance(v, str):
        return str(v)
    if isinstance(v, np.ndarray):
        return ("array", tuple(v.shape), tuple(norm(x) for x in v.ravel().tolist()))
    if isinstance(v, tuple):
        return ("t",) + tuple(norm(x) for x in v)
    if isinstance(v, list):
        return ["l"] + [norm(x) for x in v]
    if isinstance(v, dict):
        return ("d",) + tuple(sorted(((norm(k), norm(x)) for k, x in v.items()), key=repr))
    if isinstance(v, (set, frozenset)):
        return ("s",) + tuple(sorted((norm(x) for x in v), key=repr))
    if isinstance(v, BaseException):
        return ("exc", type(v).__name__)
    return type(v).__name__


def reference(fn, budget=4_000_000):
    """An undisturbed run used as the expectation. Should it not end, the case is outside the property."""
    try:
        return call(fn, budget)
    except Violation as v:
        if v.cls == "no-progress":
            raise Skip("reference run too long") from None
        raise


def must(what, fn):
    """A call the property says succeeds; an exception from the code under test is a violation."""
    try:
        return fn()
    except (Violation, HarnessError, BudgetExceeded, Skip):
        raise
    except Exception as e:
        raise Violation("unexpected-error", f"{what} raised {type(e).__name__}: {e}") from e


def raised_in_repo(e):
    """Whether the innermost frame of interest of e's traceback is code under test."""
    tb = traceback.extract_tb(e.__traceback__)
    for fr in reversed(tb):
        if in_repo(fr.filename):
            return True
        if "/verif/" in fr.filename or "/dst/" in fr.filename:
            return False
    return False


def rng_for(*key):
    h = hashlib.sha256(repr(key).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def gen_segs(rng, nclients, big=False):
    """A schedule: swarm over preemption density."""
    if nclients > 1 and rng.random() < 0.25:
        # one client part-way, then the whole of another
        a, b = rng.sample(range(nclients), 2)
        return [[int(10 ** rng.uniform(0, 3.9 if big or rng.random() < 0.3 else 3)), a], [1 << 30, b]]
    style = rng.random()
    if style < 0.15:
        k, lo, hi = rng.randint(1, 3), 0.0, 3.6      # few preemptions anywhere (PCT-like)
    elif style < 0.5:
        k, lo, hi = rng.randint(2, 12), 0.0, 3.3
    elif style < 0.8:
        k, lo, hi = rng.randint(8, 60), 0.0, 2.3
    else:
        k, lo, hi = rng.randint(40, 200), 0.0, 1.2   # very fine grained
    if big:
        hi += 0.7
    return [[int(10 ** rng.uniform(lo, hi)), rng.randrange(nclients * 4)] for _ in range(k)]
