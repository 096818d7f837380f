"""Fault seams: numerical back end, allocator, display, random sources. Installed before pytimize
is imported so that any import style in the code under test meets them."""
import functools
import random
import sys

import numpy as np

from .core import CODE_PREFIXES, HarnessError, install_locks

LINALG = ["inv", "det", "solve", "pinv", "lstsq", "matrix_rank", "slogdet", "norm"]
NOISY = {"inv", "det", "solve", "pinv"}
ALLOC = ["zeros", "ones", "eye", "empty", "full", "identity", "insert", "append", "vstack", "hstack",
         "concatenate", "delete", "copy", "array", "stack", "column_stack", "zeros_like", "ones_like",
         "where", "negative", "round", "diag"]


class Backend:
    """Behaviour of the numerical back end and allocator during one call.

    noise: amplitude in ulps (0 = none); bias: -1/1 if all errors go the same way; fail: dict family -> (ordinal, exception class)."""

    def __init__(self, noise=0.0, noise_seed=0, fail=None, bias=0):
        self.noise = noise
        self.bias = bias
        self.rng = random.Random(noise_seed)
        self.fail = fail or {}
        self.count = {"linalg": 0, "alloc": 0}
        self.fired = []
        self.perturbed = 0
        self.calls = []

    def call(self, family, name, orig, a, k):
        n = self.count[family] = self.count[family] + 1
        self.calls.append((family, name))
        f = self.fail.get(family)
        if f is not None and n == f[0]:
            self.fired.append((family, name, n))
            raise f[1](f"injected failure of {name}")
        r = orig(*a, **k)
        if self.noise and name in NOISY:
            r = self._perturb(name, r, a)
        return r

    def _perturb(self, name, r, a):
        """Adds an error of `noise` ulps of the result's size: what another BLAS, another
        blocking or another thread count would deliver."""
        self.perturbed += 1
        eps = self.noise * 2.220446049250313e-16
        if isinstance(r, np.ndarray):
            if r.size == 0:
                return r
            scale = float(np.max(np.abs(r)))
            noise = np.array([self.rng.uniform(-1, 1) for _ in range(r.size)]).reshape(r.shape)
            if self.bias:
                return r + np.abs(noise) * r * (self.bias * eps)
            return r + noise * scale * eps
        m = np.asarray(a[0], dtype=float)
        scale = max(abs(float(r)), 1.0 if m.size and np.max(np.abs(m)) > 0 else 0.0)
        return r + self.rng.uniform(-1, 1) * scale * eps


class _Seam:
    active = None


SEAM = _Seam()


def _wrap(family, name, orig):
    @functools.wraps(orig)
    def w(*a, **k):
        s = SEAM.active
        if s is None or not sys._getframe(1).f_code.co_filename.startswith(CODE_PREFIXES):
            return orig(*a, **k)
        return s.call(family, name, orig, a, k)
    return w


class _IndexTrick:
    def __init__(self, name, orig):
        self._n, self._o = name, orig

    def __getitem__(self, key):
        s = SEAM.active
        if s is None or not sys._getframe(1).f_code.co_filename.startswith(CODE_PREFIXES):
            return self._o[key]
        return s.call("alloc", self._n, self._o.__getitem__, (key,), {})

    def __getattr__(self, k):
        return getattr(self._o, k)


_installed = False


def install():
    global _installed
    if _installed:
        return
    if any(m == "pytimize" or m.startswith("pytimize.") for m in sys.modules):
        raise HarnessError("seams must be installed before pytimize is imported")
    for n in LINALG:
        setattr(np.linalg, n, _wrap("linalg", n, getattr(np.linalg, n)))
    for n in ALLOC:
        setattr(np, n, _wrap("alloc", n, getattr(np, n)))
    install_entropy()
    install_locks()
    np.r_ = _IndexTrick("r_", np.r_)
    np.c_ = _IndexTrick("c_", np.c_)
    _installed = True


class backend:
    """with backend(...) as b: the code under test meets this back end."""

    def __init__(self, **kw):
        self.b = Backend(**kw)

    def __enter__(self):
        SEAM.active = self.b
        return self.b

    def __exit__(self, *exc):
        SEAM.active = None
        return False


# --------------------------------------------------------------------------------------------
class SimEntropyError(OSError):
    """The random source failed."""


class _Dealer(random.Random):
    """random.Random whose every draw comes from the stream."""

    def __init__(self, stream):
        super().__init__(0)
        self._s = stream

    def random(self):
        return self._s.unit()

    def getrandbits(self, k):
        return int(self._s.below(1 << k)) if k else 0

    def _randbelow(self, n):
        return self._s.below(n)

    def gauss(self, mu=0.0, sigma=1.0):
        return mu + sigma * (2 * self._s.unit() - 1) * 3

    normalvariate = gauss

    def seed(self, *a, **k):
        pass


class _NumpyDealer:
    """The functions of numpy.random (and of a Generator) over the stream."""

    def __init__(self, stream):
        self._s = stream

    def _fill(self, size, one):
        if size is None:
            return one()
        shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        n = 1
        for k in shape:
            n *= k
        return np.array([one() for _ in range(n)]).reshape(shape)

    def random(self, size=None):
        return self._fill(size, self._s.unit)

    random_sample = sample = ranf = random

    def rand(self, *shape):
        return self.random(shape or None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._fill(size, lambda: low + (high - low) * self._s.unit())

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._fill(size, lambda: loc + scale * (2 * self._s.unit() - 1) * 3)

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def randn(self, *shape):
        return self.normal(size=shape or None)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        return self._fill(size, lambda: int(low) + self._s.below(int(high) - int(low)))

    def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        return self.randint(low, high + (1 if endpoint else 0), size)

    def choice(self, a, size=None, replace=True, p=None):
        pool = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        if size is not None and not replace:
            self.shuffle(pool)
            return np.array(pool[:size])
        return self._fill(size, lambda: pool[self._s.below(len(pool))])

    def shuffle(self, x):
        for i in reversed(range(1, len(x))):
            j = self._s.below(i + 1)
            x[i], x[j] = x[j], x[i]

    def permutation(self, x):
        pool = list(range(x)) if isinstance(x, (int, np.integer)) else list(x)
        self.shuffle(pool)
        return np.array(pool)

    def default_rng(self, seed=None):
        return self

    def seed(self, *a, **k):
        pass


class Entropy:
    """A stream of random values. kind: 'low', 'high', 'mid', 'flip' (extremes by turns), 'mixed', 'fair'."""
    EDGE = [0.0, 1 - 2.0 ** -53, 0.5, 2.0 ** -53, 0.25, 0.75, 0.499999, 0.500001]

    def __init__(self, kind, seed, fail_at=None, exc=SimEntropyError):
        self.kind, self.rng, self.fail_at, self.exc = kind, random.Random(seed), fail_at, exc
        self.n = 0
        self.reseeded = 0       # calls by the code under test that restart the process's random sources
        self.fired = None
        self.py, self.np = _Dealer(self), _NumpyDealer(self)

    def _draw(self):
        self.n += 1
        if self.n == self.fail_at:
            self.fired = self.exc("the random source failed")
            raise self.fired

    def unit(self):
        self._draw()
        k = self.kind
        if k == "mixed":
            return self.rng.choice(self.EDGE)
        return {"low": 0.0, "high": 1 - 2.0 ** -53, "mid": 0.5}.get(k, self.rng.random()) if k != "flip" else (
            0.0 if self.n % 2 else 1 - 2.0 ** -53)

    def below(self, n):
        self._draw()
        k = self.kind
        if k == "mixed":
            return self.rng.choice([0, n - 1, n // 2, self.rng.randrange(n)])
        if k == "flip":
            return 0 if self.n % 2 else n - 1
        return {"low": 0, "high": n - 1, "mid": n // 2}[k] if k in ("low", "high", "mid") else self.rng.randrange(n)


_entropy = {"active": None}
PY_RANDOM = ["random", "uniform", "randint", "randrange", "choice", "choices", "sample", "shuffle", "getrandbits", "gauss",
             "normalvariate", "triangular", "betavariate", "seed"]
NP_RANDOM = ["random", "random_sample", "sample", "ranf", "rand", "uniform", "normal", "standard_normal", "randn", "randint", "choice",
             "shuffle", "permutation", "default_rng", "seed"]


def install_entropy():
    def wrap(mod, which, name):
        orig = getattr(mod, name)

        @functools.wraps(orig)
        def w(*a, **k):
            e = _entropy["active"]
            if e is not None and name == "seed" and sys._getframe(1).f_code.co_filename.startswith(CODE_PREFIXES):
                e.reseeded += 1
            return orig(*a, **k) if e is None else getattr(getattr(e, which), name)(*a, **k)
        setattr(mod, name, w)

    for n in PY_RANDOM:
        wrap(random, "py", n)
    for n in NP_RANDOM:
        wrap(np.random, "np", n)


class entropy:
    def __init__(self, *a, **k):
        self.e = Entropy(*a, **k)

    def __enter__(self):
        _entropy["active"] = self.e
        return self.e

    def __exit__(self, *exc):
        _entropy["active"] = None
        return False


# --------------------------------------------------------------------------------------------
class SimDisplayError(RuntimeError):
    pass


class _Pen:
    """A figure or axes handed out by the stand-in display: any method is one more display call."""

    def __init__(self, d, prefix):
        self.__dict__.update(_d=d, _prefix=prefix)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: self._d.call(self._prefix + name, a, k)

    def __enter__(self):
        return self

    def __exit__(self, *e):
        return False


def _plain(x):
    if hasattr(x, "__iter__") and not isinstance(x, str):
        return [_plain(v) for v in x]
    return float(x) if isinstance(x, (int, float, np.number)) and not isinstance(x, bool) else repr(x)


class Display:
    """Recording stand-in for matplotlib.pyplot's drawing functions."""
    NAMES = ["figure", "plot", "grid", "fill", "show", "subplots", "axis", "xlim", "ylim", "title", "fill_between", "draw", "pause", "savefig",
             "xlabel", "ylabel", "legend", "scatter", "close", "clf", "cla", "gca", "gcf", "axhline", "axvline", "annotate", "text", "tight_layout"]

    DRAWING = {"plot", "grid", "fill", "axis", "xlim", "ylim", "title", "fill_between", "xlabel", "ylabel", "legend", "scatter", "clf", "cla",
               "axhline", "axvline", "annotate", "text", "tight_layout"}

    def __init__(self, fail_at=None, exc=SimDisplayError):
        self.fail_at, self.exc = fail_at, exc
        self.calls = []
        self.n = 0
        self.fired = None
        self.own = False          # whether the current figure is one the call under test has opened
        self.touched = None       # a call that reached a figure of the caller's

    def _follow(self, name, a):
        if name in ("figure", "subplots"):
            self.own = True
        elif name == "close":
            if "all" in a or not (self.own or isinstance(a[0] if a else None, _Pen)):
                self.touched = self.touched or f"close{tuple(v for v in a if isinstance(v, (str, int)))}"
            self.own = False
        elif not self.own and name in self.DRAWING:
            self.touched = self.touched or name

    def call(self, name, a, k):
        self.n += 1
        self._follow(name, a)
        if self.n == self.fail_at:
            self.fired = name
            raise self.exc(f"display failed in {name}")
        self.calls.append((name, [_plain(x) for x in a]))
        if name.endswith("subplots"):
            return _Pen(self, "fig."), _Pen(self, "ax.")
        return [_Pen(self, "artist.")] if name.endswith(("plot", "fill")) else _Pen(self, "fig.")


_display = {"active": None}


def install_display():
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib import pyplot as plt

    def make(name, orig):
        @functools.wraps(orig)
        def w(*a, **k):
            d = _display["active"]
            if d is None:
                return None
            return (d if isinstance(d, Display) else d()).call(name, a, k)
        return w

    for n in Display.NAMES:
        if hasattr(plt, n):
            setattr(plt, n, make(n, getattr(plt, n)))


class display:
    """with display(...) as d, or display(pick=function giving the Display of the caller)."""

    def __init__(self, pick=None, **kw):
        self.d = pick or Display(**kw)

    def __enter__(self):
        _display["active"] = self.d
        return self.d

    def __exit__(self, *exc):
        _display["active"] = None
        return False
