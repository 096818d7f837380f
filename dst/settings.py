"""What a process has set up that a library must leave alone: reading it, comparing it, putting it back."""
import atexit
import builtins
import decimal
import faulthandler
import gc
import linecache  # noqa: F401  (imported now, so that nothing below imports it later)
import copyreg
import csv
import locale
import logging
import mimetypes  # noqa: F401
import os
import pickle  # noqa: F401
import random
import resource
import signal
import socket
import sys
import tempfile
import threading
import warnings

import numpy as np

LIMITS = sorted((k, getattr(resource, k)) for k in dir(resource) if k.startswith("RLIMIT_"))
SIGNALS = [s for s in signal.Signals if s not in (signal.SIGKILL, signal.SIGSTOP, signal.SIGALRM)]


def local():
    """Settings that each thread has for itself."""
    c = decimal.getcontext()
    e = np.geterr()
    po = np.get_printoptions()
    return {
        "numpy error handling": tuple(sorted(e.items())),
        "numpy error callback": np.geterrcall(),
        "numpy print options": tuple((k, repr(po[k])) for k in sorted(po)),
        "numpy buffer size": np.getbufsize(),
        "decimal context": (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, tuple(sorted(str(t) for t, on in c.traps.items() if on))),
    }


def shared(randomness=True):
    out = {
        "recursion limit": sys.getrecursionlimit(),
        "thread switch interval": sys.getswitchinterval(),
        "longest integer text": sys.get_int_max_str_digits(),
        "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "hooks": (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook), id(sys.unraisablehook), sys.gettrace(), sys.getprofile(),
                  threading.gettrace(), threading.getprofile()),
        "module search path": tuple(sys.path),
        "warning filters": tuple(map(repr, warnings.filters)),
        "warning display": id(warnings.showwarning),
        "working directory": os.getcwd(),
        "environment": tuple(sorted(os.environ.items())),
        "signal handlers": tuple(repr(signal.getsignal(s)) for s in SIGNALS),
        "timers": (signal.getitimer(signal.ITIMER_VIRTUAL)[1], signal.getitimer(signal.ITIMER_PROF)[1]),
        "garbage collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks)),
        "locale": locale.setlocale(locale.LC_ALL),
        "logging": (logging.root.level, tuple(map(id, logging.root.handlers)), logging.root.manager.disable, logging.raiseExceptions),
        "threads": threading.active_count(),
        "open files": len(os.listdir("/proc/self/fd")),
        "exit handlers": atexit._ncallbacks(),
        "fault handler": faulthandler.is_enabled(),
        "built-in names": tuple((k, id(v)) for k, v in sorted(vars(builtins).items()) if k != "_"),
        "umask": _umask(),
        "resource limits": tuple((k, resource.getrlimit(v)) for k, v in LIMITS),
        "priority": os.getpriority(os.PRIO_PROCESS, 0),
        "processors allowed": tuple(sorted(os.sched_getaffinity(0))),
        "process name and group": (os.getpgrp(), os.getuid(), os.getgid(), os.geteuid(), os.getegid()),
        "stack of new threads": threading.stack_size(),
        "signals blocked": tuple(sorted(signal.pthread_sigmask(signal.SIG_BLOCK, []))),
        "socket time-out": socket.getdefaulttimeout(),
        "bytecode writing": sys.dont_write_bytecode,
        "arguments": tuple(sys.argv),
        "import hooks": (tuple(map(id, sys.meta_path)), tuple(map(id, sys.path_hooks))),
        "temporary directory": tempfile.tempdir,
        "csv field limit": csv.field_size_limit(),
        "pickling": len(copyreg.dispatch_table),
        "asynchronous generators": sys.get_asyncgen_hooks(),
        "coroutine origins": sys.get_coroutine_origin_tracking_depth(),
        "frozen objects": gc.get_freeze_count(),
        "numpy's ufuncs": tuple(id(getattr(np, k)) for k in ("add", "multiply", "maximum", "less", "sqrt")),
        "logger levels": tuple((k, v.level, len(v.handlers), v.disabled) for k, v in sorted(logging.root.manager.loggerDict.items())
                               if isinstance(v, logging.Logger)),
    }
    if "matplotlib" in sys.modules:
        rc = sys.modules["matplotlib"].rcParams
        out["matplotlib settings"] = hash(tuple((k, repr(v)) for k, v in dict.items(rc)))
    if randomness:
        out["random state"] = hash(random.getstate())
        st = np.random.get_state()
        out["numpy random state"] = (st[0], hash(st[1].tobytes()), st[2:])
    return out


def _umask():
    m = os.umask(0o077)
    os.umask(m)
    return m


def diff(a, b):
    return [k for k in a if a[k] != b[k]]


def colour(seed):
    """Settings as some caller may have chosen them; none of these choices makes a sound call fail."""
    rng = random.Random(seed)
    for k in ("divide", "over", "under", "invalid"):
        if rng.random() < 0.5:
            np.seterr(**{k: rng.choice(["ignore", "warn"])})
    if rng.random() < 0.4:
        np.set_printoptions(precision=rng.choice([3, 5, 12]), suppress=rng.random() < 0.5, linewidth=rng.choice([60, 75, 120]))
    if rng.random() < 0.5:
        gc.disable()
    elif rng.random() < 0.5:
        gc.set_threshold(rng.choice([500, 900]), 11, 12)
    if rng.random() < 0.5:
        sys.setrecursionlimit(sys.getrecursionlimit() + rng.choice([200, 5000]))
    if rng.random() < 0.4:
        decimal.getcontext().prec = rng.choice([20, 40])
    if rng.random() < 0.3:
        decimal.getcontext().rounding = rng.choice([decimal.ROUND_UP, decimal.ROUND_HALF_UP])
    if rng.random() < 0.4:
        warnings.simplefilter(rng.choice(["ignore", "always", "once"]), rng.choice([RuntimeWarning, UserWarning, DeprecationWarning]))
    if rng.random() < 0.3:
        sys.setswitchinterval(rng.choice([0.001, 0.02]))
    if rng.random() < 0.3:
        logging.root.setLevel(rng.choice([logging.DEBUG, logging.ERROR]))
    if rng.random() < 0.3:
        os.environ["DST_CALLER"] = "own"
    if rng.random() < 0.3:
        os.umask(0o027)
    if rng.random() < 0.3:
        sys.set_int_max_str_digits(rng.choice([5000, 10000]))
    if rng.random() < 0.3 and threading.current_thread() is threading.main_thread():
        signal.signal(signal.SIGUSR1, signal.SIG_IGN)
    if rng.random() < 0.4 and "matplotlib" in sys.modules:
        dict.update(sys.modules["matplotlib"].rcParams, {"axes.grid": True, "lines.linewidth": rng.choice([1.0, 2.5]), "interactive": False})


class Keeper:
    """Remembers the settings and puts them back, so that one leak does not colour what follows."""

    def __init__(self):
        self.err, self.errcall, self.po, self.buf = np.geterr(), np.geterrcall(), np.get_printoptions(), np.getbufsize()
        self.dec = decimal.getcontext().copy()
        self.misc = (sys.getrecursionlimit(), sys.getswitchinterval(), sys.get_int_max_str_digits(), sys.stdout, sys.stderr, sys.stdin,
                     sys.excepthook, sys.displayhook, list(sys.path), list(warnings.filters), warnings.showwarning, os.getcwd(), dict(os.environ),
                     gc.isenabled(), gc.get_threshold(), logging.root.level, list(logging.root.handlers), logging.root.manager.disable)
        self.handlers = {s: signal.getsignal(s) for s in SIGNALS}
        self.umask = _umask()
        self.locale = locale.setlocale(locale.LC_ALL)
        self.limits = {v: resource.getrlimit(v) for _, v in LIMITS}
        self.stack, self.mask, self.timeout = threading.stack_size(), signal.pthread_sigmask(signal.SIG_BLOCK, []), socket.getdefaulttimeout()
        self.small = (sys.dont_write_bytecode, tempfile.tempdir, csv.field_size_limit(), sys.get_asyncgen_hooks(), list(sys.argv))
        self.loggers = {k: v.level for k, v in logging.root.manager.loggerDict.items() if isinstance(v, logging.Logger)}
        self.random, self.np_random = random.getstate(), np.random.get_state()
        self.rc = dict(dict.items(sys.modules["matplotlib"].rcParams)) if "matplotlib" in sys.modules else None

    def restore(self):
        np.seterr(**self.err)
        np.seterrcall(self.errcall)
        np.set_printoptions(**{k: v for k, v in self.po.items() if k != "override_repr"})
        np.setbufsize(self.buf)
        decimal.setcontext(self.dec.copy())
        m = self.misc
        sys.setrecursionlimit(m[0])
        sys.setswitchinterval(m[1])
        sys.set_int_max_str_digits(m[2])
        sys.stdout, sys.stderr, sys.stdin, sys.excepthook, sys.displayhook = m[3:8]
        sys.path[:] = m[8]
        warnings.filters[:] = m[9]
        warnings.showwarning = m[10]
        os.chdir(m[11])
        if dict(os.environ) != m[12]:
            os.environ.clear()
            os.environ.update(m[12])
        (gc.enable if m[13] else gc.disable)()
        gc.set_threshold(*m[14])
        logging.root.setLevel(m[15])
        logging.root.handlers[:] = m[16]
        logging.disable(m[17])
        if threading.current_thread() is threading.main_thread():
            for s, h in self.handlers.items():
                if h is not None and signal.getsignal(s) is not h:
                    signal.signal(s, h)
        os.umask(self.umask)
        locale.setlocale(locale.LC_ALL, self.locale)
        for v, was in self.limits.items():
            if resource.getrlimit(v) != was:
                resource.setrlimit(v, was)
        threading.stack_size(self.stack)
        signal.pthread_sigmask(signal.SIG_SETMASK, self.mask)
        socket.setdefaulttimeout(self.timeout)
        sys.dont_write_bytecode, tempfile.tempdir = self.small[:2]
        csv.field_size_limit(self.small[2])
        sys.set_asyncgen_hooks(*self.small[3])
        sys.argv[:] = self.small[4]
        for k, level in self.loggers.items():
            logging.getLogger(k).setLevel(level)
        random.setstate(self.random)
        np.random.set_state(self.np_random)
        if self.rc is not None:
            dict.update(sys.modules["matplotlib"].rcParams, self.rc)
