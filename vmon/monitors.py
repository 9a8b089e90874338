"""Online monitors: what a conversion must leave alone."""

from __future__ import annotations

import decimal
import gc
import locale
import logging
import os
import random
import signal
import socket
import sys
import threading
import time
import warnings

import numpy as np


def copy_arg(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, (list, tuple)):
        return type(v)(copy_arg(x) for x in v)
    if isinstance(v, dict):
        return {k: copy_arg(x) for k, x in v.items()}
    if hasattr(v, "semimajor_axis"):
        return ell_state(v)
    return v


def ell_state(v):
    return tuple(sorted((k, repr(x)) for k, x in vars(v).items())) if hasattr(v, "__dict__") else repr(v)


def identical(a, b):
    """the same outcome bit for bit (NaN = NaN, -0.0 != 0.0)"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(identical(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(identical(a[k], b[k]) for k in a)
    if isinstance(a, (np.ndarray, np.generic, float)) and isinstance(b, (np.ndarray, np.generic, float)):
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape or x.dtype != y.dtype:
            return False
        if x.dtype.kind == "f":
            nan = np.isnan(x)
            return bool(np.array_equal(nan, np.isnan(y)) and np.array_equal(x[~nan], y[~nan])
                        and np.array_equal(np.signbit(x[~nan]), np.signbit(y[~nan])))
        return bool(np.array_equal(x, y))
    if hasattr(a, "semimajor_axis"):
        a = ell_state(a)
    if hasattr(b, "semimajor_axis"):
        b = ell_state(b)
    try:
        return bool(a == b)
    except Exception:  # noqa: BLE001
        return repr(a) == repr(b)


def open_files():
    return len(os.listdir("/proc/self/fd"))


def astropy_settings():
    """what other users of Astropy in the process would notice"""
    out = []
    for name in ("astropy.utils.iers", "astropy.utils.iers.iers", "astropy.coordinates", "astropy.utils.data", "astropy.table", "astropy.time"):
        conf = getattr(sys.modules.get(name), "conf", None)
        if conf is not None:
            out += [(name, k, repr(v())) for k, v in conf.items()]
    return out


def package_loggers():
    return [(n, lg.level, lg.disabled, lg.propagate, len(lg.handlers)) for n, lg in list(logging.Logger.manager.loggerDict.items())
            if n.startswith("pymap3d") and isinstance(lg, logging.Logger)]


class GlobalState:
    """process-wide state a conversion has no business with"""

    NAMES = ("numpy error state", "numpy error callback", "numpy print options", "warning filters", "numpy random state", "random state", "working directory",
             "environment", "sys.path", "recursion limit", "switch interval", "locale", "decimal context", "logging level", "logging disabled", "root log handlers",
             "stdout", "stderr", "stdin", "excepthook", "displayhook", "SIGINT handler", "socket timeout", "threads", "trace function", "open files", "warn function",
             "time zone", "garbage collection", "NumPy buffer size")
    SLOW = ("Astropy settings", "loggers of the package")


    @staticmethod
    def take():
        st = np.random.get_state()
        return (np.geterr(), np.geterrcall(), tuple(sorted((k, str(v)) for k, v in np.get_printoptions().items())), tuple(warnings.filters),
                (hash(st[1].tobytes()), st[2:]), hash(random.getstate()), os.getcwd(), dict(os.environ), tuple(sys.path),
                sys.getrecursionlimit(), sys.getswitchinterval(), locale.setlocale(locale.LC_ALL), repr(decimal.getcontext()), logging.getLogger().level,
                logging.root.manager.disable, tuple(logging.getLogger().handlers), id(sys.stdout), id(sys.stderr), id(sys.stdin), id(sys.excepthook),
                id(sys.displayhook), signal.getsignal(signal.SIGINT), socket.getdefaulttimeout(), threading.active_count(), sys.gettrace(),
                open_files(), id(warnings.showwarning), (time.tzname, time.timezone), (gc.isenabled(), gc.get_threshold()), np.getbufsize())

    @staticmethod
    def slow():
        """looked at now and then, against the last look"""
        return astropy_settings(), package_loggers()

    @classmethod
    def diff(cls, a, b):
        return [(n, str(x)[:200], str(y)[:200]) for n, x, y in zip(cls.NAMES if len(a) > 2 else cls.SLOW, a, b) if x != y]


class Purity:
    """monitor for instr: arguments and global state before and after every user call"""

    def __init__(self, ctx, ells):
        self.ctx, self.ells = ctx, ells  # shared ellipsoid objects that must never change
        self.events = self.arrays = self.raised = 0
        self.ell0 = [ell_state(e) for e in ells]
        self.slow0, self.names = GlobalState.slow(), []

    def before(self, name, args, kwargs):
        return copy_arg(list(args)), copy_arg(kwargs), GlobalState.take(), len(sys.modules)

    def after(self, name, token, args, kwargs, out):
        a, k, g, modules = token
        self.events += 1
        self.arrays += sum(isinstance(v, np.ndarray) for v in args)
        self.raised += out[0] == "exc"
        now = copy_arg(list(args)), copy_arg(kwargs)
        if not identical(list(a), list(now[0])) or not identical(k, now[1]):
            which = [i for i, (x, y) in enumerate(zip(a, now[0])) if not identical(x, y)] + [q for q in k if not identical(k[q], now[1].get(q))]
            self.ctx.violation(f"{name} changed its argument {which}: {str([a[i] if isinstance(i, int) else k[i] for i in which])[:400]} became "
                               f"{str([now[0][i] if isinstance(i, int) else now[1].get(i) for i in which])[:400]} (outcome {out[0]})",
                               {"function": name, "args": str(a)[:2000], "kwargs": str(k)[:500]}, key=f"{name} arguments")
        d = GlobalState.diff(g, GlobalState.take())
        if len(sys.modules) > modules:  # a module imported late may bring filters with it
            d = [x for x in d if x[0] not in ("warning filters", "open files")]
        if d:
            self.ctx.violation(f"{name} changed global state: {d} (outcome {out[0]})", {"function": name, "args": str(a)[:2000], "kwargs": str(k)[:500]},
                               key=f"{name} {d[0][0]}")
        self.names.append(name)
        if len(self.names) == 100:
            now = GlobalState.slow()
            d = GlobalState.diff(self.slow0, now)
            if d:
                self.ctx.violation(f"changed by one of {sorted(set(self.names))}: {d}", {"function": name, "calls": self.names}, key=f"slow {d[0][0]}")
            self.slow0, self.names = now, []
        e = [ell_state(x) for x in self.ells]
        if e != self.ell0:
            self.ctx.violation(f"{name} changed a shared ellipsoid: {[(x, y) for x, y in zip(self.ell0, e) if x != y][:1]}",
                               {"function": name, "args": str(a)[:2000]}, key=f"{name} ellipsoid")
            self.ell0 = e
