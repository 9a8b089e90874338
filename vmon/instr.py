"""Instrumentation of the real package.

``load`` imports pymap3d from /repo's working tree and replaces, at every module-level
binding inside the package, each public function by a monitored one, so calls of the
workload (depth 0) as well as calls between public functions (depth > 0) are events.
Only public names are touched: how the package is organised inside does not matter.
"""

from __future__ import annotations

import functools
import importlib
import os
import pkgutil
import signal
import sys
import threading
import types
from collections import Counter

# VMON_SRC: another working tree, for development only (planted bugs)
REPO_SRC = os.environ.get("VMON_SRC", "/repo/src")

_tl = threading.local()
_nested = Counter()
_monitors = []  # objects with before(name, args, kwargs) / after(name, token, args, kwargs, outcome)
_originals = {}


class MissingAPI(Exception):
    pass


class Hang(Exception):
    """a call that does not come back"""


LIMIT = 45.0  # seconds for one user call; the longest ordinary one takes about two


def _alarm(signum, frame):
    raise Hang(f"no result after {LIMIT:.0f} s")


def _guard(on):
    try:
        signal.setitimer(signal.ITIMER_REAL, LIMIT if on else 0)
    except ValueError:
        pass  # not the main thread


def load(instrument=True):
    if REPO_SRC not in sys.path:
        sys.path.insert(0, REPO_SRC)
    import logging

    logging.disable(logging.CRITICAL)
    import pymap3d

    if not pymap3d.__file__.startswith(REPO_SRC):
        raise RuntimeError(f"pymap3d comes from {pymap3d.__file__}")
    for m in pkgutil.iter_modules(pymap3d.__path__, "pymap3d."):
        if not m.name.endswith((".__main__", ".tests", "._dummy")):
            importlib.import_module(m.name)
    if instrument:
        if threading.current_thread() is threading.main_thread():
            signal.signal(signal.SIGALRM, _alarm)
        _install()
    return pymap3d


def _public_functions():
    out = {}
    for name, mod in list(sys.modules.items()):
        if name == "pymap3d" or name.startswith("pymap3d."):
            if ".tests" in name or name.endswith(("mathfun", "_typing", "_dummy")):
                continue
            for attr, obj in vars(mod).items():
                if (isinstance(obj, types.FunctionType) and not attr.startswith("_")
                        and getattr(obj, "__module__", "").startswith("pymap3d")
                        and not getattr(obj, "__module__", "").endswith(("mathfun", "earth_orientation"))):
                    out[obj] = f"{obj.__module__.split('.')[-1]}.{obj.__name__}"
    return out


def _install():
    funcs = _public_functions()
    wrapped = {f: _wrap(f, label) for f, label in funcs.items()}
    _originals.update({w: f for f, w in wrapped.items()})
    for name, mod in list(sys.modules.items()):
        if name == "pymap3d" or name.startswith("pymap3d."):
            if ".tests" in name:
                continue
            for attr, obj in list(vars(mod).items()):
                try:
                    w = wrapped.get(obj)
                except TypeError:
                    continue
                if w is not None:
                    setattr(mod, attr, w)


def _wrap(f, label):
    @functools.wraps(f)
    def monitored(*args, **kwargs):
        depth = getattr(_tl, "depth", 0)
        if depth or not _monitors:
            if depth:
                _nested[label] += 1
            _tl.depth = depth + 1
            if not depth:
                _guard(True)
            try:
                return f(*args, **kwargs)
            finally:
                if not depth:
                    _guard(False)
                _tl.depth = depth
        _tl.depth = 1
        _guard(True)
        tokens = [m.before(label, args, kwargs) for m in _monitors]
        try:
            res = f(*args, **kwargs)
            out = ("ok", res)
        except BaseException as e:
            out = ("exc", e)
            raise
        finally:
            _tl.depth = 0
            _guard(False)
            for m, t in zip(_monitors, tokens):
                m.after(label, t, args, kwargs, out)
        return res

    return monitored


def add_monitor(m):
    _monitors.append(m)


def remove_monitor(m):
    _monitors.remove(m)


def nested_counts():
    return _nested


@functools.lru_cache(maxsize=None)
def api(path):
    """'ecef.geodetic2ecef' or 'geodetic2ecef' (package level) -> the object users get."""
    obj = sys.modules.get("pymap3d")
    parts = path.split(".")
    if len(parts) > 1:
        mod = sys.modules.get("pymap3d." + parts[0])
        if mod is None:
            try:
                mod = importlib.import_module("pymap3d." + parts[0])
            except ImportError:
                raise MissingAPI(path)
        obj, parts = mod, parts[1:]
    for p in parts:
        try:
            obj = getattr(obj, p)
        except AttributeError:
            raise MissingAPI(path)
    return obj


def call(path, *args, **kwargs):
    return api(path)(*args, **kwargs)


def make_ell(spec):
    if spec is None or spec.get("ell") is None:
        return None
    E = api("ellipsoid.Ellipsoid")
    if spec["ell"] == "name":
        return E.from_name(spec["name"])
    return E(spec["a"], spec["b"])
