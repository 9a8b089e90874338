"""Runs inside a worker process; standard library only."""
import importlib
import logging
import os
import pickle
import signal
import struct
import sys

kind = sys.argv[1]
out = os.fdopen(os.dup(1), "wb")
os.dup2(2, 1)  # anything printed by the code under test must not corrupt the pipe
logging.disable(logging.CRITICAL)
sys.path[0] = os.environ.get("VMON_SRC", "/repo/src")  # not this folder

if kind == "numpyonly":
    class Hide:
        def find_spec(self, name, path=None, target=None):
            if name == "astropy" or name.startswith("astropy."):
                raise ImportError("hidden by vmon: " + name)
            return None
    sys.meta_path.insert(0, Hide())

import warnings
warnings.simplefilter("ignore")
import pymap3d

assert pymap3d.__file__.startswith(sys.path[0]), pymap3d.__file__
if kind == "stdlib":
    assert "numpy" not in sys.modules
if kind != "fresh":
    assert "astropy" not in sys.modules


def api(path):
    parts = path.split(".")
    obj = pymap3d
    if len(parts) > 1:
        obj, parts = importlib.import_module("pymap3d." + parts[0]), parts[1:]
    for p in parts:
        obj = getattr(obj, p)
    return obj


def make_ell(spec):
    if spec is None or spec.get("ell") is None:
        return None
    from pymap3d.ellipsoid import Ellipsoid
    if spec["ell"] == "name":
        return Ellipsoid.from_name(spec["name"])
    return Ellipsoid(spec["a"], spec["b"])


def plain(v):
    if isinstance(v, (tuple, list)):
        return type(v)(plain(x) for x in v)
    if type(v).__module__ == "numpy":
        return v.tolist() if kind != "fresh" else v
    return v


class Hang(Exception):
    pass


def alarm(signum, frame):
    raise Hang("no result after 45 s")


signal.signal(signal.SIGALRM, alarm)


def one(call):
    path, args, kw, ellkw = call
    signal.setitimer(signal.ITIMER_REAL, 45)
    try:
        kws = dict(kw)
        for k, s in ellkw.items():
            kws[k] = make_ell(s)
        return ("ok", plain(api(path)(*args, **kws)))
    except Exception as e:
        return ("exc", "%s: %s" % (type(e).__name__, str(e)[:200]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


inp = sys.stdin.buffer
while True:
    head = inp.read(8)
    if len(head) < 8:
        break
    op, payload = pickle.loads(inp.read(struct.unpack(">Q", head)[0]))
    if op == "run":
        res = [one(c) for c in payload]
    else:
        res = {"python": sys.version, "modules": sorted(m for m in ("numpy", "astropy") if m in sys.modules),
               "names": sorted(n for n in pymap3d.__all__ if callable(getattr(pymap3d, n, None)))}
    data = pickle.dumps(res, protocol=4)
    out.write(struct.pack(">Q", len(data)) + data)
    out.flush()
