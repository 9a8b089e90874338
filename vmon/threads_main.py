"""Runs in its own process (any of the installations): concurrent calls against sequential ones.

stdin: pickle of {calls, rounds, seed, budget}; stdout: one JSON line.  Standard library only.
"""
import collections
import collections.abc
import dis
import faulthandler
import hashlib
import importlib
import json
import logging
import os
import pickle
import queue
import random
import sys
import threading
import time
import warnings

out = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)
job = pickle.load(sys.stdin.buffer)
sys.path[0] = os.environ.get("VMON_SRC", "/repo/src")
logging.disable(logging.CRITICAL)
rnd = random.Random(job["seed"])
SRC = sys.path[0] + "/pymap3d/"
report = {"violations": [], "rounds": 0, "calls": 0, "yields": 0, "lines": 0, "interleavings": 0, "switches": 0, "kinds": {}}
start = time.time()


def fail(key, what, **more):
    if len([v for v in report["violations"] if v["key"] == key]) < 2 and len(report["violations"]) < 20:
        report["violations"].append({"key": key, "what": what, **more})


try:
    import numpy as np

    # errstate is per thread (context): set the default of the process
    np.seterr(all="ignore")
except ImportError:
    np = None
warnings.simplefilter("ignore")

# ---------------------------------------------------------------- yields between lines of the package
mon = sys.monitoring
TOOL = 4
mon.use_tool_id(TOOL, "vmon")
local = threading.local()
trace = []   # (thread, file, line) where control passed from one thread to another
last = [None]
active = [False]


def on_line(code, line):
    """LINE events (line: a number of the file) and INSTRUCTION events (line: an offset in the code)"""
    if not code.co_filename.startswith(SRC):
        return mon.DISABLE
    if not active[0]:
        return None
    r = getattr(local, "rng", None)
    if r is None:
        cut = getattr(local, "cut", None)
        if cut is not None:
            cut(code, line)
        return None
    report["lines"] += 1
    if last[0] != local.me:
        last[0] = local.me
        trace.append((local.me, code.co_name, line))
    x = r.random()
    if x < local.p:
        report["yields"] += 1
        time.sleep(0 if x < local.p * .7 else 2e-5)
    return None


mon.register_callback(TOOL, mon.events.LINE, on_line)
mon.register_callback(TOOL, mon.events.INSTRUCTION, on_line)
mon.set_events(TOOL, mon.events.LINE)


def grain(instructions):
    """control passes between lines, or between single instructions of the interpreter"""
    mon.set_events(TOOL, mon.events.INSTRUCTION if instructions else mon.events.LINE)


sys.setswitchinterval(1e-5)


def api(path):
    import pymap3d

    parts = path.split(".")
    obj = pymap3d
    if len(parts) > 1:
        obj, parts = importlib.import_module("pymap3d." + parts[0]), parts[1:]
    for p in parts:
        obj = getattr(obj, p)
    return obj


def ell_of(spec):
    if spec is None or spec.get("ell") is None:
        return None
    E = api("ellipsoid.Ellipsoid")
    return E.from_name(spec["name"]) if spec["ell"] == "name" else E(spec["a"], spec["b"])


def one(c, ell="own"):
    path, args, kw, ek = c
    try:
        k = dict(kw)
        for n, s in ek.items():
            k[n] = ell_of(s) if ell == "own" else ell
        return ("ok", freeze(api(path)(*args, **k)))
    except Exception as e:  # noqa: BLE001
        return ("exc", type(e).__name__)


def freeze(v):
    if isinstance(v, (tuple, list)):
        return tuple(freeze(x) for x in v)
    if np is not None and isinstance(v, np.ndarray):
        return (str(v.dtype), v.shape, np.ascontiguousarray(v).tobytes() if v.dtype.kind != "O" else repr(v.tolist()))
    if isinstance(v, float):
        return repr(float(v))
    return repr(v)


def state():
    s = {"warning filters": list(warnings.filters), "cwd": os.getcwd(), "path": list(sys.path), "stdout": id(sys.stdout)}
    if np is not None:
        s["numpy error state"] = dict(np.geterr())
    return s


def round_(calls_of, label, warm):
    """calls_of: one list of (index, call) per thread; warm: results known"""
    n = len(calls_of)
    fine = label != "cold start" and rnd.random() < .3
    grain(fine)
    gate = threading.Barrier(n)
    got = [[] for _ in range(n)]
    p = rnd.choice([.02, .1, .3, .6]) * (.1 if fine else 1)
    seeds = [rnd.random() for _ in range(n)]

    def body(i):
        local.rng, local.me, local.p = random.Random(seeds[i]), i, p
        if np is not None:
            np.seterr(all="ignore")
        gate.wait(30)
        for j, c in calls_of[i]:
            got[i].append((j, c[0], one(c)))
        local.rng = None
    trace.clear()
    before = state()
    active[0] = True
    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(60)
    active[0] = False
    if any(t.is_alive() for t in ts):
        faulthandler.dump_traceback(file=sys.stderr)
        fail("hang", f"{label}: calls do not end when made by {n} threads: {[[c[1][0] for c in q][:5] for q in calls_of]}")
        print(json.dumps(report), file=out, flush=True)
        os._exit(0)
    after = state()
    for k in before:
        if label == "cold start" and k in ("warning filters", "path"):
            continue  # first imports of other packages
        if before[k] != after[k]:
            fail(f"state {k}", f"{label}: after {n} threads called {sorted({c[0] for q in calls_of for _, c in q})[:8]}: {k} was {str(before[k])[:300]}, "
                 f"is {str(after[k])[:300]}")
            if k == "warning filters":
                warnings.filters[:] = before[k]
    report["rounds"] += 1
    report["switches"] += len(trace)
    seen.add(hashlib.blake2b(repr(trace).encode(), digest_size=8).digest())
    report["kinds"][label] = report["kinds"].get(label, 0) + 1
    for i in range(n):
        for j, name, o in got[i]:
            report["calls"] += 1
            if j is not None and warm is not None and o != warm[j]:
                c = next(c for q in calls_of for jj, c in q if jj == j)
                fail(f"{name} result", f"{label}, {n} threads: {name}{str(c[1])[:300]} {c[2]} {c[3]} gives {show(o)}, alone {show(warm[j])}",
                     function=name, args=repr(c[1])[:1000], schedule=trace[:200])
    return got


def show(o):
    def num(v):
        if isinstance(v, tuple) and len(v) == 3 and isinstance(v[2], bytes):
            return np.frombuffer(v[2], v[0])[:4].tolist()
        return [num(x) for x in v] if isinstance(v, tuple) else v
    return str(num(o))[:300]


def variants(c, n):
    """the call with n ellipsoids of about its own shape"""
    res = []
    for _ in range(n):
        ek = {}
        for name, e in c[3].items():
            e = e if e and e.get("a") else {"a": 6378137.0, "b": 6356752.3142}
            s, q = 1 + rnd.uniform(-.02, .02), 1 + rnd.uniform(-1e-3, 1e-3)
            ek[name] = {"ell": "new", "a": e["a"] * s, "b": e["b"] * s * q}
        res.append((c[0], c[1], c[2], ek))
    return res


class Helper:
    """a second thread that makes one complete call while the first is held between two lines"""

    def __init__(self):
        self.go, self.done, self.job, self.res = threading.Semaphore(0), threading.Semaphore(0), None, None
        threading.Thread(target=self.body, daemon=True).start()

    def body(self):
        if np is not None:
            np.seterr(all="ignore")
        while True:
            self.go.acquire()
            self.res = one(self.job)
            self.done.release()


def preempted(a, b, at, helper):
    """call a, held before its at-th line while b is made completely by another thread; None: it has fewer lines"""
    n, hit, passed = [0], [None], []

    def cut(code, line):
        n[0] += 1
        if at is None:
            passed.append(code)
        if n[0] == at:
            local.cut = None
            hit[0] = (code.co_name, line)
            helper.job = b
            helper.go.release()
            hit.append(helper.done.acquire(timeout=.5))  # not: it waits for a lock held here
            local.cut = cut

    local.cut = cut
    active[0] = True
    try:
        ra = one(a)
    finally:
        active[0] = False
        local.cut = None
    if hit[0] is None:
        return ra, None, None, passed
    if not hit[1]:
        report["blocked"] = report.get("blocked", 0) + 1
        if not helper.done.acquire(timeout=60):
            fail("hang", f"{b} does not end when started while {a} was at {hit[0]}")
            print(json.dumps(report), file=out, flush=True)
            os._exit(0)
    return ra, helper.res, hit[0], passed


MUTABLE = (dict, list, set, bytearray, collections.deque, collections.abc.MutableMapping, threading.local, queue.Queue)
STORES = {"STORE_SUBSCR", "DELETE_SUBSCR", "DELETE_ATTR", "STORE_DEREF"}
shared_codes = {}


def shared(code):
    """where calls can meet.  2: code that uses a container global to its module or stores globals; 1: code that stores in an object"""
    r = shared_codes.get(code)
    if r is None:
        mod = code.co_filename[len(SRC):-3].replace("/", ".").removesuffix(".__init__")
        mod = sys.modules.get("pymap3d." + mod if mod != "__init__" else "pymap3d")
        r = 0
        for i in dis.get_instructions(code):
            if i.opname in ("STORE_GLOBAL", "DELETE_GLOBAL"):
                r = 2
            elif i.opname in STORES or i.opname == "STORE_ATTR" and code.co_name != "__init__":
                r = max(r, 1)
            elif i.opname in ("LOAD_GLOBAL", "LOAD_NAME") and not str(i.argval).startswith("__"):
                v = getattr(mod, i.argval, None)
                if isinstance(v, MUTABLE) or hasattr(v, "cache_info") or np is not None and isinstance(v, np.ndarray):
                    r = 2
        shared_codes[code] = r
    return r


def preempt_all(until):
    """every function with a second call made at each of its lines"""
    helper = Helper()
    todo = []
    keeping, with_ell = [], []  # those that pass through code where something outlives the call
    for nm in names:
        one(clear)
        c = calls[rnd.choice(by_fn[nm])]
        if any(shared(code) == 2 for code in set(preempted(c, c, None, helper)[3])):
            keeping.append(nm)
            for j in by_fn[nm]:
                if calls[j][3] and warm[j][0] == "ok" and nm != "ellipsoid.Ellipsoid.from_name":
                    c = variants(calls[j], 1)[0]
                    passed = preempted(c, c, None, helper)[3]
                    if len(passed) < 2000 and any(shared(code) == 2 for code in set(passed)):
                        with_ell.append((nm, j))
                        break
    report["functions through shared state"] = len(keeping)
    while time.time() < until:
        if not todo:
            todo = names + keeping * 2
            rnd.shuffle(todo)
        focus = bool(with_ell) and rnd.random() < .35
        nm, ja = rnd.choice(with_ell) if focus else (todo[-1], rnd.choice(by_fn[todo[-1]]))
        if not focus:
            todo.pop()
        a = calls[ja]
        same = [j for j in by_fn[nm] if str(calls[j][3]) == str(a[3]) and j != ja]
        x = rnd.random()
        if x < .7 and same:
            jb = rnd.choice(same)
        elif x < .9 and a[3]:
            jb = rnd.choice(by_ell[str(a[3])])
        else:
            jb = rnd.choice(order)
        b = calls[jb]
        ra_, rb_, fill = warm[ja], warm[jb], []
        if a[3] and a[0] != "ellipsoid.Ellipsoid.from_name" and (focus or rnd.random() < .3):
            # ellipsoids of their own, after others have been in use
            m = rnd.choice([*range(17), 31, 32, 33, 63, 64, 65, 127, 128, 129])
            a, *fill = variants(a, m + 1)
            if focus:
                b = clear if rnd.random() < .1 else calls[ja] if rnd.random() < .7 else calls[rnd.choice(with_ell)[1]]
            b = variants(b, 1)[0] if b[3] and rnd.random() < .8 and b[0] != "ellipsoid.Ellipsoid.from_name" else b
            ra_, rb_ = one(a), one(b)
            report["kinds"]["held, other ellipsoids in use"] = report["kinds"].get("held, other ellipsoids in use", 0) + 1
        cold_ = bool(fill) or rnd.random() < .3

        def prepare():
            if cold_:
                one(clear)
                for c in fill:
                    one(c)
        fine = rnd.random() < (.8 if focus else .5)
        grain(fine)
        prepare()
        passed = preempted(a, b, None, helper)[3]
        points = points_all = list(range(1, len(passed) + 1))
        most = 120 if len(fill) < 20 else 24
        if focus:
            points = [x for x, code in enumerate(passed, 1) if shared(code) == 2]
            points = points if len(points) <= most else sorted(rnd.sample(points, most))
            report["preemptions in shared state"] = report.get("preemptions in shared state", 0) + len(points)
        elif len(points) > most:
            # first where something that outlives the call is in use, then every function on the way alike
            per, held = {}, ([], [], [])
            for x, code in enumerate(passed, 1):
                per.setdefault(code, []).append(x)
                held[shared(code)].append(x)
            per = list(per.values())
            points = set()
            for some, k in ((held[2], most // 2), (held[1], most // 4)):
                points.update(some if len(some) <= k else rnd.sample(some, k))
            points |= {rnd.choice(rnd.choice(per)) if fine else rnd.choice(points_) for points_ in [points_all] * (most - len(points))}
            points = sorted(points)
        for at in points:
            prepare()
            ra, rb, where, _ = preempted(a, b, at, helper)
            if where is None:
                continue
            report["preemptions"] = report.get("preemptions", 0) + 1
            if fine:
                report["preemptions between instructions"] = report.get("preemptions between instructions", 0) + 1
            places.add((nm, fine, *where))
            report["calls"] += 2
            if ra != ra_:
                fail(f"{nm} result", f"{nm}{str(a[1])[:300]} {a[2]} {a[3]} held at {where} while another thread called {b[0]}{str(b[1])[:200]} gives "
                     f"{show(ra)}, alone {show(ra_)}", function=nm, args=repr(a[1])[:1000], other=repr(b)[:1000])
            if rb != rb_:
                fail(f"{b[0]} result", f"{b[0]}{str(b[1])[:300]} {b[2]} {b[3]} while another thread's {nm} was held at {where} gives "
                     f"{show(rb)}, alone {show(rb_)}", function=b[0], args=repr(b[1])[:1000], other=repr(a)[:1000])


seen = set()
places = set()
calls = job["calls"]
order = list(range(len(calls)))

# cold: nothing of the package has run yet in this process, several threads start together
nt = rnd.choice([2, 3, 4, 8])
cold = [[(j, calls[j]) for j in rnd.sample(order, min(len(order), job["cold"]))] for _ in range(nt)]
if rnd.random() < .5:
    cold = [cold[0][:] for _ in range(nt)]
if rnd.random() < .5:
    import pymap3d  # noqa: F401  # else the first import happens in the threads too
cold_got = round_(cold, "cold start", None)

warm = [one(c) for c in calls]
again = [one(c) for c in calls]
for c, x, y in zip(calls, warm, again):
    if x != y:
        fail("sequential", f"{c[0]}{str(c[1])[:200]}: {show(x)} then {show(y)}")
for q in cold_got:
    for j, name, o in q:
        if o != warm[j]:
            fail(f"{name} cold", f"cold start, {nt} threads: {name}{str(calls[j][1])[:300]} {calls[j][2]} gives {show(o)}, alone {show(warm[j])}",
                 function=name, args=repr(calls[j][1])[:1000])
by_fn = {}
for j, c in enumerate(calls):
    by_fn.setdefault(c[0], []).append(j)
by_ell = {}
for j, c in enumerate(calls):
    if c[3]:
        by_ell.setdefault(str(c[3]), []).append(j)
names = list(by_fn)
k = 0
clear = ("ellipsoid.clear_ellipsoid_caches", [], {}, {})
preempt_all(time.time() + job["budget"] * .5)
report["places"] = len(places)
start = time.time() - job["budget"] * .5
todo = names[:]
rnd.shuffle(todo)
while time.time() - start < job["budget"] and report["rounds"] < job["rounds"]:
    n = rnd.choice([2, 2, 3, 4, 8])
    kind = k % 5
    k += 1
    if kind in (0, 1):
        # the same function with different arguments
        if not todo:
            todo = names[:]
            rnd.shuffle(todo)
        nm = todo.pop()
        pick = by_fn[nm]
        if rnd.random() < .7:  # with one ellipsoid
            ek = str(calls[rnd.choice(pick)][3])
            pick = [j for j in pick if str(calls[j][3]) == ek]
        round_([[(j, calls[j]) for j in rnd.choices(pick, k=4)] for _ in range(n)], "one function", warm)
    elif kind == 2:
        round_([[(j, calls[j]) for j in rnd.choices(order, k=10)] for _ in range(n)], "mixture", warm)
    elif kind == 4:
        # one function with more ellipsoids than any cache may hold
        nm = rnd.choice([x for x in names if x != "ellipsoid.Ellipsoid.from_name" and any(calls[j][3] for j in by_fn[x])])
        j = rnd.choice([j for j in by_fn[nm] if calls[j][3]])
        m = rnd.choice([4, 9, 12, 17, 17, 33, 66, 130])
        some = variants(calls[j], m)
        if rnd.random() < .5:
            one(clear)
        alone = [one(c) for c in some]
        if rnd.random() < .5:
            one(clear)
        lists = [[(i, some[i]) for i in rnd.sample(range(m), min(m, 20))] for _ in range(n)]
        if rnd.random() < .2:
            lists.append([(None, clear)] * 4)
        round_(lists, "many ellipsoids", alone)
    else:
        # caches filled and emptied under the calls
        one(clear)
        ell = rnd.choice(list(by_ell))
        pick = by_ell[ell] if rnd.random() < .6 else order
        lists = [[(j, calls[j]) for j in rnd.choices(pick, k=6)] for _ in range(n)]
        if rnd.random() < .7:
            lists.append([(None, clear)] * 8)
        round_(lists, "caches", warm)
report["interleavings"] = len(seen)
report["python"] = sys.version.split()[0]
report["numpy"] = np is not None
print(json.dumps(report), file=out, flush=True)
os._exit(0)
