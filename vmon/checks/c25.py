"""C25 Calls from several threads give what the same calls give alone."""
import json
import os
import pickle
import subprocess
import warnings
from concurrent.futures import ThreadPoolExecutor

import numpy as np

from .. import workers
from .c06 import pool

MAIN = os.path.join(os.path.dirname(workers.__file__), "threads_main.py")


def plain(v):
    if isinstance(v, np.ndarray):
        return v.astype(object).tolist() if v.dtype.kind == "M" else v.tolist()
    return v


def related(rng, calls):
    """every call also with other arguments of the same kind and the same ellipsoid and options: what two of them could share"""
    out = []
    for path, args, kw, ek in calls:
        out.append((path, args, kw, ek))
        if not ek or path == "ellipsoid.Ellipsoid.from_name":
            continue
        for _ in range(3):
            other = []
            s = float(rng.uniform(.6, 1.05))
            for v in args:
                ok = isinstance(v, float) or isinstance(v, np.ndarray) and v.dtype.kind == "f"
                other.append(v * s if ok else v)
            out.append((path, other, kw, ek))
    return out


def launch(job, py):
    env = dict(os.environ)
    env.pop("PYTHONPATH", None)
    p = subprocess.run([py, "-u", MAIN], input=pickle.dumps(job, protocol=4), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
                       timeout=job["budget"] + 300)
    if p.returncode or not p.stdout.strip():
        return {"died": f"exit {p.returncode}: {p.stderr.decode(errors='replace')[-800:]}"}
    return json.loads(p.stdout.decode().strip().splitlines()[-1])


def run(ctx):
    warnings.simplefilter("ignore")
    ctx.rule = ("2-8 threads in real processes of both installations, yields injected between the lines of the package (sys.monitoring) with seeded "
                "probabilities: one function in all threads, mixtures, caches emptied under the calls, first use of everything at once; a call held before each of its lines, and before single instructions of the interpreter, in turn while another thread makes a complete call; up to 130 ellipsoids in use; results bit for "
                "bit those of the same calls alone; process state before and after; distinct interleavings = distinct orders of control transfer, and distinct (function, line held)")
    ctx.assumptions = ["CPython with its global lock, switching at line boundaries of the package and at 10 microsecond intervals"]
    rng = ctx.rng
    jobs = []
    with np.errstate(all="ignore"):
        for r in range(ctx.n(8, 16)):
            calls = related(rng, pool(ctx, rng, 170))
            # quick calls, so that interleavings are many
            calls = [c for c in calls if c[0] != "karney.geodesic_line"]
            std = r % 2 == 0
            if std:
                calls = [(p, [float(np.ravel(v)[0]) if isinstance(v, np.ndarray) and v.dtype.kind == "f" and not p.endswith(("area", "mean", "meanm")) else plain(v)
                               for v in a], k, e) for p, a, k, e in calls if not p.endswith("meanm")]
            jobs.append((workers.PY["stdlib" if std else "fresh"],
                         {"calls": calls, "seed": int(rng.integers(0, 2**31)), "rounds": ctx.n(10**6, 10**6), "budget": ctx.n(100, 300),
                          "cold": 40}))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: launch(j[1], j[0]), jobs))
    for (py, job), r in zip(jobs, res):
        mode = "stdlib" if "stdlib" in py else "full"
        if "died" in r:
            ctx.count("threads", mode)
            ctx.violation(f"process with threads [{mode}] ended: {r['died']}", {"seed": job["seed"]}, key="died")
            continue
        ctx.count("concurrent calls", mode, r["calls"])
        ctx.distinct_n += r["interleavings"] + r.get("places", 0)
        for k in ("rounds", "yields", "lines", "switches", "interleavings"):
            ctx.stats[f"{k} [{mode}]"] += r[k]
        for k in ("preemptions", "preemptions between instructions", "preemptions in shared state", "places", "blocked", "functions through shared state"):
            ctx.stats[f"{k} [{mode}]"] += r.get(k, 0)
        for k, v in r["kinds"].items():
            ctx.stats[f"rounds of kind '{k}'"] += v
        for v in r["violations"]:
            ctx.violation(f"[{mode}] {v['what']}", {**v, "thread seed": job["seed"], "mode": mode}, key=v["key"])
        if len(ctx.samples) < 4:
            ctx.samples.append({"mode": mode, **{k: r[k] for k in ("rounds", "calls", "yields", "lines", "interleavings", "switches")}})
    ctx.nontrivial_rule = "distinct = different recorded interleavings (order of thread, function, line at every transfer of control)"
