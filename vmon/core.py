"""Check context: what was executed, what the monitors saw, what they object to.

A check drives the real pymap3d functions through ``Ctx.observe`` (or ``Ctx.call``);
every execution is an event handed to a *judge*: an oracle that gets the arguments
and the observed outcome and returns error and tolerance per element.
"""

from __future__ import annotations

import hashlib
import json
import os
import sys
import time
import traceback
from collections import Counter, defaultdict

import numpy as np

from . import instr
from .workers import Worker, WorkerDied

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LD = np.longdouble


class Ell:
    """Specification of an ellipsoid that can be sent to any process."""

    def __init__(self, name=None, a=None, b=None, none=False):
        self.name, self.none = name, none
        if name is not None or none:
            e = instr.api("ellipsoid.Ellipsoid").from_name(name or "wgs84")
            a, b = e.semimajor_axis, e.semiminor_axis
        self.a, self.b = float(a), float(b)

    # the oracles' own constants, in extended precision, from a and b alone
    @property
    def la(self):
        return LD(self.a)

    @property
    def lb(self):
        return LD(self.b)

    @property
    def f(self):
        return (self.la - self.lb) / self.la

    @property
    def e2(self):
        return (self.la - self.lb) * (self.la + self.lb) / self.la**2

    @property
    def n(self):
        return (self.la - self.lb) / (self.la + self.lb)

    def spec(self):
        if self.none:
            return {"ell": None}
        if self.name is not None:
            return {"ell": "name", "name": self.name}
        return {"ell": "ab", "a": self.a, "b": self.b}

    def obj(self):
        return instr.make_ell(self.spec())

    def __repr__(self):
        if self.none:
            return "None(WGS84)"
        return self.name if self.name else f"Ellipsoid({self.a!r}, {self.b!r})"


def flatten(res):
    """Result of a call as a flat list of leaves (matrices come out row by row)."""
    if isinstance(res, (tuple, list)):
        out = []
        for r in res:
            out += flatten(r)
        return out
    return [res]


# the cheapest checks can afford larger quick runs (numbers of ellipsoids and of points both grow)
SCALE = {"C01": 2, "C03": 2, "C04": 2, "C12": 2, "C13": 2, "C14": 2, "C17": 2, "C18": 3, "C19": 2, "C20": 2, "C22": 2, "C23": 2, "C24": 3, "C28": 2, "C30": 3}


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = np.random.default_rng([seed, int(pid[1:]), 7])
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.distinct_n = 0
        self.per_fn = Counter()
        self.per_mode = Counter()
        self.worst = {}
        self.samples = []
        self.violations = []
        self.findings = Counter()
        self.stats = defaultdict(int)
        self.assumptions = []
        self.rule = ""
        self._workers = {}
        self.nontrivial_rule = (
            "distinct = different (function, configuration, argument values); "
            "non-trivial = the oracle produced a finite expectation for at least one output"
        )
        self.known = load_known(pid)
        self.scale = SCALE.get(pid, 1)

    # --- sizes
    def n(self, quick, thorough):
        return min(quick * self.scale, max(quick, thorough)) if self.tier == "quick" else thorough

    def elapsed(self):
        return time.time() - self.t0

    # --- worker processes: same calls in another configuration
    def worker(self, kind):
        w = self._workers.get(kind)
        if w is None:
            w = self._workers[kind] = Worker(kind)
        return w

    # --- events
    def count(self, fn, mode, n=1, keys=None):
        self.evaluations += n
        self.per_fn[fn] += n
        self.per_mode[mode] += n
        if keys is not None:
            self.distinct.update(keys)

    def violation(self, what, replay=None, key=None):
        """Report; at most a few per distinct key are written out."""
        key = key or what
        if sum(1 for v in self.violations if v["key"] == key) >= 2 or len(self.violations) >= 12:
            self.stats["further_violations"] += 1
            return
        self.violations.append({"key": key, "what": what, "replay": replay or {}})

    def finding(self, fid, what):
        """A defect listed in known_findings.jsonl was observed again."""
        if fid not in self.known:
            self.violation(what, {"finding": fid}, key=fid)
        else:
            self.findings[fid] += 1

    def ok(self, cond, what, replay=None, key=None, fn=None, mode="relation"):
        self.count(fn or "relation", mode)
        if not bool(cond):
            self.violation(what, replay, key)
            return False
        return True

    # --- the workhorse
    def observe(self, fn, args, kw, judge, ell=None, modes=None, scalars=None, note="",
                corner=None, as_ell_kw="ell"):
        """Execute ``fn`` on N argument tuples in several configurations; judge every one.

        args: list of arrays of common length N (float64).  kw: plain keyword arguments.
        judge(args, outs) -> list of (label, err[N], tol[N]); args longdouble, outs float64.
        """
        args = [np.atleast_1d(np.asarray(a, dtype=float)) for a in args]
        args = [np.ascontiguousarray(a) for a in np.broadcast_arrays(*args)]
        N = args[0].size
        if N == 0:
            return
        kw = dict(kw)
        modes = modes or ("array", "array2d", "scalar", "stdlib")
        k = scalars if scalars is not None else self.n(60, 600)
        k = min(k, N)
        sub = np.sort(self.rng.choice(N, k, replace=False))
        if corner:
            sub = np.unique(np.r_[np.arange(min(corner, N)), sub])
        short = fn
        ellkw = {} if ell is None else {as_ell_kw: ell.spec()}
        for mode in modes:
            if mode in ("array", "array2d"):
                idx = np.arange(N)
            else:
                idx = sub
            a = [v[idx] for v in args]
            rep = {"function": fn, "mode": mode, "kwargs": kw, "ell": ell.spec() if ell else "not passed",
                   "note": note}
            try:
                outs = self._execute(fn, mode, a, kw, ellkw)
            except CallFailed as e:
                i = e.index
                self.count(fn, mode, 1)
                rep["args"] = [float(v[i]) for v in a] if i is not None else [v[:50].tolist() for v in a]
                rep["observed"] = e.text
                self.violation(f"{fn} [{mode}] {note} ell={ell} {kw}: raised {e.text} for in-domain arguments "
                               f"{rep['args'] if i is not None else ''}", rep, key=f"{fn}:{mode}:raise")
                continue
            la = [v.astype(LD) for v in a]
            with np.errstate(all="ignore"):
                verdicts = judge(la, outs)
            self._tally(fn, mode, a, outs, verdicts, rep, note, ell, kw)
        return

    def _tally(self, fn, mode, a, outs, verdicts, rep, note, ell, kw):
        n = a[0].size
        self.evaluations += n
        self.per_fn[fn] += n
        self.per_mode[mode] += n
        informative = np.zeros(n, bool)
        for label, err, tol in verdicts:
            err = np.broadcast_to(np.asarray(err, dtype=LD), (n,))
            tol = np.broadcast_to(np.asarray(tol, dtype=LD), (n,))
            judged = np.isfinite(tol)
            informative |= judged
            with np.errstate(all="ignore"):
                bad = judged & ~(err <= tol)
                ratio = np.where(judged & (tol > 0), err / np.where(tol > 0, tol, 1), 0)
            key = f"{fn}.{label}"
            if judged.any():
                w = float(np.nanmax(np.where(judged, ratio, 0)))
                self.worst[key] = max(self.worst.get(key, 0.0), w)
                self.stats["comparisons"] += int(judged.sum())
            if bad.any():
                i = int(np.flatnonzero(bad)[0])
                r = dict(rep)
                r["args"] = [float(v[i]) for v in a]
                r["observed"] = [float(o[i]) for o in outs]
                r["label"], r["error"], r["tolerance"] = label, float(err[i]), float(tol[i])
                r["failing"] = int(bad.sum())
                r["of"] = n
                self.violation(
                    f"{fn} [{mode}] {note} ell={ell} {kw}: {label}: error {float(err[i]):.6g} > {float(tol[i]):.3g} "
                    f"at args {r['args']} -> {r['observed']} ({int(bad.sum())} of {n})",
                    r, key=f"{key}:{mode}")
        # distinct non-trivial cases: exact argument bits
        h = np.zeros(n, dtype=np.uint64)
        for v in a:
            h = (h * np.uint64(1000003)) ^ np.ascontiguousarray(v).view(np.uint64)
        salt = int(hashlib.blake2b(f"{fn}|{ell}|{sorted(kw.items())}".encode(), digest_size=8).hexdigest(), 16)
        h = (h ^ np.uint64(salt))[informative]
        if len(self.distinct) < 3_000_000:
            self.distinct.update(h.tolist())
        if len(self.samples) < 6 and informative.any() and not any(s.get("function") == fn for s in self.samples):
            i = int(np.flatnonzero(informative)[-1])
            self.samples.append({"function": fn, "mode": mode, "args": [float(v[i]) for v in a],
                                 "kwargs": {k: str(v) for k, v in kw.items()}, "ell": repr(ell),
                                 "observed": [float(o[i]) for o in outs],
                                 "checked": [lab for lab, _, _ in verdicts]})

    def _execute(self, fn, mode, a, kw, ellkw):
        n = a[0].size
        if mode in ("array", "array2d"):
            shape = (n,)
            if mode == "array2d":
                # a non-contiguous, Fortran-ordered two-dimensional view
                m = n - n % 2
                if m == 0:
                    shape = (n, 1)
                    b = [v.reshape(n, 1).copy(order="F") for v in a]
                else:
                    shape = (m // 2, 2)
                    b = [np.asfortranarray(v[:m].reshape(m // 2, 2)) for v in a]
            else:
                m = n
                b = [v.copy() for v in a]
            kws = dict(kw)
            for k_, s in ellkw.items():
                kws[k_] = instr.make_ell(s)
            try:
                with np.errstate(all="ignore"):
                    res = instr.call(fn, *b, **kws)
            except Exception as e:  # noqa: BLE001 - an escaping exception is the observation
                raise CallFailed(None, f"{type(e).__name__}: {str(e)[:200]}")
            outs = []
            for leaf in flatten(res):
                v = np.asarray(leaf, dtype=float)
                if v.shape != shape:
                    if v.ndim == 0:
                        v = np.full(shape, float(v))  # constant entry of a matrix
                    else:
                        raise CallFailed(None, f"result shape {v.shape} for arguments of shape {shape}")
                v = v.reshape(-1)
                if m != n and mode == "array2d" and v.size != n:
                    v = np.r_[v, np.full(n - v.size, np.nan)]
                outs.append(v)
            if mode == "array2d" and outs and shape[0] * shape[-1] != n:
                # odd trailing element was not part of this execution: repeat through 1-D
                with np.errstate(all="ignore"):
                    res = instr.call(fn, *[v[-1:].copy() for v in a], **kws)
                for o, leaf in zip(outs, flatten(res)):
                    o[-1] = np.asarray(leaf, dtype=float).reshape(-1)[0]
            return outs
        if mode in ("scalar", "npscalar", "int"):
            kws = dict(kw)
            for k_, s in ellkw.items():
                kws[k_] = instr.make_ell(s)
            conv = {"scalar": float, "npscalar": np.float64, "int": int}[mode]
            rows = []
            f = instr.api(fn)
            with np.errstate(all="ignore"):
                for i in range(n):
                    try:
                        rows.append([float(x) for x in flatten(f(*[conv(v[i]) for v in a], **kws))])
                    except Exception as e:  # noqa: BLE001
                        raise CallFailed(i, f"{type(e).__name__}: {str(e)[:200]}")
        else:
            try:
                outc = self.worker(mode).run([(fn, [float(v[i]) for v in a], kw, ellkw) for i in range(n)])
            except WorkerDied as e:
                raise CallFailed(None, f"worker process ended: {e}")
            rows = []
            for i, (st, val) in enumerate(outc):
                if st != "ok":
                    raise CallFailed(i, val)
                try:
                    rows.append([float(x) for x in flatten(val)])
                except (TypeError, ValueError) as e:
                    raise CallFailed(i, f"result is not numeric: {val!r} {e}")
        width = {len(r) for r in rows}
        if len(width) != 1:
            raise CallFailed(None, f"results of different length {width}")
        return [np.array(c) for c in zip(*rows)]

    # --- end of run
    def finish(self):
        for w in self._workers.values():
            w.close()
        reached = self.evaluations > 0
        cov = {
            "evaluations": int(self.evaluations),
            "distinct_nontrivial": int(len(self.distinct) + self.distinct_n),
            "rule": (self.rule + " " if self.rule else "") + self.nontrivial_rule,
            "samples": self.samples[:6] or ["none"],
            "per_function": dict(self.per_fn.most_common()),
            "per_configuration": dict(self.per_mode),
            "nested_events": dict(instr.nested_counts().most_common(40)),
            "worst_error_over_tolerance": {k: float(f"{v:.3g}") for k, v in
                                           sorted(self.worst.items(), key=lambda kv: -kv[1])[:60]},
            "counters": {k: int(v) for k, v in self.stats.items()},
            "known_findings_observed": dict(self.findings),
        }
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": cov, "assumptions": self.assumptions, "wall_s": round(self.elapsed(), 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for fid, cnt in sorted(self.findings.items()):
            print(f"KNOWN-FINDING: property={self.pid} {self.known[fid]} (observed {cnt} times)")
        if self.violations:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            for i, v in enumerate(self.violations):
                path = os.path.join("replays", f"{self.pid}-{self.tier}-{self.seed}-{i}.json")
                with open(os.path.join(VERIF, path), "w") as f:
                    json.dump({"property": self.pid, "what": v["what"], "seed": self.seed, "tier": self.tier,
                               "rerun": f"VERIF_SEED={self.seed} ./run.sh {self.pid} {self.tier}",
                               **v["replay"]}, f, indent=1, default=str)
                print(v["what"])
                print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        if not reached:
            print(f"{self.pid}: the monitors observed nothing: inconclusive", file=sys.stderr)
            return 2
        print(f"{self.pid}: held on {self.evaluations} observed executions "
              f"({cov['distinct_nontrivial']} distinct, {self.stats['comparisons']} comparisons, "
              f"{self.elapsed():.1f} s)")
        return 0


class CallFailed(Exception):
    def __init__(self, index, text):
        self.index, self.text = index, text


def load_known(pid):
    known = {}
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("status") == "known" and d["property"] == pid:
                    known[d["id"]] = d["what"]
    return known


def main(argv):
    import importlib

    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    try:
        instr.load()
    except Exception:
        traceback.print_exc()
        print(f"{pid}: /repo does not import", file=sys.stderr)
        return 2
    mod = importlib.import_module(f"vmon.checks.{pid.lower()}")
    ctx = Ctx(pid, tier, seed)
    try:
        mod.run(ctx)
    except instr.MissingAPI as e:
        ctx.count("api", "lookup")
        ctx.violation(f"public function missing: {e}", {"missing": str(e)})
    except Exception as e:
        traceback.print_exc()
        frames = traceback.extract_tb(e.__traceback__)
        if frames and any(f.filename.startswith(instr.REPO_SRC) for f in frames):
            # the package itself raised where every call is within its domain
            ctx.count("unexpected exception", "raise")
            ctx.violation(f"{pid}: {type(e).__name__}: {e} at {frames[-1].filename}:{frames[-1].lineno} for in-domain arguments",
                          {"observed": traceback.format_exc()})
        if not ctx.violations:
            for w in ctx._workers.values():
                w.close()
            return 2
    return ctx.finish()
