"""C06 Conversions are functions: no argument is changed, no process state, and the past does not matter."""
import copy
import datetime as D
import inspect
import os
import random
import warnings

import numpy as np

from .. import gen, instr, table
from ..catalogue import AXES
from ..core import Ell, flatten
from ..monitors import GlobalState, Purity, identical
from ..workers import Worker

ENVS = {"other environment": {"TZ": "Asia/Kolkata", "LC_ALL": "C", "PYTHONHASHSEED": "77", "LANG": "C", "OMP_NUM_THREADS": "4"}}


def outcome(path, args, kw, ellkw):
    k = dict(kw)
    for name, s in ellkw.items():
        k[name] = instr.make_ell(s)
    try:
        return ("ok", instr.call(path, *copy.deepcopy(args), **k))
    except Exception as e:  # noqa: BLE001
        return ("exc", type(e).__name__)


def norm(o):
    return ("exc", o[1].split(":")[0]) if o[0] == "exc" else o


def pool(ctx, rng, size):
    """fixed calls of every public function, also failing ones"""
    calls = []
    fs = table.build()
    while len(calls) < size:
        for f in fs:
            ell = gen.ells(ctx, 1, 1)[int(rng.integers(0, 5))] if f.ell else Ell(none=True)
            kw = dict(f.kw)
            if f.time:
                kw[f.time] = D.datetime(1990, 1, 1) + D.timedelta(seconds=float(rng.uniform(0, 1.1e9)))
            args = f.generate(rng, int(rng.integers(1, 12)), ell)
            if f.deg and rng.random() < .3:
                kw["deg"] = False
                args = f.to_rad(args)
            if not f.arr or rng.random() < .4:
                args = [float(v[0]) for v in args]
                if rng.random() < .1 and args:
                    args[int(rng.integers(0, len(args)))] = float(rng.choice([np.nan, np.inf, 1e300, -95.0]))
            calls.append((f.path, args, kw, {"ell": ell.spec()} if f.ell else {}))
        la, lo = (rng.uniform(-50, 50) + rng.uniform(-20, 20, 5)), (rng.uniform(-180, 180) + rng.uniform(-20, 20, 5))
        t = [D.datetime(1990, 1, 1) + D.timedelta(seconds=float(rng.uniform(0, 1.1e9))) for _ in range(4)]
        v = rng.normal(size=(3, 4))
        e = {"ell": gen.random_ell(rng, .02).spec()}
        calls += [("karney.geodesic_area", [la, lo], {}, e), ("karney.geodesic_area", [la.tolist(), lo.tolist()], {"deg": True}, {}),
                  ("karney.geodesic_area", [la[:2], lo[:2]], {}, {}), ("lox.meanm", [la, lo], {}, e),
                  ("karney.geodesic_line", [float(la[0]), float(lo[0]), float(la[1]), float(lo[1])], {"npts": 5}, e),
                  ("vincenty.track2", [float(la[0]), float(lo[0]), float(la[1]), float(lo[1])], {"npts": 5}, e),
                  ("nvector_mean", list(v), {}, {}), ("sidereal.juliandate", [t], {}, {}), ("sidereal.juliandate", [tuple(t)], {}, {}),
                  ("sidereal.datetime2sidereal", [t[0], 1.25], {}, {}), ("sidereal.datetime2sidereal", [t, 1.25], {"force_non_astropy": True}, {}),
                  ("timeconv.str2dt", [[x.isoformat() for x in t]], {}, {}), ("timeconv.str2dt", [np.array(t, dtype="datetime64[us]")], {}, {}),
                  ("timeconv.str2dt", ["nonsense"], {}, {}), ("ellipsoid.Ellipsoid.from_name", [str(rng.choice(list(AXES)))], {}, {}),
                  ("ellipsoid.Ellipsoid.from_name", ["nowhere"], {}, {}), ("lox.loxodrome_direct", [la + 90, lo, la * 0 + 1e3, lo], {}, {}),
                  ("lox.loxodrome_direct", [la, lo, la * 0 - 1e3, lo], {}, {}), ("vincenty.vdist", [la + 90, lo, la, lo], {}, {}),
                  ("los.lookAtSpheroid", [la, lo, la * 0 - 1.0, lo, lo * 0], {}, {}), ("ned2body", [la, lo, la, 1.0, 2.0, 3.0], {"sequence": "xxy"}, {}),
                  ("body2ecef", [la, lo, la, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0], {"frame": "abc"}, {}),
                  ("geodetic2ecef", [la, lo[:3], la], {}, {}), ("ecef2geodetic", ["a", 1.0, 2.0], {}, {}), ("ecef2enu", [la, lo, la, la[:2], lo, la], {}, {})]
    return calls


def warned(rng):
    """calls that take a path with a message (no convergence, out of the domain): not among those that warm up"""
    la, lo = rng.uniform(5, 80, 4), rng.uniform(-179, 0, 4)
    flat = {"ell": Ell(a=6.4e6, b=4.5e6).spec()}
    o = np.array([0.0, 1.0, 2.0, 3.0])
    return [("vincenty.vdist", [la, lo, -la, lo + 180], {}, {}), ("vincenty.vdist", [float(la[0]), float(lo[0]), -float(la[0]), float(lo[0]) + 180], {}, {}),
            ("vincenty.vdist", [la, lo, -la, lo + 180], {}, flat), ("vincenty.vdist", [o * 0, o * 0, o * 0, 180 - o / 10], {}, {}),
            ("vincenty.vdist", [la, lo, -la + 1e-3, lo + 179.9], {"deg": True}, flat), ("vincenty.vreckon", [la, lo, la * 4e5, lo], {}, flat),
            ("vincenty.track2", [10.0, 20.0, -10.0, -160.0], {}, {}), ("los.lookAtSpheroid", [la, lo, la * 0 + 1e5, lo, la * 0 + 120], {}, {}),
            ("ecef2geodetic", [o, o, o], {}, {}), ("ecef2geodetic", [0.0, 0.0, 0.0], {}, {}), ("lox.loxodrome_inverse", [la * 0 + 90, lo, la * 0 - 90, lo], {}, {}),
            ("karney.geodesic_inverse", [float(la[0]), float(lo[0]), -float(la[0]), float(lo[0]) + 180], {}, {})]


def near_spec(rng, s):
    """another ellipsoid that shares something with the one given"""
    e = instr.make_ell(s) or instr.make_ell({"ell": "name", "name": "wgs84"})
    a, b = e.semimajor_axis, e.semiminor_axis
    k = int(rng.integers(0, 4))
    a2, b2 = [(a, b * (1 - 1e-3)), (a * (1 + 1e-3), b), (a * 1.5, b * 1.5), (a * (1 + 1e-9), b * (1 + 1e-9))][k]
    return Ell(a=a2, b=min(a2, b2)).spec()


def twin(rng, c):
    """a call that differs from c in one respect only, or shares all but that"""
    path, args, kw, ek = c
    args, kw, ek = copy.deepcopy(args), dict(kw), dict(ek)
    try:
        opts = {n: p for n, p in inspect.signature(instr.api(path)).parameters.items() if p.default is not p.empty}
    except (TypeError, ValueError):
        opts = {}
    ways = [("arg", i) for i, v in enumerate(args) if isinstance(v, (float, np.ndarray))]
    ways += [("opt", n) for n in opts if n in ("deg", "delta_ut1", "xp", "yp", "force_non_astropy", "use_astropy", "frame", "method", "radius", "alt")] * 2
    ways += [("time", n) for n, v in kw.items() if isinstance(v, D.datetime)]
    ways += [("ell", n) for n in ek] * 3
    if not ways:
        return None
    how, w = ways[int(rng.integers(0, len(ways)))]
    if how == "arg":
        v = args[w]
        k = int(rng.integers(0, 5))
        if k == 4:  # a little beside
            v = v if isinstance(v, float) else np.asarray(v, float)
            args[w] = v + 10.0 ** float(rng.uniform(-13, -3)) * (abs(v) + 1e-3)
        elif k == 3:  # special value, also a scalar among arrays
            args[w] = [0.0, -0.0, 0, 90.0, 1.0, 180.0, 360.0][int(rng.integers(0, 7))]
        elif isinstance(v, float):
            args[w] = [float(np.nextafter(v, np.inf)), v * 1.0009765625 + 1e-3, -v][k]
        else:
            v = np.asarray(v, float).copy()
            args[w] = [v[::-1].copy(), v + 1e-3, np.nextafter(v, np.inf)][k]
    elif how == "opt":
        if w == "deg":
            kw[w] = not kw.get(w, True)
        elif w in ("force_non_astropy", "use_astropy"):
            kw[w] = not kw.get(w, opts[w].default)
        elif w == "frame":
            kw[w] = str(rng.choice(["enu", "ned", "nwu", "sez"]))
        elif w == "method":
            kw[w] = "norm"
        elif w == "radius":
            kw[w] = 6.3e6
        else:
            kw[w] = float(rng.choice([.25, -.125]))
    elif how == "time":
        kw[w] = kw[w] + D.timedelta(microseconds=int(rng.choice([1, 20000, 86400000000])))
    else:
        ek[w] = near_spec(rng, ek[w])
    return (path, args, kw, ek)


def run(ctx):
    warnings.simplefilter("ignore")
    ctx.rule = ("every public function, with arrays, lists, scalars, failing calls: online monitor of arguments and of 32 kinds of process state around "
                "every call; read-only arguments; results overwritten by the caller; random histories; other processes in other order and environment; "
                "NumPy error states and warning filters of the caller; the command line's main() in the same process")
    ctx.assumptions = ["outcomes are compared bit for bit on one machine"]
    rng = ctx.rng
    E = instr.api("ellipsoid.Ellipsoid")
    shared = [E.from_name(k) for k in E.models]
    with np.errstate(all="ignore"):
        for name, o in list(vars(instr.load()).items()):  # everything imported
            getattr(o, "__name__", None)
        calls, groups = clusters(rng, pool(ctx, rng, ctx.n(300, 4500)))
        mon = Purity(ctx, shared)
        instr.add_monitor(mon)
        try:
            for c in pool(ctx, rng, 10):  # whatever is imported or cached late changes no state either
                outcome(*c)
            for c in warned(rng):
                outcome(*c)
            first = [norm(outcome(*c)) for c in calls]
            keep = copy.deepcopy(first)
            arrays(ctx, rng, calls, first)
            shared_arguments(ctx, rng, calls)
            retained(ctx, rng)
            special_scalars(ctx, rng)
            neighbours(ctx, rng)
            histories(ctx, rng, calls, keep, groups)
            command_line(ctx, rng, calls, keep)
            states(ctx, rng, calls, keep)
        finally:
            instr.remove_monitor(mon)
    ctx.stats["monitored calls"], ctx.stats["monitored arrays"], ctx.stats["monitored calls that raised"] = mon.events, mon.arrays, mon.raised
    ctx.count("monitor", "argument and state monitor", mon.events)
    ctx.stats["kinds of state watched"] = len(GlobalState.NAMES) + len(GlobalState.SLOW)
    processes(ctx, rng, calls, keep, groups)
    for f in {c[0] for c in calls}:
        ctx.distinct.update((f, i) for i, c in enumerate(calls) if c[0] == f)
    ctx.samples += [{"call": str(c)[:300], "outcome": str(o)[:200]} for c, o in list(zip(calls, keep))[:5]]


def clusters(rng, calls):
    """each call together with calls that differ from it in a single respect"""
    out, groups = [], []
    for c in calls:
        g = [c]
        timed = any(isinstance(v, D.datetime) for v in c[2].values())  # these have most options
        if isinstance(c[1], list) and (timed or rng.random() < .6):
            g += [x for x in (twin(rng, c) for _ in range(8 if timed else 2)) if x]
        rng.shuffle(g)
        groups.append(list(range(len(out), len(out) + len(g))))
        out += g
    return out, groups


def together(rng, groups):
    order = []
    for i in rng.permutation(len(groups)):
        order += list(rng.permutation(groups[i]))
    return order


def spoil(o):
    n = 0
    if isinstance(o, (tuple, list)):
        return sum(spoil(x) for x in o)
    if isinstance(o, np.ndarray) and o.flags.writeable and o.dtype.kind == "f":
        o[...] = -777.25
        n = 1
    return n


def arrays(ctx, rng, calls, first):
    """read-only arguments; the caller overwrites what he got"""
    for c, o in zip(calls, first):
        path, args, kw, ek = c
        if o[0] != "ok":
            continue
        want = copy.deepcopy(o)
        if any(isinstance(v, np.ndarray) for v in args):
            ro = []
            for v in args:
                if isinstance(v, np.ndarray):
                    v = v.copy()
                    v.setflags(write=False)
                ro.append(v)
            k = dict(kw)
            for name, s in ek.items():
                k[name] = instr.make_ell(s)
            try:
                got = ("ok", instr.call(path, *ro, **k))
            except Exception as e:  # noqa: BLE001
                got = ("exc", f"{type(e).__name__}: {e}")
            ctx.ok(identical(got, want), f"{path} with read-only arguments: {str(got)[:300]}, else {str(want)[:300]}", {"function": path, "args": str(args), "kwargs": str(kw)},
                   key=f"{path} read-only", fn=path, mode="read-only")
        ctx.stats["results overwritten"] += spoil(o[1])
        again = norm(outcome(*c))
        ctx.ok(identical(again, want), f"{path}: after its result was overwritten by the caller the same call gives {str(again)[:300]}, before {str(want)[:300]}",
               {"function": path, "args": str(args), "kwargs": str(kw)}, key=f"{path} overwritten", fn=path, mode="result overwritten")


def shared_arguments(ctx, rng, calls):
    """one array given for several arguments, or two views of one buffer: as with separate arrays"""
    for path, args, kw, ek in calls:
        ix = [i for i, v in enumerate(args) if isinstance(v, np.ndarray) and v.dtype.kind == "f" and v.ndim == 1] if isinstance(args, list) else []
        ix = [i for i in ix if args[i].shape == args[ix[0]].shape]
        if len(ix) < 2:
            continue
        i, j = (int(q) for q in rng.choice(ix, 2, replace=False))
        k = dict(kw)
        for name, s in ek.items():
            k[name] = instr.make_ell(s)
        for how in ("one array twice", "views of one buffer"):
            sep = [v.copy() if isinstance(v, np.ndarray) else v for v in args]
            joint = [v.copy() if isinstance(v, np.ndarray) else v for v in args]
            if how == "one array twice":
                sep[j] = sep[i].copy()
                joint[j] = joint[i]
            else:
                n = len(args[i])
                buf = np.concatenate([args[i], args[j]])
                joint[i], joint[j] = buf[:n], buf[n:]
            res = []
            for a in (sep, joint):
                try:
                    res.append(("ok", instr.call(path, *a, **k)))
                except Exception as e:  # noqa: BLE001
                    res.append(("exc", type(e).__name__))
            ctx.ok(identical(res[0], res[1]), f"{path} with {how} for arguments {i} and {j}: {str(res[1])[:300]}, with separate arrays {str(res[0])[:300]}",
                   {"function": path, "args": str(sep), "kwargs": str(kw)}, key=f"{path} shared", fn=path, mode=how)


def leaves(o):
    if isinstance(o, (tuple, list)):
        return [x for v in o for x in leaves(v)]
    return [o] if isinstance(o, np.ndarray) else []


def own(ctx, f, args, r, shape):
    """what is returned shares no memory with an argument, nor one part of it with another"""
    L = leaves(r)
    for i, v in enumerate(L):
        for j, u in enumerate(args):
            ctx.ok(not (isinstance(u, np.ndarray) and np.shares_memory(u, v)), f"{f} with arguments of shape {shape}: result {i} is argument {j} or a view of it",
                   {"function": f.path, "args": str(args)}, key=f"{f.path} own", fn=f.path, mode="arguments and results")
        ctx.ok(not any(np.shares_memory(u, v) for u in L[:i]), f"{f} with arguments of shape {shape}: two of its results share memory",
               {"function": f.path, "args": str(args)}, key=f"{f.path} own", fn=f.path, mode="arguments and results")


def retained(ctx, rng):
    """results of all functions are kept while the same function is called again, and again, with arrays of the same and of other shapes"""
    for f in table.build():
        ell = gen.ells(ctx, 1, 1)[int(rng.integers(0, 5))] if f.ell else Ell(none=True)
        kw = {**f.kw, **table.time_kw(f)}
        if f.ell:
            kw["ell"] = ell.obj()
        for shape in ((5,), (1,), (300,), (2, 3), ()) if f.arr else ((),):
            n = int(np.prod(shape))
            kept = []
            for k in range(4):
                opt = dict(kw)
                args = f.generate(rng, n, ell)
                same = f.generate(rng, n, ell) if k == 1 else None
                if f.deg and k == 3:
                    opt["deg"], args = False, f.to_rad(args)
                # also arrays without dimensions
                args = [np.array(v, float).reshape(shape) if f.arr and (shape or k > 1) else float(v[0]) for v in args]
                try:
                    r = instr.call(f.path, *args, **opt)
                    kept.append((args, r, copy.deepcopy(r)))
                    if same is not None:
                        instr.call(f.path, *[v.reshape(shape) if shape else float(v[0]) for v in same], **opt)
                except ValueError:
                    continue
                own(ctx, f, args, r, shape)
            for i, (args, r, c) in enumerate(kept):
                ctx.ok(identical(r, c), f"{f} with arguments of shape {shape}: a result the caller kept changed with later calls, from {str(c)[:200]} to {str(r)[:200]}",
                       {"function": f.path, "args": str(args)}, key=f"{f.path} retained", fn=f.path, mode="results kept")
                for _, r2, _ in kept[:i]:
                    ctx.ok(not any(np.shares_memory(u, v) for u in leaves(r) for v in leaves(r2)), f"{f} with arguments of shape {shape}: results of two calls share memory",
                           {"function": f.path, "args": str(args)}, key=f"{f.path} sharing", fn=f.path, mode="results kept")


SPECIAL = (0.0, -0.0, 1.0, 0, 90.0, -90.0, 180.0, 360.0, 45.0, float(np.pi / 2), float(np.pi))


def special_scalars(ctx, rng):
    """single numbers of special value among arrays: the arrays stay as they were, results are the caller's own, and again the same"""
    for f in table.build():
        if not f.arr:
            continue
        ell = gen.ells(ctx, 1, 1)[int(rng.integers(0, 5))] if f.ell else Ell(none=True)
        kw = {**f.kw, **table.time_kw(f)}
        if f.ell:
            kw["ell"] = ell.obj()
        base = f.generate(rng, 3, ell)
        for d in (True, False) if f.deg else (None,):
            opt = dict(kw) if d is None else {**kw, "deg": d}
            for i in range(len(base)):
                for s in SPECIAL if ctx.n(0, 1) else (0.0, SPECIAL[int(rng.integers(1, len(SPECIAL)))]):
                    for alone in (False, True) if ctx.n(0, 1) or s == 0 else (False,):  # the one number, or the one array
                        src = f.to_rad([v.copy() for v in base]) if d is False else base
                        args = [s if (j == i) != alone else np.array(v, float) for j, v in enumerate(src)]
                        if len(base) == 1 and not alone:
                            continue
                        before = copy.deepcopy(args)
                        try:
                            r = instr.call(f.path, *args, **opt)
                        except Exception:  # noqa: BLE001 whether it may be refused is for others to judge
                            r = None
                        rep = {"function": f.path, "args": str(before), "kwargs": str(opt)}
                        if not ctx.ok(identical(args, before), f"{f}: arguments {before} became {args}", rep, key=f"{f.path} special", fn=f.path, mode="special scalars"):
                            continue
                        if r is None:
                            continue
                        own(ctx, f, args, r, "special")
                        kept = copy.deepcopy(r)
                        r2 = instr.call(f.path, *args, **opt)
                        ctx.ok(identical(kept, r) and identical(r, r2) and not any(np.shares_memory(u, v) for u in leaves(r) for v in leaves(r2)),
                               f"{f} with {before}: {str(kept)[:200]}, then {str(r2)[:200]}", rep, key=f"{f.path} special", fn=f.path, mode="special scalars")


def neighbours(ctx, rng):
    """numbers ever farther from the first, then back again: an answer kept for a question almost the same would be given here"""
    for rep in range(ctx.n(3, 40)):
        for f in table.build():
            ell = gen.ells(ctx, 1, 1)[int(rng.integers(0, 5))] if f.ell else Ell(none=True)
            kw = {**f.kw, **table.time_kw(f)}
            if f.ell:
                kw["ell"] = ell.obj()
            p = [float(v[0]) for v in f.generate(rng, 1, ell, tame=True)]
            far = [float(v[0]) for v in f.generate(rng, 1, ell, tame=True)]
            if not p:
                continue
            only = int(rng.integers(-1, len(p)))  # one argument, or all
            way = rng.choice([-1.0, 1.0], len(p))
            chain = [p] + [[v + w * s * max(abs(v), 1e-3) if only in (-1, i) else v for i, (v, w) in enumerate(zip(p, way))]
                           for s in 10.0 ** np.arange(-15, -2.9, 1.0)]
            one = lambda q: outcome(f.path, q, kw, {})  # noqa: E731
            there = [one(q) for q in chain]
            one(far)
            back = [one(q) for q in chain[::-1]][::-1]
            rep_ = {"function": f.path, "args": chain, "kwargs": str(kw)}
            for q, x, y in zip(chain, there, back):
                if not ctx.ok(identical(norm(x), norm(y)), f"{f}{q} gives {str(x)[:200]} after a question almost the same, {str(y)[:200]} after another", rep_,
                              key=f"{f.path} neighbours", fn=f.path, mode="neighbours"):
                    break
            if not f.arr or any(x[0] != "ok" for x in there):
                continue
            # an answer that stays while that of the array moves
            try:
                A = table.evaluate(f, [np.array(c) for c in zip(*chain)], {**kw})
            except Exception:  # noqa: BLE001 for others to judge
                continue
            S = [np.array(c, float) for c in zip(*[flatten(x[1]) for x in there])]
            for a, v in zip(A, S):
                stuck = (v == v[0]) & (np.abs(a - a[0]) > 1e-9 * np.abs(a[0]))
                ctx.ok(not stuck.any(), f"{f}: scalars {chain[int(stuck.argmax())]} give {v[0]}, as {p} did; as an array {a[int(stuck.argmax())]}", rep_,
                       key=f"{f.path} neighbours", fn=f.path, mode="neighbours")


def histories(ctx, rng, calls, keep, groups):
    clear = instr.api("ellipsoid.clear_ellipsoid_caches")
    for k in range(ctx.n(4, 8)):
        order = rng.permutation(len(calls)) if k % 2 else together(rng, groups)
        trail = []
        for i in order:
            if rng.random() < .02:
                clear()
                trail.append("clear caches")
            got = norm(outcome(*calls[i]))
            trail.append(calls[i][0])
            if not ctx.ok(identical(got, keep[i]), f"{calls[i][0]} gives {str(got)[:300]} after {trail[-6:]}, {str(keep[i])[:300]} at first",
                          {"function": calls[i][0], "args": str(calls[i][1]), "kwargs": str(calls[i][2]), "history": trail[-30:]},
                          key=f"{calls[i][0]} history", fn=calls[i][0], mode="history"):
                break


def command_line(ctx, rng, calls, keep):
    """main() in this process: it prints, and leaves nothing behind; the same line prints the same again; the library answers as before"""
    from . import c26
    cmds = c26.commands(instr.load())
    fns = {}
    for f in table.build():
        fns.setdefault(f.path.split(".")[-1], []).append(f)
    warm = [c26.run_main(a) for a in (["--help"], ["--version"], ["geodetic2ecef", "1", "2", "3"], ["nonsense"])]
    ctx.stats["command line: warm up"] = len(warm)
    before = {}
    for rep in range(ctx.n(2, 12)):
        for name in rng.permutation(cmds):
            name = str(name)
            fs = fns.get(name)
            if fs is None and name not in ("str2dt", "datetime2sidereal", "nvector_mean"):
                continue
            arrays = bool(rng.random() < .5) and fs is not None and not any(f.time for f in fs) and fs[0].arr
            argv = list(c26.make_case(ctx, rng, name, fs, arrays=arrays)[0])
            if rng.random() < .1:
                argv[int(rng.integers(0, len(argv)))] = str(rng.choice(["abc", "nan", "-95", "--nope", "1e999"]))
            given = list(argv)
            g = GlobalState.take()
            out = c26.run_main(argv)
            d = GlobalState.diff(g, GlobalState.take())
            ctx.ok(not d, f"pymap3d {' '.join(given)} changed global state: {d}", {"argv": given}, key=f"command line {d[0][0] if d else ''}",
                   fn=name, mode="command line")
            ctx.ok(argv == given, f"pymap3d {given} changed the argument list to {argv}", {"argv": given}, key="command line arguments", fn=name,
                   mode="command line")
            before[tuple(given)] = out
    keys = list(before)
    for i in rng.permutation(len(keys)):
        out = c26.run_main(list(keys[i]))
        ctx.ok(out == before[keys[i]], f"pymap3d {' '.join(keys[i])} gives {out} after {len(keys)} other commands, {before[keys[i]]} at first",
               {"argv": list(keys[i])}, key="command line again", fn="main", mode="command line again")
    for i in rng.choice(len(calls), min(len(calls), ctx.n(150, 1500)), replace=False):
        got = norm(outcome(*calls[i]))
        ctx.ok(identical(got, keep[i]), f"{calls[i][0]} gives {str(got)[:300]} after the command line was used, {str(keep[i])[:300]} before",
               {"function": calls[i][0], "args": str(calls[i][1]), "kwargs": str(calls[i][2])}, key=f"{calls[i][0]} after command line",
               fn=calls[i][0], mode="after command line")


def states(ctx, rng, calls, keep):
    """settings of the caller: where the call still succeeds, its value is the same"""
    cwd = os.getcwd()
    for label in ("default warnings", "numpy raises", "warnings are errors", "other folder", "seeded", "numpy warns"):
        pick = rng.choice(len(calls), min(len(calls), ctx.n(250, 3000)), replace=False)
        with warnings.catch_warnings(), np.errstate(all={"numpy raises": "raise", "numpy warns": "warn"}.get(label, "ignore")):
            warnings.simplefilter({"default warnings": "default", "warnings are errors": "error"}.get(label, "ignore"))
            if label == "default warnings":
                warnings.showwarning = lambda *a, **k: None
            if label == "other folder":
                os.chdir(os.environ.get("VMON_SCRATCH", "/tmp"))
            if label == "seeded":
                random.seed(5)
                np.random.seed(7)
            try:
                for i in pick:
                    got = norm(outcome(*calls[i]))
                    strict = label in ("numpy raises", "warnings are errors")
                    if strict and got[0] == "exc":
                        ctx.stats[f"{label}: raised"] += 1
                        continue
                    ctx.ok(identical(got, keep[i]), f"{calls[i][0]} with {label}: {str(got)[:300]}, else {str(keep[i])[:300]}",
                           {"function": calls[i][0], "args": str(calls[i][1]), "kwargs": str(calls[i][2]), "setting": label},
                           key=f"{calls[i][0]} {label}", fn=calls[i][0], mode=label)
            finally:
                os.chdir(cwd)


def processes(ctx, rng, calls, keep, groups):
    for label, env in {"new process": {}, **ENVS}.items():
        w = Worker("fresh", env)
        try:
            order = rng.permutation(len(calls)) if label != "new process" else together(rng, groups)
            res = w.run([calls[i] for i in order])
        finally:
            w.close()
        for i, o in zip(order, res):
            got = norm(o)
            ctx.ok(identical(got, keep[i]), f"{calls[i][0]} in a {label}: {str(got)[:300]}, here {str(keep[i])[:300]}",
                   {"function": calls[i][0], "args": str(calls[i][1]), "kwargs": str(calls[i][2])}, key=f"{calls[i][0]} {label}", fn=calls[i][0], mode=label)
