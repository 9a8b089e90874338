"""C10 With NumPy, without NumPy, without astropy: the same answers."""
import datetime as D
import warnings

import numpy as np

from .. import gen, geo, instr, table
from ..core import CallFailed, Ell, flatten


def remote(ctx, kind, f, args, kw, ek):
    rows = []
    for i, (st, v) in enumerate(ctx.worker(kind).run([(f.path, [float(x[i]) for x in args], kw, ek) for i in range(len(args[0]) if args else 1)])):
        if st != "ok":
            raise CallFailed(i, v)
        leaves = flatten(v)
        rows.append([float(x) for x in leaves])
    return [np.array(c) for c in zip(*rows)]


def run(ctx):
    warnings.simplefilter("ignore")
    ctx.rule = ("every public function that works without NumPy, executed on the same arguments in three real installations: standard library "
                "only, NumPy without astropy, and the full one (arrays and scalars); conversions that use astropy when there are compared "
                "between the two without it")
    rng = ctx.rng
    pm = instr.load(instrument=False)
    names = sorted(n for n in pm.__all__ if callable(getattr(pm, n, None)))
    for k in ("stdlib", "numpyonly"):
        info = ctx.worker(k).info()
        there = info.pop("names")
        ctx.samples.append({"worker": k, **info})
        ctx.ok(there == names, f"{k}: exported functions differ: {sorted(set(there) ^ set(names))}", key="names", fn="import", mode=k)
    n = 16
    for rep in range(ctx.n(4, 80)):
        for f in table.build():
            if f.std:
                one(ctx, f, rng, n)
    others(ctx, rng)
    places(ctx, rng)
    arithmetic(ctx, rng)
    errors(ctx, rng)


def one(ctx, f, rng, n):
    ell = gen.ells(ctx, 1, 1)[int(rng.integers(0, 5))] if f.ell else Ell(none=True)
    kw = {**f.kw}
    if f.time:
        kw[f.time] = D.datetime(1990, 1, 1) + D.timedelta(seconds=float(np.round(rng.uniform(0, 1.1e9), 3)))
        if f.path in ("geodetic2eci", "eci2geodetic", "aer.aer2eci", "aer.eci2aer"):
            kw.update(delta_ut1=float(rng.uniform(-.9, .9)), xp=float(rng.uniform(-.6, .6)), yp=float(rng.uniform(-.6, .6)))
    deg = True
    if f.deg:
        deg = kw["deg"] = bool(rng.random() < .6)
    args = f.generate(rng, n, ell)
    if not deg:
        args = f.to_rad(args)
    ok = table.ecef_usable(f, args, ell)
    args = [v[ok] for v in args]
    if args and not len(args[0]):
        return
    ek = {"ell": ell.spec()} if f.ell else {}
    here = {**kw, "ell": ell.obj()} if f.ell else kw
    rep = {"function": f.path, "kwargs": str(kw), "ell": ell.spec()}
    astropy = f.time and not f.kw.get("force_non_astropy") or f.path == "haversine.anglesep"
    sources = {"stdlib": lambda: remote(ctx, "stdlib", f, args, kw, ek), "numpyonly": lambda: remote(ctx, "numpyonly", f, args, kw, ek)}
    if not astropy:
        sources["arrays"] = lambda: table.evaluate(f, args, here)

        def scal():
            api = instr.api(f.path)
            with np.errstate(all="ignore"):
                rows = [[float(x) for x in flatten(api(*[float(v[i]) for v in args], **here))] for i in range(len(args[0]) if args else 1)]
            return [np.array(c) for c in zip(*rows)]
        sources["scalars"] = scal
    got = {}
    for k, g in sources.items():
        try:
            got[k] = g()
        except CallFailed as e:
            ctx.count(f.path, k)
            ctx.violation(f"{f} [{k}] ell={ell} {kw}: {e.text} for {[float(v[e.index]) for v in args]}",
                          {**rep, "mode": k, "args": [float(v[e.index]) for v in args]}, key=f"{f} raise {k}")
        except Exception as e:  # noqa: BLE001
            ctx.count(f.path, k)
            ctx.violation(f"{f} [{k}] ell={ell} {kw}: {type(e).__name__}: {e}", {**rep, "mode": k, "args": [v.tolist() for v in args]},
                          key=f"{f} raise {k}")
    base = got.pop("stdlib", None)
    if base is None:
        return
    a = args or [np.array([ell.a])]
    for k, o in got.items():
        if len(o) != len(base):
            ctx.violation(f"{f}: {len(o)} results with {k}, {len(base)} without NumPy", rep, key=f"{f} count")
            continue
        ctx._tally(f.path, k, a, o, f.compare(args, base, o, ell, deg), {**rep, "stdlib": [float(v[0]) for v in base]}, f"stdlib against {k}",
                   ell if f.ell else None, {**f.kw, "deg": deg})


def others(ctx, rng):
    """dates, collections, points on lines"""
    for _ in range(ctx.n(60, 1500)):
        t = D.datetime(1900, 3, 1) + D.timedelta(seconds=float(np.round(rng.uniform(0, 6e9), 6)))
        lo = float(rng.uniform(-400, 400))
        la, ln = (rng.uniform(-50, 50) + rng.uniform(-20, 20, 5)).tolist(), (rng.uniform(-180, 180) + rng.uniform(-20, 20, 5)).tolist()
        v = rng.normal(size=(3, 6))
        v /= np.sqrt((v**2).sum(0))
        calls = [("sidereal.juliandate", [t], {}, {}), ("sidereal.datetime2sidereal", [t, lo], {"delta_ut1": .25, "force_non_astropy": True}, {}),
                 ("timeconv.str2dt", [t.isoformat()], {}, {}), ("timeconv.str2dt", [t.strftime("%Y-%m-%dT%H:%M:%S")], {}, {}),
                 ("karney.geodesic_area", [la, ln], {}, {}), ("karney.geodesic_line", [la[0], ln[0], la[1], ln[1]], {"npts": 4}, {}),
                 ("nvector_mean", [[float(x) for x in c] for c in v], {}, {}),
                 ("vincenty.vdist", [la[0], ln[0], la[1], ln[1]], {}, {})]
        res = {k: ctx.worker(k).run(calls) for k in ("stdlib", "numpyonly", "fresh")}
        for i, c in enumerate(calls):
            vals = {k: r[i] for k, r in res.items()}
            base = vals.pop("stdlib")
            for k, o in vals.items():
                good = base[0] == o[0] == "ok" and close(base[1], o[1], c[0])
                ctx.ok(good, f"{c[0]}{tuple(c[1])} {c[2]}: {base} without NumPy, {o} in {k}", {"function": c[0], "args": str(c[1])}, key=f"{c[0]} {k}",
                       fn=c[0], mode=k)
        ctx.distinct.add((t, lo))


def places(ctx, rng):
    """poles, half turns, no distance, the same point twice: given everywhere or refused everywhere"""
    lats, lons, azs, lens = [90.0, -90.0, 0.0, -0.0, 45.0], [180.0, -180.0, 0.0, 360.0, 90.0, -90.0, 37.5], [0.0, 90.0, 180.0, 270.0, 360.0, -90.0, 33.0], \
        [0.0, 1e-3, 5000.0, 2e6]
    c = lambda v: float(rng.choice(v))  # noqa: E731
    calls = []
    for _ in range(ctx.n(40, 800)):
        a, o, b, q = c(lats), c(lons), c(lats), c(lons)
        if rng.random() < .2:
            b, q = a, o
        az, ln = c(azs), c(lens)
        e = {"ell": gen.random_ell(rng, .02).spec()} if rng.random() < .5 else {}
        calls += [("lox.loxodrome_direct", [a, o, ln, az], {}, e), ("lox.loxodrome_inverse", [a, o, b, q], {}, e), ("lox.meridian_arc", [a, b], {}, e),
                  ("lox.departure", [o, q, a], {}, e), ("vincenty.vreckon", [a, o, ln, az], {}, e), ("karney.geodesic_direct", [a, o, az, ln], {}, e),
                  ("karney.geodesic_inverse", [a, o, b, q], {}, e), ("haversine.anglesep", [o, a, q, b], {}, {}),
                  ("haversine.anglesep_meeus", [o, a, q, b], {}, {}), ("los.lookAtSpheroid", [a, o, ln, az, c([0.0, 10.0, 80.0, 90.0])], {}, e),
                  ("geodetic2isometric", [a], {}, e), ("rsphere.euler", [a, o, b, q], {}, e), ("nvector2geodetic", [c([0., 1., -1.]), 0.0, c([1., -1.])], {}, {}),
                  ("geodetic2aer", [a, o, ln, a, o, 0.0], {}, e), ("ecef2geodetic", [0.0, 0.0, c([7e6, -7e6, 6e6])], {}, e),
                  ("azel2radec", [az, a, b, o, D.datetime(2001, 2, 3, 4, 5, 6)], {"force_non_astropy": True}, {})]
        if abs(a + b) > 1 or abs(abs(float(geo.wrap(o - q))) - 180) > 20:
            calls.append(("vincenty.vdist", [a, o, b, q], {}, e))
    res = {k: ctx.worker(k).run(calls) for k in ("stdlib", "numpyonly", "fresh")}
    for i, call in enumerate(calls):
        seen = {}
        for k, r in res.items():
            st, v = r[i]
            if st == "exc":
                seen[k] = ("refused", str(v).split(":")[0])
            else:
                seen[k] = ("given", tuple("finite" if np.isfinite(float(x)) else "not finite" for x in flatten(v)[:1]))
        ctx.ok(len(set(seen.values())) == 1, f"{call[0]}{tuple(call[1])} {call[3]}: " + ", ".join(f"{k} {seen[k]} {res[k][i][1]}" for k in res),
               {"function": call[0], "args": call[1]}, key=f"{call[0]} place", fn=call[0], mode="special places")
        ctx.distinct.add((call[0], *map(str, call[1])))


FUN = {"acos": 1, "asin": 1, "asinh": 1, "atan": 1, "atan2": 2, "atanh": 1, "copysign": 2, "cos": 1, "degrees": 1, "exp": 1, "fmod": 2,
       "hypot": 2, "isnan": 1, "log": 1, "minimum": 2, "power": 2, "radians": 1, "sign": 1, "sin": 1, "sqrt": 1, "tan": 1,
       "cube_root": 1}


def arithmetic(ctx, rng):
    """the functions pymap3d.mathfun exports under one name whatever is installed"""
    calls = []
    special = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 8.0, -8.0, 1e-300, -1e-300, 1e300, -27.0, float(np.pi), float(-np.pi / 2)]
    for name, n in sorted(FUN.items()):
        pool = special + (rng.normal(size=12) * 10.0 ** rng.integers(-12, 7, 12)).tolist() + rng.uniform(-1, 1, 12).tolist()
        for x in pool:
            for y in ([None] if n == 1 else [float(v) for v in rng.choice(pool, 4)] + [0.0, 2.0, x]):
                if name in ("acos", "asin", "atanh") and abs(x) >= 1 or name in ("log", "power") and x <= 0 or name == "sqrt" and x < 0:
                    continue
                if name == "exp" and abs(x) > 300 or name == "power" and (abs(y) > 20 or abs(np.log(x) * y) > 600) or name == "fmod" and y == 0:
                    continue
                if name in ("sin", "cos", "tan") and abs(x) > 1e9 or name == "degrees" and abs(x) > 1e200 or name == "hypot" and max(abs(x), abs(y)) > 1e150 + 1e300 * 0.5:
                    continue
                calls.append(("mathfun." + name, [x] if n == 1 else [x, y], {}, {}))
    for _ in range(60):
        calls.append(("mathfun.linspace", [float(v) for v in rng.uniform(-500, 500, 2)] + [int(rng.choice([2, 3, 10, 77, 200]))], {}, {}))
    res = {k: ctx.worker(k).run(calls) for k in ("stdlib", "numpyonly")}
    for c, b, o in zip(calls, res["stdlib"], res["numpyonly"]):
        if "AttributeError" in str(b[1]) + str(o[1]):
            ctx.stats[f"{c[0]} not in both"] += 1
            continue
        good = b[0] == o[0] == "ok"
        if good:
            x, y = np.atleast_1d(np.asarray(b[1], float)), np.atleast_1d(np.asarray(o[1], float))
            good = x.shape == y.shape and bool(np.all((np.abs(x - y) <= 2e-13 * np.maximum(np.abs(x), np.max(np.abs(x)) if x.size > 1 else 0)) | (x == y)))
        ctx.ok(good, f"{c[0]}{tuple(c[1])}: {b} without NumPy, {o} with it", {"function": c[0], "args": c[1]}, key=c[0], fn=c[0], mode="stdlib/numpyonly")
        ctx.distinct.add((c[0], *c[1]))


def close(a, b, fn):
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list, np.ndarray)):
        return len(a) == len(b) and all(close(x, y, fn) for x, y in zip(a, b))
    if isinstance(a, D.datetime):
        return a == b
    a, b = float(a), float(b)
    if fn == "karney.geodesic_area":
        return abs(a - b) < 1e-9 * 5.1e14 or abs(abs(a - b) / 2.55032810857e14 - 1) < 1e-6
    if fn == "karney.geodesic_line":
        return abs(float(geo.wrap(a - b))) < 1e-9
    if fn.startswith("sidereal.date"):
        return abs(float(geo.wrap(a - b, False))) < 1e-8
    if fn.startswith("vincenty"):
        return abs(a - b) < 1e-4
    return abs(a - b) <= 1e-9 * max(1, abs(a)) if fn != "sidereal.juliandate" else abs(a - b) < 1e-8


def errors(ctx, rng):
    """what is refused is refused everywhere, with ValueError"""
    calls = [("lox.loxodrome_direct", [95.0, 0.0, 1000.0, 10.0], {}, {}), ("lox.loxodrome_direct", [5.0, 0.0, -1.0, 10.0], {}, {}),
             ("karney.geodesic_area", [[1.0, 2.0], [3.0, 4.0]], {}, {}), ("ned2body", [1.0, 2.0, 3.0, 4.0, 5.0, 6.0], {"sequence": "abc"}, {}),
             ("body2ecef", [1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0], {"frame": "xyz"}, {}),
             ("los.lookAtSpheroid", [1.0, 2.0, -5.0, 4.0, 5.0], {}, {}), ("vincenty.vdist", [95.0, 0.0, 5.0, 5.0], {}, {}),
             ("rsphere.curve", [45.0], {"method": "nope"}, {}), ("rsphere.biaxial", [], {"method": "nope"}, {}),
             ("ellipsoid.Ellipsoid.from_name", ["nowhere"], {}, {}), ("timeconv.str2dt", ["not a date"], {}, {})]
    base = {}
    for k in ("stdlib", "numpyonly", "fresh"):
        for c, (st, v) in zip(calls, ctx.worker(k).run(calls)):
            kind = str(v).split(":")[0] if st == "exc" else "no exception"
            ctx.stats[f"{c[0]} -> {kind}"] += 1
            if k == "stdlib":
                base[str(c)] = (kind, v)
            else:
                w = base[str(c)]
                good = kind == w[0] or (st == "ok" and w[0] == "no exception")
                ctx.ok(good, f"{c[0]}{tuple(c[1])} {c[2]}: {w[0]} without NumPy, {kind} in {k}", {"function": c[0], "args": str(c[1])},
                       key=f"error {c[0]}", fn=c[0], mode=f"error {k}")
