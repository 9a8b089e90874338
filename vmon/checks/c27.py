"""C27 Bad input is refused or stays visible: NaN in, NaN out; documented domains; every call ends."""
import datetime as D
import warnings

import numpy as np

from .. import gen, instr, table
from ..core import Ell, flatten

# ValueError is promised; ArithmeticError is what plain floats do where arrays give inf and nan
FAIR = (ValueError, ArithmeticError)

# function, good arguments, index of the argument, bad values, good limits, keyword arguments
DOMAIN = [
    ("vincenty.vdist", [10.0, 20.0, 30.0, 40.0], 0, "A", [90.0001, -90.0001, 180.0, -500.0], [90.0, -90.0], {}),
    ("vincenty.vdist", [10.0, 20.0, 30.0, 40.0], 2, "A", [90.0001, -90.0001, 180.0, -500.0], [90.0, -90.0], {}),
    ("vincenty.vreckon", [10.0, 20.0, 30e3, 40.0], 0, "A", [90.0001, -90.0001, 91.0, -91.0], [90.0, -90.0], {}),
    ("vincenty.vreckon", [10.0, 20.0, 30e3, 40.0], 2, "L", [-1.0, -1e-6, -1e9], [0.0, 1e7], {}),
    ("lox.loxodrome_direct", [10.0, 20.0, 30e3, 40.0], 0, "A", [90.0001, -90.0001, 91.0, -91.0], [89.0, -89.0, 90.0, -90.0], {}),
    ("lox.loxodrome_direct", [10.0, 20.0, 30e3, 40.0], 2, "L", [-1.0, -1e-6, -1e9], [0.0, 1e6], {}),
    ("los.lookAtSpheroid", [10.0, 20.0, 30e3, 40.0, 5.0], 2, "L", [-1.0, -1e-6, -1e9], [0.0, 1e7], {}),
    ("azel2radec", [10.0, 20.0, 30.0, 40.0], 2, "D", [90.0001, -90.0001, 91.0, -91.0], [90.0, -90.0], {"force_non_astropy": True}),
    ("radec2azel", [10.0, 20.0, 30.0, 40.0], 2, "D", [90.0001, -90.0001, 91.0, -91.0], [90.0, -90.0], {"force_non_astropy": True}),
]
T = D.datetime(2020, 3, 4, 5, 6, 7)


def run(ctx):
    warnings.simplefilter("ignore")
    ctx.rule = ("NaN in each argument of every public function (array element, float, without NumPy): results are NaN unless the argument does not matter "
                "for them; documented domains: bad value alone and anywhere in an array, limits accepted; hostile floats (0, denormal, 1e300, inf, nan) in "
                "every position: the call ends with results of the usual form, ValueError or ArithmeticError")
    ctx.assumptions = ["an argument matters for a result if two other values of it give different results"]
    rng = ctx.rng
    domains(ctx, rng)
    options(ctx, rng)
    for _ in range(ctx.n(2, 30)):
        for f in table.build():
            nan(ctx, f, rng)
            hostile(ctx, f, rng)
    collections(ctx, rng)


def foreign(e):
    """raised inside astropy, which answers for itself"""
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    return tb is not None and "/astropy/" in tb.tb_frame.f_code.co_filename


def attempt(path, args, kw):
    try:
        with np.errstate(all="ignore"):
            return "ok", instr.call(path, *args, **kw)
    except Exception as e:  # noqa: BLE001
        return "exc", e


def domains(ctx, rng):
    n = 7
    for path, good, k, kind, bads, limits, kw0 in DOMAIN:
        for deg in ((True, False) if kind != "D" else (True,)):
            kw = dict(kw0)
            if kind != "D":
                kw["deg"] = deg
            else:
                kw["time"] = T
            conv = lambda i, v: float(np.radians(v)) if not deg and (i != 2 or path == "vincenty.vdist") else v  # noqa: E731
            for want, values in (("ValueError", bads), ("ok", limits)):
                for v in values:
                    args = [conv(i, v if i == k else g) for i, g in enumerate(good)]
                    for mode in ("scalar", "npscalar", "array", "array2d", "one element", "stdlib", "only this one an array"):
                        a, kws = args, dict(kw)
                        if mode == "npscalar":
                            a = [np.float64(x) for x in args]
                        elif mode in ("array", "array2d"):
                            base = [conv(i, g) for i, g in enumerate(good)]
                            a = [np.full(n + 1, x) for x in base]
                            a[k][int(rng.integers(0, n + 1))] = args[k]
                            if mode == "array2d":
                                a = [x.reshape(2, 4) for x in a]
                        elif mode == "one element":
                            a = [np.array([x]) for x in args]
                        elif mode == "only this one an array":
                            a = [conv(i, g) for i, g in enumerate(good)]
                            a[k] = np.array([a[k], args[k]])
                        if mode == "stdlib":
                            st, r = ctx.worker("stdlib").run([(path, args, kws, {})])[0]
                            got = "ok" if st == "ok" else r.split(":")[0]
                        else:
                            st, r = attempt(path, a, kws)
                            got = "ok" if st == "ok" else ("ValueError" if isinstance(r, ValueError) else type(r).__name__)
                        ctx.ok(got == want, f"{path} [{mode}] deg={deg} with argument {k} = {v}: {got} {str(r)[:200]}, promised {want}",
                               {"function": path, "args": [np.asarray(x).tolist() for x in a], "kwargs": str(kws)}, key=f"{path} domain {k} {want}",
                               fn=path, mode="domain " + mode)
                        # every direction from a pole is a meridian's: no longitude
                        if want == "ok" and st == "ok" and not (path == "lox.loxodrome_direct" and abs(v) == 90):
                            fin = all(np.isfinite(np.asarray(x, float)).all() for x in flatten(r))
                            ctx.ok(fin, f"{path} [{mode}] with argument {k} at its limit {v}: {r}", {"function": path, "args": [np.asarray(x).tolist() for x in a]},
                                   key=f"{path} limit {k}", fn=path, mode="limit " + mode)
    ctx.distinct.update(("domain", i) for i in range(len(DOMAIN)))


def options(ctx, rng):
    """unknown choices"""
    at = [1.0, 2.0, 3.0]
    cases = []
    for bad in ("", "xyz", "zxz", "ZYX", None, 5):
        for fr in ("ned", "enu", "nwu", "sez"):
            cases += [(f"{fr}2body", at + [4.0, 5.0, 6.0], {"sequence": bad}), (f"body2{fr}", at + [4.0, 5.0, 6.0], {"sequence": bad}),
                      (f"{fr}2body_matrix", [4.0, 5.0, 6.0], {"sequence": bad}), (f"body2{fr}_matrix", [4.0, 5.0, 6.0], {"sequence": bad})]
        cases += [("body_matrix", [4.0, 5.0, 6.0], {"sequence": bad})]
        for fn, nn in (("ecef2body", 9), ("body2ecef", 9), ("geodetic2body", 9), ("body2geodetic", 9), ("ecef2bodyv", 8), ("body2ecefv", 8)):
            cases += [(fn, [float(i + 1) for i in range(nn)], {"sequence": bad}), (fn, [float(i + 1) for i in range(nn)], {"frame": bad})]
        cases += [("rsphere.curve", [3.0], {"method": bad}), ("rsphere.biaxial", [], {"method": bad}), ("rsphere.triaxial", [], {"method": bad})]
    for n in (1, 0, -3):
        cases.append(("vincenty.track2", [1.0, 2.0, 3.0, 4.0], {"npts": n}))
    cases += [("vincenty.track2", [10.0, 20.0, -10.0, -160.0], {}), ("karney.geodesic_area", [[1.0, 2.0], [3.0, 4.0]], {}),
              ("karney.geodesic_area", [[], []], {})]
    # no track between antipodes, wherever they are
    for lat, lon, far, kw in ((90.0, 0.0, 30.0, {}), (-90.0, 12.0, 0.0, {}), (0.0, 0.0, 180.0, {}), (0.0, 350.0, 170.0, {"npts": 3}), (45.0, -75.0, 105.0, {}),
                              (-33.25, 151.5, -28.5, {"npts": 7}), (1e-9, 10.0, 190.0, {}), (89.5, -180.0, 0.0, {}), (12.5, 20.0, 560.0, {})):
        cases.append(("vincenty.track2", [lat, lon, -lat, far], kw))
        cases.append(("vincenty.track2", [float(np.radians(v)) for v in (lat, lon, -lat, far)], {**kw, "deg": False}))
    for text in ("", "yesterday", "2020-13-01", "2020-02-30T00:00:00", "2020-01-01T25:00:00"):
        cases.append(("timeconv.str2dt", [text], {}))
    for path, args, kw in cases:
        st, r = attempt(path, args, kw)
        ctx.ok(st == "exc" and isinstance(r, ValueError), f"{path}{tuple(args)} {kw}: {r!r}, promised ValueError", {"function": path, "args": str(args), "kwargs": str(kw)},
               key=f"{path} option", fn=path, mode="option")
        ctx.distinct.add((path, str(args), str(kw)))


def leaves(o):
    return [np.asarray(v, float) for v in flatten(o)]


def nan(ctx, f, rng):
    """NaN must not turn into a number"""
    if not f.args:
        return
    ell = gen.ells(ctx, 1, 1)[int(rng.integers(0, 5))] if f.ell else Ell(none=True)
    n = 3
    kw = {**f.kw, **table.time_kw(f)}
    if f.deg and rng.random() < .4:
        kw["deg"] = False
    here = {**kw, "ell": ell.obj()} if f.ell else kw

    def make():
        a = f.generate(rng, n, ell, tame=True)
        return f.to_rad(a) if kw.get("deg") is False else a
    args = make()
    other, third = make(), make()
    for k in range(len(args)):
        # does argument k matter, and for what
        with np.errstate(all="ignore"):
            try:
                v1 = table.evaluate(f, args, here)
                v2 = table.evaluate(f, [*args[:k], other[k], *args[k + 1:]], here)
                v3 = table.evaluate(f, [*args[:k], third[k], *args[k + 1:]], here)
            except ValueError:
                continue
        matters = [np.all((a != b) | (a != c)) and np.all(np.abs(a - b) + np.abs(a - c) > 1e-9 * (np.abs(a) + np.abs(b) + 1e-3)) for a, b, c in zip(v1, v2, v3)]
        bad = [*args[:k], np.full(n, np.nan), *args[k + 1:]]
        for mode in ("array", "scalar", "stdlib"):
            rep = {"function": f.path, "mode": mode, "kwargs": str(kw), "args": [v.tolist() for v in bad], "ell": ell.spec()}
            if mode == "array":
                if not f.arr:
                    continue
                st, r = attempt(f.path, [v.copy() for v in bad], here)
            elif mode == "scalar":
                st, r = attempt(f.path, [float(v[0]) for v in bad], here)
            else:
                if not f.std:
                    continue
                st, r = ctx.worker("stdlib").run([(f.path, [float(v[0]) for v in bad], kw, {"ell": ell.spec()} if f.ell else {})])[0]
                if st == "exc":
                    ctx.stats[f"NaN refused without NumPy: {r.split(':')[0]}"] += 1
                    ctx.ok(r.split(":")[0] in ("ValueError", "ZeroDivisionError", "OverflowError"), f"{f} [stdlib] NaN as argument {k}: {r}", rep,
                           key=f"{f} nan stdlib", fn=f.path, mode="NaN stdlib")
                    continue
            if st == "exc":
                ctx.stats[f"NaN refused: {type(r).__name__}"] += 1
                ctx.ok(isinstance(r, FAIR) or foreign(r), f"{f} [{mode}] NaN as argument {k}: {type(r).__name__}: {r}", rep, key=f"{f} nan raise", fn=f.path, mode="NaN " + mode)
                continue
            out = leaves(r)
            if f.time and not kw.get("force_non_astropy"):
                continue  # astropy computes these here, so what matters was learnt from astropy
            wrong = [i for i, (o, m) in enumerate(zip(out, matters)) if m and not np.isnan(o).all()]
            ctx.ok(not wrong, f"{f} [{mode}] ell={ell}: NaN as argument {k} of {[v[0] for v in bad]} gives {r}; result {wrong} should be NaN", rep,
                   key=f"{f} nan {k}", fn=f.path, mode="NaN " + mode)
            ctx.stats["results that had to be NaN"] += sum(bool(m) for m in matters)
            ctx.distinct.add((f.path, str(f.kw), k, mode, bool(kw.get("deg", True))))


POOL = [0.0, -0.0, 5e-324, -1e-310, 1e-200, -1e-16, 1.0, -1.0, 90.0, -90.0, 180.0, -180.0, 270.0, 360.0, np.pi / 2, -np.pi / 2, np.pi, 1e6, -6.4e6, 1e15, -1e22,
        1e155, -1e200, 1.7e308, np.inf, -np.inf, np.nan, 45.0, -30.0, 6378137.0]


def hostile(ctx, f, rng):
    if not f.args:
        return
    ell = gen.ells(ctx, 1, 1)[int(rng.integers(0, 5))] if f.ell else Ell(none=True)
    kw = {**f.kw, **table.time_kw(f)}
    if f.deg and rng.random() < .4:
        kw["deg"] = False
    here = {**kw, "ell": ell.obj()} if f.ell else kw
    n = 12
    rows = []
    for _ in range(n):
        good = [float(v[0]) for v in f.generate(rng, 1, ell)]
        for i in rng.choice(len(good), int(rng.integers(1, min(3, len(good)) + 1)), replace=False):
            good[i] = float(rng.choice(POOL))
        rows.append(good)
    shape = None
    calls = [("scalar", r, here) for r in rows]
    if f.arr:
        calls.append(("array", [np.array(c) for c in zip(*rows)], here))
    res = [(m, a, *attempt(f.path, a, k)) for m, a, k in calls]
    if f.std:
        res += [("stdlib", r, st, v) for r, (st, v) in zip(rows, ctx.worker("stdlib").run([(f.path, r, kw, {"ell": ell.spec()} if f.ell else {}) for r in rows]))]
    for mode, a, st, r in res:
        rep = {"function": f.path, "mode": mode, "kwargs": str(kw), "args": [np.asarray(v).tolist() for v in a], "ell": ell.spec()}
        if st == "exc":
            kind = r.split(":")[0] if isinstance(r, str) else type(r).__name__
            fair = isinstance(r, FAIR) or foreign(r) if not isinstance(r, str) else kind in ("ValueError", "ZeroDivisionError", "OverflowError", "ArithmeticError",
                                                                                "FloatingPointError")
            ctx.stats[f"hostile: {kind}"] += 1
            # astropy has its own opinion about impossible latitudes; those are ValueErrors too
            ctx.ok(fair, f"{f} [{mode}] ell={ell} {kw} of {rep['args']}: {kind}: {str(r)[:300]}", rep, key=f"{f} hostile {kind}", fn=f.path, mode="hostile " + mode)
            continue
        try:
            shp = [np.shape(v) for v in leaves(r)]
        except Exception as e:  # noqa: BLE001
            shp = repr(e)
        if mode != "array":
            shape = len(shp)
        good = all(s in ((), (n,)) for s in shp) and not (mode != "array" and any(s != () for s in shp)) and len(shp) == (shape or len(shp))
        ctx.ok(good, f"{f} [{mode}] of {rep['args']}: results of shapes {shp}", rep, key=f"{f} hostile shape", fn=f.path, mode="hostile " + mode)
    ctx.distinct.update((f.path, tuple(map(repr, r))) for r in rows)


def collections(ctx, rng):
    for _ in range(ctx.n(40, 800)):
        m = int(rng.integers(3, 7))
        la, lo = rng.uniform(-80, 80, m), rng.uniform(-180, 180, m)
        k = int(rng.integers(0, m))
        which = la if rng.random() < .5 else lo
        which[k] = rng.choice([np.nan, np.nan, np.inf, 1e300])
        for path, a, kw in (("karney.geodesic_area", [la, lo], {}), ("lox.meanm", [la, lo], {}),
                            ("nvector_mean", [la, lo, la], {})):
            st, r = attempt(path, [v.copy() for v in a], kw)
            fine = isinstance(r, FAIR) if st == "exc" else (not np.isnan(which[k]) or np.isnan(np.asarray(leaves(r), float)).any())
            ctx.ok(fine, f"{path} with {which[k]} among the points: {r!r}", {"function": path, "args": [v.tolist() for v in a]}, key=f"{path} nan", fn=path, mode="NaN among")
