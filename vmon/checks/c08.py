"""C08 Degrees and radians: the same question in either unit has the same answer."""
import warnings

import numpy as np

from .. import gen, geo, instr, table
from ..core import Ell, flatten
from ..geo import LD
from .c15 import _c2


def run(ctx):
    warnings.simplefilter("ignore")
    ctx.rule = ("every public function with a deg argument, named/own/default ellipsoid, arrays and scalars and the interpreter without "
                "NumPy: f(degrees) against f(radians, deg=False), both positions compared as points/vectors; deg left out = deg=True")
    ctx.assumptions = ["argument conversion to radians rounds once: relative 2^-53 of every angle"]
    rng = ctx.rng
    n = 60
    for rep in range(ctx.n(4, 80)):
        for f in table.build():
            if not f.deg:
                continue
            ell = gen.ells(ctx, 1, 1)[int(rng.integers(0, 5))] if f.ell else Ell(none=True)
            one(ctx, f, ell, rng, n, worker=rep % 4 == 0)
    others(ctx, rng)


def one(ctx, f, ell, rng, n, worker):
    kw = {**f.kw, **table.time_kw(f)}
    if f.ell:
        kw["ell"] = ell.obj()
    args = f.generate(rng, n, ell)
    rad = f.to_rad(args)
    rep = {"function": f.path, "kwargs": str(kw), "ell": ell.spec()}

    def go(label, a, b, run1, run2):
        try:
            o1, o2 = run1(), run2()
        except Exception as e:  # noqa: BLE001
            ctx.count(f.path, label)
            ctx.violation(f"{f} [{label}] ell={ell}: {type(e).__name__}: {e}", {**rep, "args": [v[:20].tolist() for v in a]}, key=f"{f} raise {label}")
            return
        if len(o1) != len(o2):
            ctx.violation(f"{f}: {len(o1)} results in degrees, {len(o2)} in radians", rep, key=f"{f} count")
            return
        ctx._tally(f.path, label, a, o2, f.compare(a, o1, o2, ell, True, False), {**rep, "degrees": [float(v[0]) for v in o1]}, label,
                   ell if f.ell else None, f.kw)

    go("array", args, rad, lambda: table.evaluate(f, args, {**kw, "deg": True}), lambda: table.evaluate(f, rad, {**kw, "deg": False}))
    k = np.sort(rng.choice(n, 8, replace=False))
    sa, sr = [v[k] for v in args], [v[k] for v in rad]

    def scalars(a, deg):
        api = instr.api(f.path)
        with np.errstate(all="ignore"):
            rows = [[float(x) for x in flatten(api(*[float(v[i]) for v in a], **kw, deg=deg))] for i in range(len(k))]
        return [np.array(c) for c in zip(*rows)]
    go("scalar", sa, sr, lambda: scalars(sa, True), lambda: scalars(sr, False))
    # the default unit is degrees, and the flag is taken for its truth
    for label, extra in (("default", {}), ("numpy.bool", {"deg": np.bool_(True)})):
        try:
            d1, d2 = table.evaluate(f, args, {**kw, "deg": True}), table.evaluate(f, args, {**kw, **extra})
            same = all(np.array_equal(x, y, equal_nan=True) for x, y in zip(d1, d2))
        except Exception as e:  # noqa: BLE001
            same, d2 = False, repr(e)
        ctx.ok(same, f"{f}: deg {label} differs from deg=True", rep, key=f"{f} {label}", fn=f.path, mode=label)
    if worker and f.std:
        w = ctx.worker("stdlib")
        ek = {"ell": ell.spec()} if f.ell else {}
        wk = {a: b for a, b in kw.items() if a != "ell"}

        def remote(a, deg):
            rows = []
            for st, v in w.run([(f.path, [float(x[i]) for x in a], {**wk, "deg": deg}, ek) for i in range(len(k))]):
                if st != "ok":
                    raise AssertionError(v)
                rows.append([float(x) for x in flatten(v)])
            return [np.array(c) for c in zip(*rows)]
        go("stdlib", sa, sr, lambda: remote(sa, True), lambda: remote(sr, False))


def unit(la, lo):
    la, lo = np.radians(la), np.radians(lo)
    return np.array([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)]).T


def others(ctx, rng):
    for _ in range(ctx.n(60, 1500)):
        ell = gen.ells(ctx, 1, 1)[int(rng.integers(0, 5))]
        m = int(rng.integers(3, 9))
        la, lo = rng.uniform(-60, 60) + rng.uniform(-20, 20, m), rng.uniform(-180, 180) + rng.uniform(-20, 20, m)
        ra, ro = np.radians(la), np.radians(lo)
        rep = {"lat": la.tolist(), "lon": lo.tolist(), "ell": ell.spec()}
        x, y = instr.call("lox.meanm", la.copy(), lo.copy(), ell.obj()), instr.call("lox.meanm", ra.copy(), ro.copy(), ell.obj(), deg=False)
        e = abs(x[0] - np.degrees(y[0])) + abs(float(geo.wrap(x[1] - np.degrees(y[1]))))
        ctx.ok(e < 1e-10, f"meanm: {x} degrees, {y} radians", rep, key="meanm", fn="lox.meanm", mode="array")
        # any two points well short of antipodal, compared in space
        while True:
            P1, P2 = ((float(gen.lat(rng, 1)[0]), float(gen.lon(rng, 1, wide=True)[0])) for _ in range(2))
            if unit(*P1) @ unit(*P2) > -.9:
                break
        i = (*P1, *P2)
        j = tuple(float(np.radians(v)) for v in i)
        npt = int(rng.integers(2, 9))
        for fn, tol in (("karney.geodesic_line", 1e-12), ("vincenty.track2", 3e-10)):
            p, q = instr.call(fn, *i, ell=ell.obj(), npts=npt), instr.call(fn, *j, ell=ell.obj(), npts=npt, deg=False)
            p, q = [np.asarray(v, float) for v in p], [np.degrees(np.asarray(v, float)) for v in q]
            good = p[0].shape == q[0].shape == (npt,)
            e = np.max(np.abs(unit(*p) - unit(*q))) if good else np.inf
            tol += 1e-15 * (abs(i[1]) + abs(i[3]))
            ctx.ok(e <= tol, f"{fn}{i} npts={npt} ell={ell}: points differ by {e} radii between units: {p} {q}", {**rep, "args": i}, key=fn, fn=fn, mode="array")
        s, t = instr.call("karney.geodesic_area", la.tolist(), lo.tolist(), ell.obj()), instr.call("karney.geodesic_area", ra.tolist(), ro.tolist(),
                                                                                                  ell.obj(), deg=False)
        L = LD(ell.a)
        half = 2 * np.pi * _c2(ell)  # turns of half a circle fold either way
        d = s[0] - t[0]
        ctx.ok(abs(d - half * np.rint(d / half)) < 1e-10 * L * L and abs(s[1] - t[1]) < 1e-12 * L, f"geodesic_area: {s} degrees, {t} radians", rep, key="area",
               fn="karney.geodesic_area", mode="array")
