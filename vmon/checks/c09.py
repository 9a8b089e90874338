"""C09 The ellipsoid given is the ellipsoid used, everywhere inside a conversion."""
import warnings

import numpy as np

from .. import gen, instr, table
from ..catalogue import AXES
from ..core import Ell
from .c15 import _c2


def run(ctx):
    warnings.simplefilter("ignore")
    ctx.rule = ("every public function with an ell argument: all lengths (axes included) multiplied by a power of two give the same angles "
                "and lengths multiplied by it; ell left out = None = WGS-84 by name = its axes; position, keyword, label make no difference")
    ctx.assumptions = ["fixed thresholds in metres (1 mm in enu2aer, 1e-8 m in ecef2geodetic) are granted"]
    rng = ctx.rng
    n = 40
    E = instr.api("ellipsoid.Ellipsoid")
    for rep in range(ctx.n(6, 120)):
        for f in table.build():
            if f.ell:
                one(ctx, f, rng, n, E)
        # no hidden metre anywhere: frame functions without ellipsoid scale too
        for f in table.build():
            if not f.ell and f.scale and "L" in f.kinds and not f.time:
                scaling(ctx, f, Ell(none=True), rng, n, E, 2.0 ** int(rng.integers(-2, 5)), {})
    reached(ctx, rng, E)
    poisoned(ctx, rng, E)


class Poison:
    """while active, the ellipsoid taken when none is given is a small flat one"""

    def __init__(self, E):
        self.E, self.entry, self.obj = E, E.models["wgs84"], E.from_name("wgs84")
        self.old = {k: getattr(self.obj, k) for k in ("semimajor_axis", "semiminor_axis", "flattening", "thirdflattening", "eccentricity")}

    def __enter__(self):
        q = self.E(2.5e6, 2.3e6)
        self.E.models["wgs84"] = {**self.entry, "a": 2.5e6, "b": 2.3e6}
        for k in self.old:
            setattr(self.obj, k, getattr(q, k))
        instr.api("ellipsoid.clear_ellipsoid_caches")()

    def __exit__(self, *a):
        self.E.models["wgs84"] = self.entry
        for k, v in self.old.items():
            setattr(self.obj, k, v)
        instr.api("ellipsoid.clear_ellipsoid_caches")()


def poisoned(ctx, rng, E):
    """with an ellipsoid given, what the default ellipsoid is makes no difference; without, it makes one"""
    for rep in range(ctx.n(2, 30)):
        for f in table.build():
            if not f.ell:
                continue
            fmax = 0.02 if "geodesic" in f.path or "vincenty" in f.path else 0.1
            e = gen.random_ell(rng, fmax)
            args = f.generate(rng, 12, e)
            kw = {**f.kw, **table.time_kw(f)}
            if f.deg and rng.random() < .5:
                kw["deg"], args = False, f.to_rad(args)
            out = []
            for active in (False, True):
                if active:
                    with Poison(E):
                        o = table.evaluate(f, args, {**kw, "ell": E(e.a, e.b)})
                else:
                    o = table.evaluate(f, args, {**kw, "ell": E(e.a, e.b)})
                out.append(o)
            good = all(np.array_equal(x, y, equal_nan=True) for x, y in zip(*out))
            ctx.ok(good, f"{f} with ell={e} depends on what the default ellipsoid is: {[float(v[0]) for v in out[0]]}, with another default "
                   f"{[float(v[0]) for v in out[1]]}", {"function": f.path, "args": [v.tolist() for v in args], "kwargs": str(kw), "ell": e.spec()},
                   key=f"{f} default", fn=f.path, mode="other default")
        m = int(rng.integers(3, 8))
        la, lo = rng.uniform(-60, 60) + rng.uniform(-15, 15, m), rng.uniform(-180, 180) + rng.uniform(-15, 15, m)
        e = gen.random_ell(rng, 0.02)
        i = [float(v) for v in (la[0], lo[0], la[1], lo[1])]
        for fn, a, k in (("lox.meanm", (la, lo), {}), ("karney.geodesic_area", (la, lo), {}), ("karney.geodesic_line", i, {"npts": 4}), ("vincenty.track2", i, {"npts": 4})):
            x = instr.call(fn, *a, ell=E(e.a, e.b), **k)
            with Poison(E):
                y = instr.call(fn, *a, ell=E(e.a, e.b), **k)
            ctx.ok(np.array_equal(np.asarray(x, float), np.asarray(y, float), equal_nan=True),
                   f"{fn} with ell={e} depends on what the default ellipsoid is: {x}, with another default {y}",
                   {"function": fn, "args": str(a), "ell": e.spec()}, key=f"{fn} default", fn=fn, mode="other default")


def scaling(ctx, f, ell, rng, n, E, s, kw):
    tame = bool(rng.random() < .5)
    args = f.generate(rng, n, ell, tame=tame)
    ok = table.ecef_usable(f, args, ell)
    if args:
        args = [v[ok] for v in args]
        if not len(args[0]):
            return
    k1, k2 = dict(kw), dict(kw)
    deg = not (f.deg and rng.random() < .4)
    if not deg:
        k1["deg"] = k2["deg"] = False
        args = f.to_rad(args)
    if f.ell:
        k1["ell"], k2["ell"] = E(ell.a, ell.b), E(ell.a * s, ell.b * s)
    rep = {"function": f.path, "kwargs": str(f.kw), "ell": [ell.a, ell.b], "scale": s}
    try:
        o1, o2 = table.evaluate(f, args, k1), table.evaluate(f, f.scaled(args, s), k2)
    except Exception as e:  # noqa: BLE001
        ctx.count(f.path, "scaled")
        ctx.violation(f"{f} ell={ell} scale={s}: {type(e).__name__}: {e}", {**rep, "args": [v.tolist() for v in args]}, key=f"{f} raise")
        return
    a = args or [np.array([ell.a])]
    ctx._tally(f.path, "scaled", a, o2, f.compare(args, o1, o2, ell, deg, s2=s), {**rep, "unscaled": [float(v[0]) for v in o1]}, f"scale {s}", ell, {**f.kw, "deg": deg})


def one(ctx, f, rng, n, E):
    kw = {**f.kw, **table.time_kw(f)}
    fmax = 0.02 if "geodesic" in f.path or "vincenty" in f.path else 0.1
    if f.scale and not f.time:  # the rotation of the Earth does not care about metres either, but see below
        for ell in (Ell(name="wgs84"), gen.random_ell(rng, fmax)):
            scaling(ctx, f, ell, rng, n, E, 2.0 ** int(rng.choice([-3, -2, -1, 1, 2, 3, 5])), kw)
    elif f.time and f.scale:
        scaling(ctx, f, gen.random_ell(rng, fmax), rng, n, E, 2.0, kw)
    # which ways to say WGS-84, and how to hand an ellipsoid over
    w = E.from_name("wgs84")
    ell = Ell(none=True)
    args = f.generate(rng, 12, ell)
    if f.deg and rng.random() < .4:
        kw["deg"], args = False, f.to_rad(args)
    ref = None
    for label, k in (("keyword", {"ell": w}), ("omitted", {}), ("None", {"ell": None}),
                     ("own axes", {"ell": E(w.semimajor_axis, w.semiminor_axis)}),
                     ("other label", {"ell": E(w.semimajor_axis, w.semiminor_axis, "nothing", "mars")})):
        same(ctx, f, label, args, {**kw, **k}, ref)
        if ref is None:
            ref = table.evaluate(f, args, {**kw, **k})
    # in the documented place: after the coordinates (and the time)
    ell = gen.random_ell(rng, fmax)
    args = f.generate(rng, 6, ell)
    o = E(ell.a, ell.b)
    kw.pop("deg", None)
    ref = table.evaluate(f, args, {**kw, "ell": o})
    pos = [kw.pop(f.time)] if f.time else []
    same(ctx, f, "position", args, kw, ref, [*pos, o])
    kw = {**f.kw, **table.time_kw(f)}
    e = E.from_name(str(rng.choice([m for m in AXES if m not in ("io", "wgs84")])))
    if f.path.startswith(("vincenty", "karney")) and e.flattening > .02:
        return
    args = f.generate(rng, 12, Ell(a=e.semimajor_axis, b=e.semiminor_axis))
    if f.deg and rng.random() < .4:
        kw["deg"], args = False, f.to_rad(args)
    ref = table.evaluate(f, args, {**kw, "ell": e})
    same(ctx, f, "own label", args, {**kw, "ell": E(e.semimajor_axis, e.semiminor_axis, "x", "wgs84")}, ref)
    sub = type("Mine", (E,), {})(e.semimajor_axis, e.semiminor_axis)
    same(ctx, f, "subclass", args, {**kw, "ell": sub}, ref)


def same(ctx, f, label, args, kw, ref, pos=()):
    try:
        o = table.evaluate(f, args, kw, pos)
    except Exception as e:  # noqa: BLE001
        ctx.count(f.path, label)
        ctx.violation(f"{f} [{label}]: {type(e).__name__}: {e}", {"function": f.path, "args": [v.tolist() for v in args], "kwargs": str(kw)},
                      key=f"{f} {label}")
        return
    if ref is None:
        return
    good = len(o) == len(ref) and all(np.array_equal(x, y, equal_nan=True) for x, y in zip(o, ref))
    ctx.ok(good, f"{f}: ellipsoid by {label} gives {[float(v[0]) for v in o]}, else {[float(v[0]) for v in ref]}",
           {"function": f.path, "args": [v.tolist() for v in args], "kwargs": str(kw)}, key=f"{f} {label}", fn=f.path, mode=label)


def reached(ctx, rng, E):
    """collections, and sensitivity: another flattening changes what depends on it"""
    for _ in range(ctx.n(40, 800)):
        ell = gen.random_ell(rng, 0.02)
        s = 2.0 ** int(rng.integers(-3, 4))
        e1, e2 = E(ell.a, ell.b), E(ell.a * s, ell.b * s)
        m = int(rng.integers(3, 8))
        la, lo = rng.uniform(-60, 60) + rng.uniform(-15, 15, m), rng.uniform(-180, 180) + rng.uniform(-15, 15, m)
        rep = {"lat": la.tolist(), "lon": lo.tolist(), "axes": [ell.a, ell.b], "scale": s}
        x, y = instr.call("lox.meanm", la, lo, e1), instr.call("lox.meanm", la, lo, e2)
        ctx.ok(np.allclose(x, y, rtol=0, atol=1e-10), f"meanm depends on the size of the ellipsoid: {x} {y}", rep, key="meanm", fn="lox.meanm",
               mode="scaled")
        x, y = instr.call("karney.geodesic_area", la, lo, e1), instr.call("karney.geodesic_area", la, lo, e2)
        d = x[0] - y[0] / s / s
        half = 2 * np.pi * _c2(ell)  # turns of half a circle fold either way
        ctx.ok(abs(d - half * np.rint(d / half)) < 1e-11 * ell.a**2 and abs(x[1] - y[1] / s) < 1e-12 * ell.a,
               f"geodesic_area does not scale: {x}, {y} at scale {s}", rep, key="area", fn="karney.geodesic_area", mode="scaled")
        i = [float(v) for v in (la[0], lo[0], la[1], lo[1])]
        for fn, tol in (("karney.geodesic_line", 1e-9), ("vincenty.track2", 1e-8)):
            p, q = instr.call(fn, *i, ell=e1, npts=4), instr.call(fn, *i, ell=e2, npts=4)
            good = np.allclose(np.asarray(p[0]), np.asarray(q[0]), rtol=0, atol=tol) and np.allclose(np.asarray(p[1]), np.asarray(q[1]), rtol=0, atol=tol)
            ctx.ok(good, f"{fn} depends on the size of the ellipsoid: {p} {q}", {**rep, "args": i}, key=fn, fn=fn, mode="scaled")
