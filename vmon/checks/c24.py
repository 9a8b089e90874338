"""C24 Ellipsoid catalogue, derived parameters, caches."""
import copy
import pickle

import numpy as np

from .. import gen, geo, geod, instr, table
from ..catalogue import AXES
from ..geo import EPS, LD


def derived_ok(ctx, e, what):
    a, b = LD(e.semimajor_axis), LD(e.semiminor_axis)
    f, n = (a - b) / a, (a - b) / (a + b)
    ecc = np.sqrt((a - b) * (a + b)) / a
    for lab, got, want, tol in (("flattening", e.flattening, f, 4 * EPS * f + LD(1e-300)),
                                ("third flattening", e.thirdflattening, n, 4 * EPS * n + LD(1e-300)),
                                # from f: sqrt(2 f - f^2)
                                ("eccentricity", e.eccentricity, ecc, 8 * EPS * ecc + LD(1e-300))):
        ctx.ok(abs(LD(got) - want) <= tol, f"{what}: {lab} {got!r}, from its axes {float(want)!r}",
               {"ellipsoid": what, "axes": [float(a), float(b)]}, key=f"derived {lab}", fn="Ellipsoid", mode="derived")


def run(ctx):
    ctx.rule = ("every catalogue name; random ellipsoids; random histories of named/own/look-alike ellipsoids (same a, same b, same f) "
                "with caches cleared at random points, geodesics judged against GeographicLib (pyproj) at every step")
    E = instr.api("ellipsoid.Ellipsoid")
    clear = instr.api("ellipsoid.clear_ellipsoid_caches")
    rng = ctx.rng

    for name, (a, b) in AXES.items():
        try:
            e = E.from_name(name)
        except Exception as x:  # noqa: BLE001
            ctx.violation(f"Ellipsoid.from_name({name!r}) raised {type(x).__name__}: {x}", {"name": name}, key=name)
            continue
        good = abs(e.semimajor_axis - a) <= 1e-9 * a and abs(e.semiminor_axis - b) <= 1e-9 * b
        if name == "io" and not good and abs(e.semimajor_axis - 1829.7) < 1e-9 and abs(e.semiminor_axis - 1815.8) < 1e-9:
            ctx.count("Ellipsoid.from_name", "catalogue")
            ctx.finding("C24-io-axes-in-kilometres", "Ellipsoid.from_name('io') has axes 1829.7, 1815.8: kilometres, not metres")
        else:
            ctx.ok(good, f"Ellipsoid.from_name({name!r}): axes {e.semimajor_axis!r}, {e.semiminor_axis!r}; published {a}, {b} m",
                   {"name": name}, key=name, fn="Ellipsoid.from_name", mode="catalogue")
        derived_ok(ctx, e, name)
        ctx.ok(e.model == name and isinstance(e.name, str) and e.name, f"{name}: model {e.model!r}, name {e.name!r}", key="labels",
               fn="Ellipsoid.from_name", mode="labels")
        ctx.ok(E.from_name(name) is e, f"from_name({name!r}) returns different objects", key="singleton",
               fn="Ellipsoid.from_name", mode="singleton")
        ctx.ok(type(e) is E and pickle.loads(pickle.dumps(e)) == e and copy.deepcopy(e) == e, f"{name}: copies differ", key="copies",
               fn="Ellipsoid", mode="copies")
        ctx.distinct.add(("name", name))
    for k in E.models:
        derived_ok(ctx, E.from_name(k), k)
    ctx.samples.append({"name": "wgs84", "axes": [E.from_name("wgs84").semimajor_axis, E.from_name("wgs84").semiminor_axis]})

    for bad in ("", "WGS84", "earth", "wgs84 ", "none"):
        try:
            E.from_name(bad)
            ctx.violation(f"from_name({bad!r}) accepted", {"name": bad}, key="bad name")
        except KeyError:
            ctx.ok(True, "", fn="Ellipsoid.from_name", mode="unknown name")

    class Mine(E):
        pass
    m = Mine.from_name("mars")
    ctx.ok(type(m) is Mine and m.semimajor_axis == E.from_name("mars").semimajor_axis and (m.model, m.name) == ("mars", E.from_name("mars").name) and type(E.from_name("mars")) is E,
           "from_name of a subclass", key="subclass", fn="Ellipsoid.from_name", mode="subclass")

    for _ in range(ctx.n(500, 5000)):
        e = gen.random_ell(rng, 0.5)
        o = E(e.a, e.b)
        ctx.distinct.add((e.a, e.b))
        derived_ok(ctx, o, repr(e))
        ctx.ok(o.semimajor_axis == e.a and o.semiminor_axis == e.b and o == E(e.a, e.b), f"{e}: axes changed", key="axes",
               fn="Ellipsoid", mode="construct")
        g = float(o.flattening), float(o.thirdflattening), float(o.eccentricity)
        p = E(e.a, e.b, "n", "m", *g)
        ctx.ok((p.flattening, p.thirdflattening, p.eccentricity, p.name, p.model) == (*g, "n", "m"), f"{e}: explicit parameters changed",
               key="explicit", fn="Ellipsoid", mode="construct")

    # histories: nothing used before may influence what an ellipsoid gives now
    steps = 0
    for h in range(ctx.n(60, 1500)):
        base = gen.random_ell(rng, 0.02)
        f = float(base.f)
        pool = [("wgs84", None), (None, None), (str(rng.choice([m for m in AXES if m != "io"])), None),
                ("ab", (base.a, base.b)), ("ab", (base.a, base.a * (1 - f * (1 + 1e-6)))),
                ("ab", (base.a * (1 + 1e-9), base.a * (1 + 1e-9) * (1 - f))), ("ab", (base.a * 2, base.b * 2)),
                ("ab", (base.a, base.a)), ("ab", (base.a * 3, base.a * 3)), ("ab", (base.b / (1 - min(0.02, f * 2)), base.b)),
                ("re", (base.a * 1.5, base.b * 1.25))]
        own = E(6378137.0, 6356752.0)
        hist = []
        for _ in range(12):
            kind, ax = pool[int(rng.integers(0, len(pool)))]
            if kind == "ab":
                ell = E(*ax)
            elif kind == "re":
                # an object given new parameters altogether
                if ax[1] > ax[0]:
                    continue
                own.__init__(*ax)
                ell = own
            else:
                ell = None if kind is None else E.from_name(kind)
            if rng.random() < 0.15:
                clear()
                hist.append("clear")
            a, b = (ell.semimajor_axis, ell.semiminor_axis) if ell is not None else AXES["wgs84"]
            if (a - b) / a > 0.02:
                continue
            la1, lo1, la2, lo2 = rng.uniform(-80, 80), rng.uniform(-180, 180), rng.uniform(-80, 80), rng.uniform(-180, 180)
            G = geod._geod(a, b)
            op = int(rng.integers(0, 4))
            hist.append([kind, a, b, op])
            steps += 1
            if op == 0:
                s = instr.call("karney.geodesic_inverse", la1, lo1, la2, lo2, ell=ell)
                az1, _, want = G.inv(lo1, la1, lo2, la2)
                err, tol = abs(s[0] - want), 2e-8 * max(a / 6.4e6, 1e-3) + 4e-16 * want
                if (lo2 - lo1) % 360 > 170 and (lo2 - lo1) % 360 < 190:
                    tol = tol * 10
            elif op == 1:
                s = instr.call("karney.geodesic_direct", la1, lo1, 33.0, 0.3 * a, ell=ell)
                q = G.fwd(lo1, la1, 33.0, 0.3 * a)
                err = abs(s[0] - q[1]) + abs(float(geo.wrap(s[1] - q[0])) * np.cos(np.radians(q[1])))
                tol = 2e-11
            elif op == 2:
                s = instr.call("geodetic2ecef", la1, lo1, 1000.0, ell=ell)
                from ..core import Ell
                err = float(geo.dist(s, geo.fwd(LD(la1), LD(lo1), LD(1000), Ell(a=a, b=b))))
                tol = 1e-15 * 8 * a
            else:
                s = instr.call("vincenty.vdist", la1, lo1, max(-80, min(80, la1 + rng.uniform(-20, 20))), lo1 + rng.uniform(1, 20), ell=ell)
                continue
            if hist and len(ctx.samples) < 4:
                ctx.samples.append({"history": hist[-1], "result": [float(x) for x in s[:3]]})
            ctx.distinct.add((h, steps))
            if not ctx.ok(err <= tol, f"after {hist}: {('geodesic_inverse', 'geodesic_direct', 'geodetic2ecef')[op]} at "
                          f"{(la1, lo1, la2, lo2)} off by {err:.3g} > {tol:.3g}", {"history": hist, "args": [la1, lo1, la2, lo2]},
                          key=f"history {op}", fn="cache history", mode="history"):
                break
    twins(ctx, rng, E, clear)
    ctx.stats["history steps"] = steps
    before = [E.from_name(k) for k in AXES]
    clear()
    after = [E.from_name(k) for k in AXES]
    ctx.ok(all(x == y for x, y in zip(before, after)), "ellipsoids differ after clear_ellipsoid_caches", key="clear",
           fn="clear_ellipsoid_caches", mode="relation")


def twins(ctx, rng, E, clear):
    """an ellipsoid almost the same, used just before, leaves no trace in the answer"""
    for rep in range(ctx.n(12, 300)):
        base = gen.random_ell(rng, 0.02)
        d = 10.0 ** rng.uniform(-13, -3)
        twin = {0: (base.a * (1 + d), base.b * (1 + d)), 1: (base.a * (1 + d), base.b), 2: (base.a, base.b * (1 - d)),
                3: (base.a, base.b + d * (base.a - base.b))}[int(rng.integers(0, 4))]
        if twin[1] > twin[0]:
            continue
        for f in table.build():
            if not f.ell:
                continue
            args = f.generate(rng, 6, base)
            kw = {**f.kw, **table.time_kw(f)}
            clear()
            want = table.evaluate(f, args, {**kw, "ell": E(base.a, base.b)})
            clear()
            table.evaluate(f, args, {**kw, "ell": E(*twin)})
            got = table.evaluate(f, args, {**kw, "ell": E(base.a, base.b)})
            good = all(np.array_equal(x, y, equal_nan=True) for x, y in zip(want, got))
            ctx.ok(good, f"{f} with axes {(base.a, base.b)} gives {[v.tolist() for v in got]} after the same call with axes {twin}, {[v.tolist() for v in want]} "
                   "without", {"function": f.path, "args": [v.tolist() for v in args], "kwargs": str(kw), "axes": [base.a, base.b], "twin": list(twin)},
                   key=f"twin {f}", fn=f.path, mode="twin")
