"""C12 radii of curvature and auxiliary spheres."""
import numpy as np

from .. import aux_lat as A
from .. import gen, geo, instr
from ..core import Ell
from ..geo import EPS, LD


def run(ctx):
    from pyproj import Geod

    ctx.rule = ("latitudes incl. poles and equator, every named ellipsoid, spheres and random ellipsoids (f <= 0.1); "
                "oracle: the textbook expressions in extended precision, quadrature for the meridian, pyproj for the "
                "azimuth in Euler's formula")
    ctx.assumptions = ["the rectifying radius is an approximation (n^4)"]
    rng = ctx.rng
    N = ctx.n(3000, 30000)
    sc = ctx.n(80, 500)
    modes = ("array", "array2d", "scalar", "stdlib", "npscalar")
    for ell in gen.ells(ctx, ctx.n(3, 12), ctx.n(3, 40), flat=0.5):
        def M_(phi, ell=ell):
            return ell.la * (1 - ell.e2) / (1 - ell.e2 * np.sin(phi) ** 2) ** LD(1.5)

        def N_(phi, ell=ell):
            return ell.la / np.sqrt(1 - ell.e2 * np.sin(phi) ** 2)

        def R_(phi, ell=ell):
            p = geo.fwd(phi, 0 * phi, 0 * phi, ell, False)
            return geo.norm(p)
        for deg in (True, False):
            lat = gen.lat(rng, N)
            L = lat if deg else gen.rad(lat)

            def j(truth, deg=deg, ell=ell):
                return lambda a, o: [("radius", np.abs(np.asarray(o[0], LD) - truth(geo.r(a[0], deg))),
                                      24 * EPS * ell.la)]
            par = lambda p, N_=N_: N_(p) * np.cos(p)  # noqa: E731
            for fn, t in (("rcurve.meridian", M_), ("rcurve.transverse", N_), ("rcurve.parallel", par),
                          ("rcurve.geocentric_radius", R_),
                          ("rsphere.curve", lambda p, M_=M_, N_=N_: (M_(p) + N_(p)) / 2)):
                ctx.observe(fn, [L], {"deg": deg}, j(t), ell=ell, scalars=sc, modes=modes)
            ctx.observe("rsphere.curve", [L], {"deg": deg, "method": "norm"},
                        j(lambda p, M_=M_, N_=N_: np.sqrt(M_(p) * N_(p))), ell=ell, scalars=sc, modes=modes)
            ctx.observe("rcurve.transverse", [np.round(lat)], {"deg": True}, j(N_, deg=True), ell=ell, scalars=20,
                        modes=("int",))
            # Euler's radius of curvature in the direction of the second point, at the middle latitude
            g = Geod(a=ell.a, b=ell.b)
            n2 = ctx.n(300, 4000)
            la1, lo1 = np.degrees(np.arcsin(rng.uniform(-.999, .999, n2))), rng.uniform(-180, 180, n2)
            la2 = np.clip(la1 + rng.uniform(-60, 60, n2), -89.9, 89.9)
            lo2 = lo1 + rng.uniform(-60, 60, n2)
            k = rng.random(n2)  # along the equator, a meridian, a parallel; from a pole; over the antimeridian; very close; the same
            la1 = np.where(k < .1, rng.choice([0.0, -0.0], n2), np.where((k > .3) & (k < .35), rng.choice([90.0, -90.0], n2), la1))
            la2 = np.where((k < .07) | ((k > .2) & (k < .25)), la1, np.where((k > .3) & (k < .35), np.abs(la2) * np.sign(la1), la2))
            lo2 = np.where((k > .1) & (k < .2), lo1, lo2)
            lo1 = np.where((k > .35) & (k < .4), lo1 + 360 * rng.choice([-1, 1], n2), lo1)
            la1, lo1, la2, lo2 = (np.where((k > .4) & (k < .5), np.round(v), v) for v in (la1, lo1, la2, lo2))
            close = (k > .5) & (k < .6)
            la2 = np.where(close, np.clip(la1 + rng.choice([-1, 1], n2) * 10 ** rng.uniform(-9, 0, n2), -89.9, 89.9), la2)
            lo2 = np.where(close, lo1 + rng.choice([-1, 0, 1], n2) * 10 ** rng.uniform(-9, 0, n2), lo2)
            az = g.inv(lo1, la1, lo2, la2)[0]
            sep = g.inv(lo1, la1, lo2, la2)[2] / ell.a

            def j_euler(a, o, deg=deg, ell=ell, az=az, sep=sep, n2=n2):
                if a[0].size != n2:  # a subset was executed: find its azimuths again
                    la1_, lo1_, la2_, lo2_ = ((np.degrees(v.astype(float)) if not deg else v.astype(float)) for v in a)
                    az_, _, d = g.inv(lo1_, la1_, lo2_, la2_)
                    sep_ = d / ell.a
                else:
                    az_, sep_ = az, sep
                mid = geo.r((a[0] + a[2]) / 2, deg)
                s, c = geo.trig(az_, True)
                M, Nn = M_(mid), N_(mid)
                t = M * Nn / (M * s**2 + Nn * c**2)
                got = np.asarray(o[0], LD)
                return [("between the principal radii", np.maximum(np.maximum(np.minimum(M, Nn) - got, got - np.maximum(M, Nn)), 0), ell.la * 24 * EPS),
                        ("radius", np.abs(got - t),
                         ell.la * (24 * EPS + ell.e2 * ell.f**4 * LD("0.1") + ell.e2 * (1 + ell.e2) * LD("2e-8") / np.maximum(sep_, 1e-6))
                         + np.where(sep_ > 1e-3, 0, np.inf))]
            arg = [la1, lo1, la2, lo2] if deg else [gen.rad(v) for v in (la1, lo1, la2, lo2)]
            ctx.observe("rsphere.euler", arg, {"deg": deg}, j_euler, ell=ell, scalars=ctx.n(20, 100),
                        modes=("array", "scalar", "stdlib"))
    # sphere radii of every catalogue entry and of random ellipsoids
    pool = [Ell(none=True)] + [Ell(name=m) for m in gen.named_models()] + \
           [gen.random_ell(rng, rng.choice([.1, .5])) for _ in range(ctx.n(60, 1000))]
    for ell in pool:
        la, lb, f, n, e2 = ell.la, ell.lb, ell.f, np.abs(ell.n), ell.e2
        e = np.sqrt(e2)
        au = la if e == 0 else np.sqrt(la**2 / 2 + lb**2 / 2 * np.arctanh(e) / e)
        rect = A.quarter(ell) * 2 / geo.PI
        exp = [("rsphere.eqavol", {}, (la * la * lb) ** (LD(1) / 3), 8 * EPS),
               ("rsphere.authalic", {}, au, 16 * EPS),
               ("rsphere.rectifying", {}, rect, LD("0.021") * n**4 + 16 * EPS),
               ("rsphere.triaxial", {}, (2 * la + lb) / 3, 8 * EPS),
               ("rsphere.triaxial", {"method": "norm"}, (la * la * lb) ** (LD(1) / 3), 8 * EPS),
               ("rsphere.biaxial", {}, (la + lb) / 2, 8 * EPS),
               ("rsphere.biaxial", {"method": "norm"}, np.sqrt(la * lb), 8 * EPS)]
        calls = [(fn, [], kw, {"ell": ell.spec()}) for fn, kw, _, _ in exp]
        got_std = ctx.worker("stdlib").run(calls)
        for (fn, kw, t, tol), gs in zip(exp, got_std):
            for mode, got in (("scalar", lambda: instr.call(fn, ell=ell.obj(), **kw)), ("stdlib", lambda: gs[1])):
                try:
                    v = float(got())
                except Exception as ex:  # noqa: BLE001
                    v, ex_ = float("nan"), repr(ex)
                ctx._tally(fn, mode, [np.array([ell.a]), np.array([ell.b])], [np.array([v])],
                           [("radius", abs(LD(v) - t) / t if v == v else np.inf, tol)],
                           {"function": fn, "mode": mode, "kwargs": kw, "ell": ell.spec()}, "", ell, kw)
    for fn, args in (("rsphere.curve", (45.0,)), ("rsphere.triaxial", ()), ("rsphere.biaxial", ())):
        for bad in ("", "Mean", "max"):
            try:
                r = instr.call(fn, *args, method=bad)
                ctx.violation(f"{fn}: method {bad!r} accepted -> {r}",
                              {"function": fn, "args": list(args), "kwargs": {"method": bad}}, key="method")
            except ValueError:
                ctx.ok(True, "", fn=fn, mode="refused argument")
