"""C11 auxiliary latitudes follow their definitions."""
import numpy as np

from .. import aux_lat as A
from .. import gen, geo
from ..geo import EPS, LD


def series_tol(fn, ell):
    """truncation of the documented series (coefficients measured, granted with margin)"""
    e2, n, f = ell.e2, np.abs(ell.n), ell.f
    return {
        "geodetic2conformal": LD(0), "geodetic2parametric": LD(0), "parametric2geodetic": LD(0),
        "conformal2geodetic": LD("0.18") * e2**5, "isometric2geodetic": LD("0.18") * e2**5,
        "geodetic2rectifying": LD("1.35") * n**5, "rectifying2geodetic": LD("8.5") * n**5,
        "geodetic2authalic": LD("0.13") * e2**4 * (1 + e2), "authalic2geodetic": LD("0.15") * e2**4 * (1 + e2),
    }[fn]


def run(ctx):
    ctx.rule = ("latitudes (poles, equator, +-0, tiny, integers, random) on default, named, spherical and random "
                "ellipsoids (f <= 0.1); oracle: definitions as closed forms or Gauss quadrature in extended precision")
    ctx.assumptions = ["truncation of the documented series is granted: conformal e^10, rectifying n^5, authalic e^8, "
                       "geoc2geod f^3"]
    rng = ctx.rng
    N = ctx.n(3000, 30000)
    sc = ctx.n(80, 500)
    modes = ("array", "array2d", "scalar", "stdlib", "npscalar")
    fwd = {"geodetic2conformal": A.conformal, "geodetic2rectifying": A.rectifying, "geodetic2authalic": A.authalic,
           "geodetic2parametric": A.parametric}
    inv = {"conformal2geodetic": A.conformal, "rectifying2geodetic": A.rectifying, "authalic2geodetic": A.authalic,
           "parametric2geodetic": A.parametric}
    for ell in gen.ells(ctx, ctx.n(3, 12), ctx.n(3, 40), flat=0.2):
        for deg in (True, False):
            u = geo.unit_of(deg)
            lat = gen.lat(rng, N)
            L = lat if deg else gen.rad(lat)
            kw = {"deg": deg}
            base = 12 * EPS

            for fn, truth in fwd.items():
                def judge(a, o, truth=truth, fn=fn, deg=deg, ell=ell, u=u):
                    phi = geo.r(a[0], deg)
                    t = truth(phi, ell)
                    tol = base + series_tol(fn, ell)
                    return [("latitude", np.abs(np.asarray(o[0], LD) * u - t), tol)]
                ctx.observe(fn, [L], kw, judge, ell=ell, scalars=sc, modes=modes)
                ctx.observe(fn, [np.round(lat)], {"deg": True},
                            lambda a, o, j=judge: j(a, o, deg=True, u=geo.D2R), ell=ell,
                            scalars=20, modes=("int",))
            for fn, truth in inv.items():
                def judge(a, o, truth=truth, fn=fn, deg=deg, ell=ell, u=u):
                    phi = geo.r(a[0], deg)
                    back = truth(np.asarray(o[0], LD) * u, ell)
                    return [("latitude", np.abs(back - phi), base + series_tol(fn, ell) * (1 + 3 * ell.f))]
                ctx.observe(fn, [L], kw, judge, ell=ell, scalars=sc, modes=modes)

            # isometric latitude: infinite at the poles (within 1e-9 rad of them either is accepted)
            def j_iso(a, o, deg=deg, ell=ell, u=u):
                phi = geo.r(a[0], deg)
                c = np.abs(np.cos(phi))
                t = A.isometric(phi, ell)
                got = np.asarray(o[0], LD) * u
                tol = base * (1 + np.abs(t)) + 4 * EPS / np.maximum(c, LD("1e-30"))
                at_pole = c < LD("1.1e-9")
                sane = np.where(np.isinf(got) & (np.sign(got) == np.sign(phi)), 0,
                                np.where(np.abs(got) > 19, np.where(np.sign(got) == np.sign(phi), 0, np.inf), np.inf))
                return [("isometric latitude", np.where(at_pole, 0, np.abs(got - t)),
                         np.where(at_pole, np.inf, tol)),
                        ("pole", np.where(at_pole, sane, 0), np.where(at_pole, 0, np.inf))]
            ctx.observe("geodetic2isometric", [L], kw, j_iso, ell=ell, scalars=sc, modes=modes)

            psi = np.degrees(rng.uniform(-12, 12, N))
            psi = np.where(rng.random(N) < .1, np.degrees(gen.length(rng, N, -6, 1.5)), psi)
            psi = np.where(rng.random(N) < .03, rng.choice([-np.inf, np.inf], N), psi)
            PSI = psi if deg else gen.rad(psi)

            def j_iso_inv(a, o, deg=deg, ell=ell, u=u):
                chi = A.gd(geo.r(a[0], deg))
                back = A.conformal(np.asarray(o[0], LD) * u, ell)
                return [("latitude", np.abs(back - chi), base + series_tol("isometric2geodetic", ell) * (1 + 3 * ell.f))]
            ctx.observe("isometric2geodetic", [PSI], kw, j_iso_inv, ell=ell, scalars=sc, modes=modes)

            # geocentric latitude of points above and on the ellipsoid
            h = gen.alt(rng, N, ell.a, -0.1, 20)

            def j_gc(a, o, deg=deg, ell=ell, u=u):
                t = A.geocentric(geo.r(a[0], deg), a[1], ell)
                return [("geocentric latitude", np.abs(np.asarray(o[0], LD) * u - t), base)]
            for fn in ("geodetic2geocentric", "geod2geoc"):
                ctx.observe(fn, [L, h], kw, j_gc, ell=ell, scalars=sc, modes=modes)

            def j_gc_inv(a, o, deg=deg, ell=ell, u=u):
                psi_ = geo.r(a[0], deg)
                back = A.geocentric(np.asarray(o[0], LD) * u, a[1], ell)
                t = LD("0.2") * (1 + 3 * ell.e2) * ell.e2**3 * np.abs(a[1]) * ell.la / (ell.la + a[1]) ** 2
                t = t * np.where(a[1] < 0, 2, 1) * (LD("0.6") * ell.e2**2) ** 5  # six steps of a fixed-point iteration
                return [("geodetic latitude", np.abs(back - psi_), base + t)]
            ctx.observe("geocentric2geodetic", [L, h], kw, j_gc_inv, ell=ell, scalars=sc, modes=modes)

            dist = ell.a * 10 ** rng.uniform(-0.02, 1.5, N)

            def j_g2g(a, o, deg=deg, ell=ell, u=u):
                s, c = geo.trig(a[0], deg)
                x, z = a[1] * c, a[1] * s
                b = geo.r(a[0], deg)
                for _ in range(40):
                    Nn = ell.la / np.sqrt(1 - ell.e2 * np.sin(b) ** 2)
                    b = np.arctan2(z + ell.e2 * Nn * np.sin(b), x)
                k = ell.la / a[1]
                return [("geodetic latitude", np.abs(np.asarray(o[0], LD) * u - b),
                         base + LD("1.5") * ell.f**3 * (1 + 2 * ell.f) * np.maximum(k, k**4))]
            ctx.observe("geoc2geod", [L, dist], kw, j_g2g, ell=ell, scalars=sc, modes=modes)
