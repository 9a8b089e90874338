"""C18 geodetic <-> geocentric spherical coordinates."""
import numpy as np

from .. import gen, geo
from ..geo import EPS, LD, PI


def run(ctx):
    ctx.rule = ("positions from inside (half way to the evolute) to 50 radii, poles, equator, antimeridian, tiny and integer "
                "values; default, named, spherical, random ellipsoids; oracle: closed-form ECEF positions of arguments and results")
    ctx.assumptions = ["closer to the centre than about 1.5 e^2 a the inverse is not unique and not judged"]
    rng = ctx.rng
    N = ctx.n(4000, 40000)
    sc = ctx.n(100, 600)
    modes = ("array", "array2d", "scalar", "stdlib", "npscalar")

    def sph(la, lo, r, deg):
        s, c = geo.trig(la, deg)
        so, co = geo.trig(lo, deg)
        return r * c * co, r * c * so, r * s

    for ell in gen.ells(ctx, ctx.n(3, 12), ctx.n(3, 40), flat=0.25):
        for deg in (True, False):
            cv = (lambda x: x) if deg else gen.rad
            u = geo.unit_of(deg)
            la, lo = gen.lat(rng, N), gen.lon(rng, N, wide=True)
            h = gen.alt(rng, N, ell.a, low=-0.3)

            def j_fwd(a, o, deg=deg, ell=ell, u=u):
                p = geo.fwd(a[0], a[1], a[2], ell, deg)
                o = [np.asarray(v, LD) for v in o]
                q = sph(o[0], o[1], o[2], deg)
                R = geo.norm(p) + ell.la
                tol = 16 * EPS * R + 4 * EPS * R * geo.sizes(a[0], a[1], deg=deg)
                return [("position", geo.dist(p, q), tol),
                        ("radius", np.abs(o[2] - geo.norm(p)), 12 * EPS * R),
                        ("longitude", np.abs(geo.wrap(o[1] - a[1], deg)), 4 * EPS * (np.abs(a[1]) + 360 * 0)),
                        ("lat in range", np.abs(o[0]), PI / 2 / u * (1 + 2 * EPS))]
            ctx.observe("geodetic2spherical", [cv(la), cv(lo), h], {"deg": deg}, j_fwd, ell=ell, scalars=sc, modes=modes)
            if deg:
                ctx.observe("geodetic2spherical", [np.round(la), np.round(lo), np.round(h)], {"deg": True}, j_fwd, ell=ell,
                            scalars=30, modes=("int",))
            r = ell.a + gen.alt(rng, N, ell.a, low=-0.3)
            k = rng.random(N)
            r = np.where(k < .2, ell.a, np.where(k < .3, ell.b, r))

            def j_inv(a, o, deg=deg, ell=ell, u=u):
                p = sph(a[0], a[1], a[2], deg)
                o = [np.asarray(v, LD) for v in o]
                q = geo.fwd(o[0], o[1], o[2], ell, deg)
                x = a[2] / ell.la
                tol = 40 * EPS * (a[2] + ell.la / np.minimum(x, 1)) + 4 * EPS * a[2] * geo.sizes(a[0], a[1], deg=deg)
                return [("position", geo.dist(p, q), tol),
                        ("longitude", np.abs(geo.wrap(o[1] - a[1], deg)), 4 * EPS * np.abs(a[1])),
                        ("lat in range", np.abs(o[0]), PI / 2 / u * (1 + 2 * EPS))]
            ctx.observe("spherical2geodetic", [cv(la), cv(lo), r], {"deg": deg}, j_inv, ell=ell, scalars=sc, modes=modes)
            if deg:
                ctx.observe("spherical2geodetic", [np.round(la), np.round(lo), np.round(np.maximum(r, 1000))], {"deg": True}, j_inv, ell=ell,
                            scalars=30, modes=("int",))
