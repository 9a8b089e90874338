"""C23 Line of sight from above onto the ellipsoid."""
import numpy as np

from .. import gen, geo
from ..geo import EPS, LD


def truth(a, ell, deg):
    """entry point of the ray into the ellipsoid: distance, point, how clearly it hits"""
    la0, lo0, h0, az, tilt = a
    P = geo.fwd(la0, lo0, h0, ell, deg)
    sa, ca = geo.trig(az, deg)
    st, ct = geo.trig(tilt, deg)
    e, n, u = st * sa, st * ca, -ct
    rows = geo.enu_rows(la0, lo0, deg)
    d = tuple(e * rows[0][k] + n * rows[1][k] + u * rows[2][k] for k in range(3))
    # scale to the unit sphere
    p = (P[0] / ell.la, P[1] / ell.la, P[2] / ell.lb)
    w = (d[0] / ell.la, d[1] / ell.la, d[2] / ell.lb)
    A, B = geo.dot(w, w), geo.dot(p, w)
    # |p|^2 - 1, without cancellation for low altitudes: the foot point is on the unit sphere
    nrm = geo.fwd(la0, lo0, 0 * h0, ell, deg)
    s = (nrm[0] / ell.la, nrm[1] / ell.la, nrm[2] / ell.lb)
    up = (rows[2][0] / ell.la, rows[2][1] / ell.la, rows[2][2] / ell.lb)
    C = h0 * (2 * geo.dot(s, up) + h0 * geo.dot(up, up))
    disc = B * B - A * C
    q = disc / A  # squared half chord on the unit sphere
    with np.errstate(all="ignore"):
        t = C / (-B + np.sqrt(np.maximum(disc, 0)))
    t = np.where(C == 0, 0, t)
    return t, tuple(P[k] + t * d[k] for k in range(3)), q, B, geo.norm(P)


def run(ctx):
    ctx.rule = ("observers from the ground (0 m) to 50 radii anywhere incl. poles; azimuth over two turns; tilt 0 to 180 deg "
                "incl. nadir, near the horizon, upward; default, named, spherical, random ellipsoids; oracle: ray and "
                "ellipsoid intersection in extended precision")
    ctx.assumptions = ["directions within rounding of the horizon may or may not hit"]
    rng = ctx.rng
    N = ctx.n(4000, 40000)
    sc = ctx.n(100, 600)
    modes = ("array", "array2d", "scalar", "stdlib", "npscalar")
    for ell in gen.ells(ctx, ctx.n(3, 12), ctx.n(3, 40), flat=0.5):
        for deg in (True, False):
            cv = (lambda x: x) if deg else gen.rad
            la, lo = gen.lat(rng, N), gen.lon(rng, N)
            h = np.abs(gen.alt(rng, N, ell.a, low=0))
            az = gen.azimuth(rng, N)
            az = np.where(rng.random(N) < .2, az - 360, az)
            horizon = np.degrees(np.arcsin(np.clip(ell.a / (ell.a + h), 0, 1)))
            tilt = horizon * rng.uniform(0, 1, N)
            k = rng.random(N)
            tilt = np.where(k < .1, 0.0, tilt)
            tilt = np.where((k > .1) & (k < .3), np.clip(horizon + 10 ** rng.uniform(-6, 1, N) * rng.choice([-1, 1], N), 0, 180), tilt)
            tilt = np.where((k > .3) & (k < .4), rng.uniform(0, 180, N), tilt)
            tilt = np.where((k > .4) & (k < .45), rng.choice([90., 180., 45., 30.], N), tilt)
            tilt = np.where((k > .45) & (k < .5), -tilt, tilt)
            tilt = np.where((k > .5) & (k < .56), gen.near_quarters(rng, N, 2), tilt)
            tilt = np.where((k > .56) & (k < .58), gen._tiny(rng, N), tilt)
            tilt = np.where((k > .58) & (k < .59), -0.0, tilt)
            az = np.where((k > .59) & (k < .6), -0.0, az)

            def judge(a, o, deg=deg, ell=ell):
                t, Q, q, B, r = truth(a, ell, deg)
                k = r / ell.la
                noise = 64 * EPS * (k * k + k * (1 + geo.sizes(a[0], a[1], a[3], a[4], deg=deg))) * (1 + 4 * ell.f)
                clear_hit = (q > 4 * noise)
                clear_miss = (q < -4 * noise)
                sq = np.sqrt(np.maximum(q, noise))
                tol = 8 * EPS * (r + ell.la) + ell.la * noise / sq * LD("0.5")
                d = np.asarray(o[2], LD)
                away = B > 0
                expect_nan = clear_miss | (clear_hit & away & (-t > 2 * tol))
                # an observer on the surface looking down hits at once; how round-off falls must not matter
                here = (a[2] == 0) & (2 * tol < LD("2e-13") * ell.la)
                expect = clear_hit & ~away & ((t > 2 * tol) | here)
                got = geo.fwd(o[0], o[1], 0 * t, ell, deg)
                allnan = np.isnan(o[0]) & np.isnan(o[1]) & np.isnan(d)
                anynan = np.isnan(o[0]) | np.isnan(o[1]) | np.isnan(d)
                return [("slant range", np.abs(d - t), np.where(expect, tol, np.inf)),
                        ("ground point", geo.dist(got, Q), np.where(expect, 2 * tol + geo.inverse_tol(ell, *Q), np.inf)),
                        ("NaN when the ellipsoid is missed", np.where(allnan, 0, 1), np.where(expect_nan, 0, np.inf)),
                        ("range not negative", np.where(d < 0, 1, 0), 0),
                        ("NaN altogether or not at all", np.where(allnan == anynan, 0, 1), 0)]
            ctx.observe("los.lookAtSpheroid", [cv(la), cv(lo), h, cv(az), cv(tilt)], {"deg": deg}, judge, ell=ell,
                        scalars=sc, modes=modes)
            if deg:
                ctx.observe("los.lookAtSpheroid", [np.round(v) for v in (la, lo, h, az, tilt)], {"deg": True}, judge, ell=ell,
                            scalars=40, modes=("int",))
