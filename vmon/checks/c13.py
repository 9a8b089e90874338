"""C13 Vincenty distance, reckoning and tracks against the true geodesic."""
import numpy as np

from .. import gen, geo, geod, instr
from ..geo import EPS, LD


def trunc_inv(ell):
    """truncation of Vincenty's inverse series, metres (measured 0.094 a f^4 for small f)"""
    return ell.la * (LD("0.13") * ell.f**4 * (1 + 12 * ell.f) + LD("1.5e-12"))


def trunc_dir(ell, s):
    return np.asarray(s, LD) * LD("0.075") * ell.f**4 * (1 + 25 * ell.f) + ell.la * LD("1.5e-12")


def nudge(ell, *lats, deg):
    """points at a pole are treated as 1e-10 rad away from it (documented)"""
    t = LD(0)
    for x in lats:
        t = t + np.where(np.abs(geo.PI / 2 - np.abs(geo.r(x, deg))) < LD("1.05e-10"), ell.la * LD("1.1e-10"), 0)
    return t


def j_vdist(ell, deg):
    def judge(a, o):
        la1, lo1, la2, lo2 = a
        d, az, _ = geod.inverse(la1, lo1, la2, lo2, ell, deg)
        sep = geod.separation(la1, lo1, la2, lo2, deg)
        # reduced precision next to the antipode is documented
        far = sep > geo.PI - (LD("2.6") * ell.f + LD("0.009")) * geo.PI
        tol = trunc_inv(ell) + nudge(ell, la1, la2, deg=deg) + 40 * EPS * (ell.la + d)
        tol = tol + EPS * 6 * ell.la * geo.sizes(lo1, lo2, deg=deg)
        dd = np.abs(np.asarray(o[0], LD) - d)
        side = np.abs(geo.wrap(geod.degs(o[1], deg) - az)) * geo.D2R * ell.la * np.sin(sep)
        at_pole = np.abs(geo.PI / 2 - np.abs(geo.r(la1, deg))) < LD("1e-9")
        full = LD(360) if deg else 2 * geo.PI
        z = np.asarray(o[1], LD)
        return [("distance", dd, np.where(far, np.inf, tol)),
                ("azimuth (sideways error)", side, np.where(far | at_pole, np.inf, tol * 2)),
                # even next to the antipode: a distance between 0 and half the circumference
                ("distance sane", np.maximum(-np.asarray(o[0], LD), np.asarray(o[0], LD) - geo.PI * ell.la),
                 ell.la * (1e-9 + 2 * ell.f**4)),
                ("azimuth in [0, full turn]", np.maximum(-z, z - full), 0)]
    return judge


def j_vreckon(ell, deg):
    def judge(a, o):
        la1, lo1, s, az = a
        la, lo, _ = geod.direct(la1, lo1, az, s, ell, deg)
        err = geod.gap(geod.degs(o[0], deg), geod.degs(o[1], deg), la, lo, ell)
        tol = trunc_dir(ell, s) + nudge(ell, la1, deg=deg) + 40 * EPS * (ell.la + s)
        tol = tol + EPS * 6 * ell.la * geo.sizes(lo1, az, deg=deg)
        q = (LD(90) if deg else geo.PI / 2)
        return [("end point", err, tol),
                ("lat in range", np.abs(np.asarray(o[0], LD)), q * (1 + 4 * EPS)),
                ("lon in range", np.maximum(-np.asarray(o[1], LD) - 2 * q, np.asarray(o[1], LD) - 4 * q), 8 * EPS * q)]
    return judge


def run(ctx):
    ctx.rule = ("point pairs: random, same point, same meridian, mirrored, antipodal, micrometres to half the globe apart, "
                "poles, dateline; ranges up to several circumferences; default, named, spherical, random ellipsoids "
                "(f <= 0.1); oracle: PROJ geodesics")
    ctx.assumptions = ["PROJ (GeographicLib) solves the geodesic problem to nanometres",
                       "Vincenty's truncation (~0.1 a f^4, 0.08 mm on WGS84) and 1e-12 rad stopping rule are granted",
                       "azimuth next to the antipode and from a pole not judged (documented reduced precision/convention)"]
    rng = ctx.rng
    N = ctx.n(2500, 30000)
    sc = ctx.n(60, 400)
    modes = ("array", "array2d", "scalar", "stdlib", "npscalar")
    for ell in gen.ells(ctx, ctx.n(2, 10), ctx.n(3, 30)):
        for deg in (True, False):
            cv = (lambda x: x) if deg else (lambda x: np.clip(gen.rad(x), -10, 10))
            la, lo = gen.lat(rng, N), gen.lon(rng, N, wide=True)
            l2, o2, _ = gen.near_target(rng, N, la, lo, 0 * la, ell.a)
            ctx.observe("vincenty.vdist", [cv(la), cv(lo), cv(l2), cv(o2)], {"deg": deg}, j_vdist(ell, deg), ell=ell,
                        scalars=sc, modes=modes)
            s = np.abs(gen.length(rng, N, -3, 8)) * ell.a / 6.4e6
            s = np.where(rng.random(N) < .5, rng.uniform(0, np.pi * ell.a, N), s)
            circ = 2 * np.pi * ell.a
            s = np.where(rng.random(N) < .05, rng.choice([circ, circ / 2, circ / 4, 2 * circ], N), s)
            az = gen.azimuth(rng, N)
            az = np.where(rng.random(N) < .2, az - 360, az)
            ctx.observe("vincenty.vreckon", [cv(la), cv(lo), s, cv(az)], {"deg": deg}, j_vreckon(ell, deg), ell=ell,
                        scalars=sc, modes=modes)
            ctx.observe("vincenty.vdist", [np.round(v) for v in (la, lo, l2, o2)], {"deg": True}, j_vdist(ell, True), ell=ell,
                        scalars=20, modes=("int",))
            # tracks
            for _ in range(ctx.n(40, 300)):
                i = int(rng.integers(N))
                a = [float(la[i]), float(lo[i]), float(l2[i]), float(o2[i])]
                sep = float(geod.separation(a[0], a[1], a[2], a[3]))
                if sep > np.pi * (1 - 2.6 * float(ell.f) - 0.009):
                    continue
                npts = int(rng.choice([2, 3, 5, 17, 100]))
                kw = {} if npts == 100 and rng.random() < .5 else {"npts": npts}
                arg = a if deg else [float(np.radians(v)) for v in a]
                arg = [min(max(v, -np.pi / 2), np.pi / 2) if (not deg and k in (0, 2)) else v for k, v in enumerate(arg)]
                rep = {"function": "vincenty.track2", "args": arg, "kwargs": {**kw, "deg": deg}, "ell": ell.spec()}
                try:
                    with np.errstate(all="ignore"):
                        lats, lons = instr.call("vincenty.track2", *arg, ell=ell.obj(), deg=deg, **kw)
                    tl, to = np.asarray(lats, float), np.asarray(lons, float)
                except Exception as ex:  # noqa: BLE001
                    ctx.violation(f"track2{arg} ell={ell}: raised {ex!r}", rep, key="track2 raise")
                    continue
                if not ctx.ok(tl.shape == (npts,) and to.shape == (npts,),
                              f"track2{arg}: {tl.shape}, {to.shape} points instead of {npts}", rep, fn="vincenty.track2"):
                    continue
                d, az1, _ = geod.inverse(arg[0], arg[1], arg[2], arg[3], ell, deg)
                d, az1 = np.asarray(d).item(), np.asarray(az1).item()
                dist = d * np.arange(npts) / (npts - 1)
                pl, po, _ = geod.direct(*(geod.degs(v, deg) for v in arg[:2]), az1, dist, ell)
                err = geod.gap(geod.degs(tl, deg), geod.degs(to, deg), pl, po, ell)
                amp = 1 / max(np.sin(sep), 1e-3) if sep > 1 else 1.0
                tol = (trunc_dir(ell, dist) + 3 * trunc_inv(ell) * amp
                       + 4 * nudge(ell, arg[0], arg[2], deg=deg) * (1 + (dist / max(d, 1e-30)) * amp)
                       + 200 * EPS * ell.la * amp)
                ctx._tally("vincenty.track2", "array", [np.full(npts, arg[0]), np.full(npts, arg[1]),
                                                        np.full(npts, arg[2]), dist], [tl, to],
                           [("track point", err, tol)], rep, f"{arg} npts={npts}", ell, {"deg": deg})
