"""C22 Horizontal <-> equatorial coordinates, angular separation."""
import warnings

import numpy as np

from .. import earth, gen, geo, instr
from ..geo import EPS, LD, PI

ARC = earth.ARCSEC


def unit(lon, lat):
    so, co = geo.trig(lon, True)
    s, c = geo.trig(lat, True)
    return c * co, c * so, s


def sky_of(az, el, lat, lst):
    """unit vector with right ascension measured from the x axis; lst in radians"""
    e, n, u = geo.aer_vec(az, el, np.ones_like(np.asarray(az, LD)))
    rows = geo.enu_rows(lat, 0 * lat)
    v = geo.matvec(geo.transpose(rows), (e, n, u))  # x toward the meridian, y east
    c, s = np.cos(lst), np.sin(lst)
    return c * v[0] - s * v[1], s * v[0] + c * v[1], v[2]


def hor_of(ra, dec, lat, lst):
    v = unit(ra, dec)
    c, s = np.cos(lst), np.sin(lst)
    w = (c * v[0] + s * v[1], -s * v[0] + c * v[1], v[2])
    return geo.matvec(geo.enu_rows(lat, 0 * lat), w)


def run(ctx):
    ctx.rule = ("directions over the whole sky incl. zenith, nadir, poles and meridian; observers at poles, equator, dateline and "
                "anywhere; times 1973-2022 (built-in model 1950-2060), aware and naive and as text; separations from 1e-16 deg to "
                "antipodal, wrapped longitudes; oracle: rotation by SOFA sidereal time, SOFA apparent places, vectors in extended precision")
    ctx.assumptions = ["without Astropy: geometric directions of date, 0.35 arc seconds; with it: no refraction, observer at height 0"]
    warnings.simplefilter("ignore")
    import erfa
    rng = ctx.rng
    N = ctx.n(150, 250)
    sc = ctx.n(12, 20)

    def directions(n):
        la, lo = gen.lat(rng, n), gen.lon(rng, n, wide=True)
        az, el = gen.azimuth(rng, n), gen.elevation(rng, n)
        k = rng.random(n)
        el = np.where(k < .1, rng.choice([90., -90.], n), np.where(k < .15, la, np.where(k < .2, -la, el)))
        az = np.where((k > .1) & (k < .2), 0.0, az)
        ra, dec = gen.azimuth(rng, n), np.where(k < .1, la, gen.lat(rng, n))
        return la, lo, az, el, ra, dec

    def on_sky(o, w, tol, ranges=True):
        return [("direction", geo.dist(unit(o[0], o[1]), w), tol),
                ("longitude range", np.abs(np.asarray(o[0], LD) - 180), LD(180)),
                ("latitude range", np.abs(np.asarray(o[1], LD)), LD(90) * (1 + EPS))]

    def on_horizon(o, w, tol):
        return [("direction", geo.dist(geo.aer_vec(o[0], o[1], 1), w), tol),
                ("azimuth range", np.abs(np.asarray(o[0], LD) - 180), LD(180)),
                ("elevation range", np.abs(np.asarray(o[1], LD)), LD(90) * (1 + EPS))]

    for i, t in enumerate(earth.times(rng, ctx.n(24, 500), 1973, 2060) + earth.times(rng, ctx.n(5, 100), 1950, 1973)):
        d = [0.0, float(rng.uniform(-.9, .9)), float(rng.uniform(-1000, 1000))][i % 3]
        la, lo, az, el, ra, dec = directions(N)
        g = LD(float(erfa.gst94(*earth._ut1(t, d))))
        kw = {"time": t} if d == 0 else {"time": t, "delta_ut1": d}
        if i % 5 == 4:
            kw["time"] = earth.utc(t).replace(tzinfo=None).isoformat()
        # the package's own sidereal time, judged in C21, leaves only rounding here
        own = LD(float(instr.call("sidereal.datetime2sidereal", t, 0.0, True, delta_ut1=d)))

        def j_sky(a, o):
            lst = a[3] * geo.D2R
            tol = 30 * EPS * (2 + geo.sizes(*a))
            r = on_sky(o, sky_of(a[0], a[1], a[2], g + lst), LD(0.35 * ARC) + tol)
            return r + [("direction for the package's sidereal time", geo.dist(unit(o[0], o[1]), sky_of(a[0], a[1], a[2], own + lst)), tol)]

        def j_hor(a, o):
            lst = a[3] * geo.D2R
            tol = 30 * EPS * (2 + geo.sizes(*a))
            r = on_horizon(o, hor_of(a[0], a[1], a[2], g + lst), LD(0.35 * ARC) + tol)
            return r + [("direction for the package's sidereal time", geo.dist(geo.aer_vec(o[0], o[1], 1), hor_of(a[0], a[1], a[2], own + lst)), tol)]
        for fn, args, j in (("azel2radec", [az, el, la, lo], j_sky), ("radec2azel", [ra, dec, la, lo], j_hor)):
            ctx.observe(fn, args, {**kw, "force_non_astropy": True}, j, scalars=sc, modes=("array", "array2d", "scalar", "npscalar"))
            ctx.observe(fn, args, kw, j, scalars=sc, modes=("stdlib", "numpyonly"))
            ctx.observe("vallado." + fn, args, kw, j, scalars=2, modes=("array", "scalar"))
            r = [np.round(v) for v in args]
            ctx.observe(fn, r, {**kw, "force_non_astropy": True}, j, scalars=4, modes=("int",))

    # with Astropy: apparent places
    for i, t in enumerate(earth.times(rng, ctx.n(12, 200), 1973, 2022)):
        d, xp, yp = earth.iers(t)
        la, lo, az, el, ra, dec = directions(N)
        a, b = earth.jd2(t)
        # leap second days have 86401 s in SOFA's quasi-JD: two milliseconds of... keep clear of them
        u = earth.utc(t)
        if (u.month, u.day) in ((6, 30), (12, 31)):
            continue
        lo = geo.wrap(lo).astype(float)

        def j_sky(q, o):
            ri, di = erfa.atoc13("A", np.asarray(q[0], float) * np.pi / 180, np.pi / 2 - np.asarray(q[1], float) * np.pi / 180, a, b, d,
                                 np.asarray(q[3], float) * np.pi / 180, np.asarray(q[2], float) * np.pi / 180, 0.0,
                                 xp * ARC, yp * ARC, 0.0, 0.0, 0.0, 1.0)
            return on_sky(o, unit(ri / float(geo.D2R), di / float(geo.D2R)), LD(1e-7))

        def j_hor(q, o):
            z = np.zeros(q[0].size)
            aob, zob = erfa.atco13(np.asarray(q[0], float) * np.pi / 180, np.asarray(q[1], float) * np.pi / 180, z, z, z, z, a, b, d,
                                   np.asarray(q[3], float) * np.pi / 180, np.asarray(q[2], float) * np.pi / 180, 0.0,
                                   xp * ARC, yp * ARC, 0.0, 0.0, 0.0, 1.0)[:2]
            return on_horizon(o, geo.aer_vec(aob / float(geo.D2R), 90 - zob / float(geo.D2R), 1), LD(1e-7))
        for fn, args, j in (("azel2radec", [az, el, la, lo], j_sky), ("radec2azel", [ra, dec, la, lo], j_hor)):
            ctx.observe(fn, args, {"time": t}, j, scalars=2, modes=("array", "scalar"))

    # separations
    N = ctx.n(4000, 60000)
    sc = ctx.n(150, 1000)
    for deg in (True, False):
        cv = (lambda x: x) if deg else gen.rad
        u = geo.unit_of(deg)
        for rep in range(ctx.n(2, 6)):
            b1, l1 = gen.lat(rng, N), gen.lon(rng, N, wide=True)
            b2, l2, _ = gen.near_target(rng, N, b1, l1, 0 * b1, 6.4e6)
            k = rng.random(N)
            tiny = 10 ** rng.uniform(-16, -2, N)
            b2 = np.where(k < .2, np.clip(-b1 + tiny, -90, 90), b2)
            l2 = np.where(k < .2, l1 + 180, l2)
            l2 = np.where((k > .2) & (k < .25), l1 + 360, l2)
            b2 = np.where((k > .2) & (k < .25), b1, b2)

            def truth(a):
                f = lambda x, y: (geo.trig(y, deg)[1] * geo.trig(x, deg)[1], geo.trig(y, deg)[1] * geo.trig(x, deg)[0], geo.trig(y, deg)[0])  # noqa: E731
                p, q = f(a[0], a[1]), f(a[2], a[3])
                near = geo.norm(tuple(x - y for x, y in zip(p, q)))
                # differences without cancellation for close directions
                db, dl = (a[1] - a[3]), (a[0] - a[2])
                hb, hl = geo.trig(db / 2, deg)[0], geo.trig(dl / 2, deg)[0]
                h = hb**2 + geo.trig(a[1], deg)[1] * geo.trig(a[3], deg)[1] * hl**2
                far = geo.norm(tuple(x + y for x, y in zip(p, q)))
                near = np.where(h < 0.1, 2 * np.sqrt(h), near)
                return 2 * np.arctan2(near, far)

            def judge(a, o):
                s = truth(a)
                # rounding of the arguments' conversion, or of their sums
                arg = EPS * geo.sizes(*a, deg=deg)
                tol = 8 * EPS * s + 2 * arg
                dl = np.abs(geo.r(a[0], deg) - geo.r(a[2], deg))
                tol = tol + np.where(dl > PI, 2 * EPS * dl, 0)  # rounding of a difference of whole turns
                got = np.asarray(o[0], LD) * u
                return [("separation", np.abs(got - s), tol), ("range", np.abs(got - PI / 2), PI / 2 * (1 + 2 * EPS))]
            args = [cv(l1), cv(b1), cv(l2), cv(b2)]
            # Astropy's formula is good to a rounding of the sines and cosines, not of the result
            ja = lambda a, o: [(l, e, t + 4 * EPS) for l, e, t in judge(a, o)]  # noqa: E731
            ctx.observe("haversine.anglesep", args, {"deg": deg}, ja, scalars=sc,
                        modes=("array", "array2d", "scalar", "npscalar"))
            jm = judge
            ctx.observe("haversine.anglesep", args, {"deg": deg}, jm, scalars=sc, modes=("stdlib", "numpyonly"))
            ctx.observe("haversine.anglesep", args, {"deg": deg, "force_non_astropy": True}, jm, scalars=sc,
                        modes=("array", "array2d", "scalar"))
            ctx.observe("haversine.anglesep_meeus", args, {"deg": deg}, jm, scalars=sc)
            if deg:
                r = [np.round(v) for v in args]
                ctx.observe("haversine.anglesep", r, {}, ja, scalars=40, modes=("int",))
                ctx.observe("haversine.anglesep_meeus", r, {}, jm, scalars=40, modes=("int",))
    th = np.r_[gen.length(rng, N, -9, 1), rng.uniform(-7, 7, N), 10.0 ** rng.uniform(-150, 0, N // 4)]

    def j_h(a, o):
        w = np.sin(a[0] / 2) ** 2
        return [("haversine", np.abs(np.asarray(o[0], LD) - w), 6 * EPS * w + LD(1e-305))]
    ctx.observe("haversine.haversine", [th], {}, j_h, scalars=sc)
