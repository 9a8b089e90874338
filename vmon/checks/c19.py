"""C19 Inertial <-> Earth-fixed positions and the wrappers that go through them."""
import warnings

import numpy as np

from .. import earth, gen, geo
from ..geo import EPS, LD
from .c02 import judged_geodetic

ARC = earth.ARCSEC
FAST = 0.2 * ARC      # pure-Python model against the IAU models: 0.13" measured (1900-2060)
FINE = 2e-9           # Astropy path against the same standard evaluated directly


def run(ctx):
    ctx.rule = ("times 1973-2022 (naive, aware in UTC and in other zones, midnights, ends of years, leap days) and 1950-2060 for "
                "the built-in model; positions from 1 m to 1e9 m; UT1-UTC and polar motion zero, realistic and exaggerated; "
                "with Astropy, forced without, Astropy absent, and NumPy absent; oracle: SOFA (erfa) rotation matrices")
    ctx.assumptions = ["the built-in model may be 0.2 arc seconds off the IAU models",
                       "Earth orientation parameters are only used by the built-in model, as documented"]
    warnings.simplefilter("ignore")
    rng = ctx.rng
    N = ctx.n(60, 120)
    sc = ctx.n(6, 10)
    T = ctx.n(20, 260)

    def vecs(n):
        d = rng.normal(size=(3, n))
        d /= np.sqrt((d ** 2).sum(0))
        k = rng.integers(0, 8, n)
        d[:, k == 0] = np.eye(3)[:, rng.integers(0, 3, int((k == 0).sum()))] * rng.choice([-1, 1], int((k == 0).sum()))
        # in a coordinate plane, or close to one
        j = np.flatnonzero(k == 1)
        d[rng.integers(0, 3, j.size), j] = rng.choice([0.0, -0.0, 1e-3, -1e-6, 1e-9], j.size)
        return list(d * 10 ** rng.uniform(0, 9, n))

    def candidates(t, eop, fine):
        if fine:
            return [earth.m06(t, *earth.iers(t))], FINE
        return [earth.m80(t, *eop), earth.m06(t, *eop)], FAST

    def j_rot(ms, ang, inverse):
        def judge(a, o):
            err = None
            for m in ms:
                d = geo.dist(o, earth.apply(m.T if inverse else m, a))
                err = d if err is None else np.minimum(err, d)
            return [("position", err, LD(ang) * geo.norm(a)),
                    ("length kept", np.abs(geo.norm([np.asarray(x, LD) for x in o]) - geo.norm(a)), 1e-12 * geo.norm(a))]
        return judge

    pure_times = earth.times(rng, T, 1973, 2060) + earth.times(rng, T // 4, 1950, 1973)
    for i, t in enumerate(pure_times):
        k = i % 4
        eop = {0: (0.0, 0.0, 0.0), 1: (float(rng.uniform(-.9, .9)), float(rng.uniform(-.4, .4)), float(rng.uniform(-.1, .6))),
               2: (float(rng.uniform(-100, 100)), 0.0, 0.0),
               3: (0.0, float(rng.uniform(-3000, 3000)), float(rng.uniform(-3000, 3000)))}[k]
        kw = {} if k == 0 else {"delta_ut1": eop[0], "xp": eop[1], "yp": eop[2]}
        ms, ang = candidates(t, eop, False)
        v = vecs(N)
        for fn, inv in (("eci2ecef", False), ("ecef2eci", True)):
            ctx.observe(fn, v, {"time": t, "force_non_astropy": True, **kw}, j_rot(ms, ang, inv), scalars=sc,
                        modes=("array", "array2d", "scalar"))
            ctx.observe(fn, v, {"time": t, **kw}, j_rot(ms, ang, inv), scalars=sc, modes=("stdlib", "numpyonly"))
        wrappers(ctx, rng, t, kw, [ms[0], ms[1]], ang, ("stdlib", "numpyonly"), ctx.n(40, 60), sc)
        # there and back
        from .. import instr
        w = instr.call("ecef2eci", *[x.copy() for x in v], t, True, **kw)
        b = instr.call("eci2ecef", *w, t, True, **kw)
        ctx.ok(float(np.max(geo.dist(b, v) / geo.norm(v))) < 1e-14, f"ecef2eci then eci2ecef at {t} {kw}: does not return",
               {"function": "ecef2eci/eci2ecef", "time": str(t), "kwargs": kw}, key="roundtrip", fn="eci2ecef", mode="round trip")
        # small EOP effects stand out against the model error when compared with the same model without them
        if k:
            z = instr.call("eci2ecef", *[x.copy() for x in v], t, True)
            want = earth.apply(m80_relative(t, eop), z)
            got = instr.call("eci2ecef", *[x.copy() for x in v], t, True, **kw)
            e = float(np.max(geo.dist(got, want) / geo.norm(v)))
            # Julian dates resolve 40 microseconds
            ctx.ok(e < 1.2e-8, f"eci2ecef at {t} with {kw}: Earth orientation parameters turn by {e / ARC:.4g} arcsec "
                   "otherwise than they should", {"function": "eci2ecef", "time": str(t), "kwargs": kw}, key="eop",
                   fn="eci2ecef", mode="EOP effect")
    for i, t in enumerate(earth.times(rng, ctx.n(12, 150), 1973, 2022)):
        ms, ang = candidates(t, None, True)
        v = vecs(N)
        for fn, inv in (("eci2ecef", False), ("ecef2eci", True)):
            ctx.observe(fn, v, {"time": t}, j_rot(ms, ang, inv), scalars=1, modes=("array", "array2d", "scalar"))
            ctx.observe(fn, v, {"time": t, "force_non_astropy": False, "delta_ut1": 0.1}, j_rot(ms, ang, inv), scalars=1,
                        modes=("array",))
        wrappers(ctx, rng, t, {}, ms, ang, ("array", "scalar"), ctx.n(40, 60), 2)


def m80_relative(t, eop):
    return earth.m80(t, *eop) @ earth.m80(t).T


def wrappers(ctx, rng, t, kw, ms, ang, modes, n, sc):
    ells = [geo_ell for geo_ell in gen.ells(ctx, 1, 1)]
    ell = ells[int(rng.integers(0, len(ells)))]
    deg = bool(rng.integers(0, 2))
    cv = (lambda x: x) if deg else gen.rad
    kw = {**kw, "t": t, "deg": deg}
    la, lo, h = gen.lat(rng, n), gen.lon(rng, n), gen.alt(rng, n, ell.a, low=-0.1)
    LA, LO = cv(la), cv(lo)

    def best(f):
        """least error over the admissible rotations; f(m) -> [(label, err, tol)]"""
        res = None
        for m in ms:
            r = f(m)
            res = r if res is None else [(l, np.minimum(e, e2), t_) for (l, e, t_), (_, e2, _) in zip(res, r)]
        return res

    def j_g2i(a, o):
        p = geo.fwd(a[0], a[1], a[2], ell, deg)
        R = geo.norm(p) + ell.la
        return best(lambda m: [("position", geo.dist(o, earth.apply(m.T, p)),
                                LD(ang) * R + EPS * R * (20 + 4 * geo.sizes(a[0], a[1], deg=deg)))])
    ctx.observe("geodetic2eci", [LA, LO, h], kw, j_g2i, ell=ell, scalars=sc, modes=modes)

    pos = [np.asarray(x, float) for x in earth.apply(ms[0].T, geo.fwd(LA, LO, h, ell, deg))]

    def j_i2g(a, o):
        R = geo.norm(a)
        return best(lambda m: judged_geodetic(o, earth.apply(m, a), LD(ang) * R + 40 * EPS * R, ell, deg))
    for i in np.flatnonzero(rng.random(n) < .15):  # on an inertial axis, or in a plane of two
        d = np.eye(3)[int(rng.integers(0, 3))] * rng.choice([-1, 1])
        if rng.random() < .5:
            d = rng.normal(size=3)
            d[int(rng.integers(0, 3))] = 0
        d = d / np.sqrt(d @ d) * ell.a * 10 ** rng.uniform(-.05, 1)
        for c in range(3):
            pos[c][i] = d[c]
    ctx.observe("eci2geodetic", pos, kw, j_i2g, ell=ell, scalars=sc, modes=modes)

    az, el, r = cv(gen.azimuth(rng, n)), cv(gen.elevation(rng, n)), np.abs(gen.length(rng, n, 0, 8))

    def j_a2i(a, o):
        p0 = geo.fwd(a[3], a[4], a[5], ell, deg)
        d = geo.matvec(geo.transpose(geo.enu_rows(a[3], a[4], deg)), geo.aer_vec(a[0], a[1], a[2], deg))
        p = tuple(x + y for x, y in zip(p0, d))
        R = geo.norm(p0) + ell.la + a[2]
        return best(lambda m: [("position", geo.dist(o, earth.apply(m.T, p)),
                                LD(ang) * R + EPS * R * (30 + 6 * geo.sizes(*[a[k] for k in (0, 1, 3, 4)], deg=deg)))])
    ctx.observe("aer2eci", [az, el, r, LA, LO, h], kw, j_a2i, ell=ell, scalars=sc, modes=modes)

    # eci2aer takes no ellipsoid: WGS84
    from ..core import Ell
    w = Ell(none=True)
    h84 = gen.alt(rng, n, w.a, low=-0.1)
    d = geo.matvec(geo.transpose(geo.enu_rows(LA, LO, deg)), geo.aer_vec(az, el, r, deg))
    q = tuple(x + y for x, y in zip(geo.fwd(LA, LO, h84, w, deg), d))
    q = [np.asarray(x, float) for x in earth.apply(ms[0].T, q)]

    def j_i2a(a, o):
        p0 = geo.fwd(a[3], a[4], a[5], w, deg)
        R = geo.norm(p0) + w.la + geo.norm(a[:3])

        def f(m):
            x = earth.apply(m, a[:3])
            want = geo.matvec(geo.enu_rows(a[3], a[4], deg), tuple(u - v for u, v in zip(x, p0)))
            return [("line of sight", geo.dist(geo.aer_vec(o[0], o[1], o[2], deg), want),
                     LD(ang) * R + EPS * R * (40 + 6 * geo.sizes(a[3], a[4], deg=deg)) + LD("2e-3"))]
        return best(f)
    ctx.observe("eci2aer", [*q, LA, LO, h84], kw, j_i2a, scalars=sc, modes=modes)
