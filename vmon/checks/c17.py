"""C17 n-vectors: conversions and spherical geometry."""
import numpy as np

from .. import gen, geo, instr
from ..geo import EPS, LD, PI


def nv(la, lo, deg=True):
    s, c = geo.trig(la, deg)
    so, co = geo.trig(lo, deg)
    return c * co, c * so, s


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def ang(a, b):
    return np.arctan2(geo.norm(cross(a, b)), geo.dot(a, b))


def unit(v):
    n = geo.norm(v)
    return tuple(x / n for x in v)


def run(ctx):
    ctx.rule = ("unit vectors of random, polar, antimeridian, coincident, close and (nearly) antipodal points; fractions in "
                "[0, 1] incl. ends; default and given radii; default, named, spherical, random ellipsoids; oracle: vector "
                "algebra in extended precision")
    ctx.assumptions = ["interpolation is not judged within 1e-7 rad of the antipode (the great circle is ill defined)",
                       "intersection of (nearly) coinciding great circles is not judged"]
    rng = ctx.rng
    N = ctx.n(3000, 30000)
    sc = ctx.n(100, 600)
    modes = ("array", "array2d", "scalar", "stdlib", "npscalar")
    smodes = ("scalar", "stdlib", "npscalar")
    Rdef = (LD(6378137) ** 2 * LD("6356752.31424518")) ** (LD(1) / 3)
    for rep_ in range(ctx.n(1, 5)):
        la1, lo1 = gen.lat(rng, N), gen.lon(rng, N, wide=True)
        la2, lo2, _ = gen.near_target(rng, N, la1, lo1, 0 * la1, 6.4e6)
        k = rng.random(N)
        e = 10 ** rng.uniform(-9, 0, N)
        la2 = np.where(k < .1, np.clip(-la1 + e * rng.normal(size=N), -90, 90), la2)
        lo2 = np.where(k < .1, lo1 + 180 + e * rng.normal(size=N), lo2)
        for deg in (True, False):
            cv = (lambda x: x) if deg else gen.rad
            u = geo.unit_of(deg)

            def j_fwd(a, o, deg=deg):
                t = nv(a[0], a[1], deg)
                return [("vector", geo.dist(o, t), 4 * EPS + 3 * EPS * geo.sizes(a[0], a[1], deg=deg))]
            ctx.observe("geodetic2nvector", [cv(la1), cv(lo1)], {"deg": deg}, j_fwd, scalars=sc, modes=modes)

            def j_inv(a, o, deg=deg, u=u):
                t = nv(np.asarray(o[0], LD), np.asarray(o[1], LD), deg)
                q = PI / 2 / u
                return [("direction", geo.dist(t, unit(a)), 12 * EPS),
                        ("lat in range", np.abs(np.asarray(o[0], LD)), q * (1 + 2 * EPS)),
                        ("lon in range", np.abs(np.asarray(o[1], LD)), 2 * q * (1 + 2 * EPS))]
            vv = [np.asarray(x, float) for x in nv(la1, lo1)]
            ctx.observe("nvector2geodetic", vv, {"deg": deg}, j_inv, scalars=sc, modes=modes)
        ctx.observe("geodetic2nvector", [np.round(la1), np.round(lo1)], {"deg": True}, lambda a, o: [
            ("vector", geo.dist(o, nv(a[0], a[1])), 4 * EPS + 3 * EPS * geo.sizes(a[0], a[1]))], modes=("int",), scalars=30)

        A = [np.asarray(x, float) for x in nv(la1, lo1)]
        B = [np.asarray(x, float) for x in nv(la2, lo2)]
        for R in (None, 1.0, 6371e3, float(10 ** rng.uniform(-3, 9))):
            kw = {} if R is None else {"radius": R}
            r = Rdef * (1 + 0) if R is None else LD(R)
            rtol = LD("4e-9") * r if R is None else LD(0)  # documented f^3 approximation of the equal-volume radius

            def j_dist(a, o, r=r, rtol=rtol):
                t = ang(a[:3], a[3:])
                return [("distance", np.abs(np.asarray(o[0], LD) - r * t), r * 8 * EPS + rtol * t)]
            ctx.observe("nvector_distance", A + B, kw, j_dist, scalars=sc, modes=modes)

            la3, lo3, _ = gen.near_target(rng, N, la1, lo1, 0 * la1, 6.4e6)
            P = [np.asarray(x, float) for x in nv(la3, lo3)]
            # also the poles of the circle itself
            with np.errstate(all="ignore"):
                c = [np.asarray(x, float) for x in unit(cross([x.astype(LD) for x in A], [x.astype(LD) for x in B]))]
            m = (rng.random(N) < .05) & np.isfinite(c[0])
            P = [np.where(m, ci * rng.choice([-1, 1]), p) for ci, p in zip(c, P)]

            def j_xt(a, o, r=r, rtol=rtol):
                n = cross(a[:3], a[3:6])
                nn = geo.norm(n)
                ok = nn > LD("1e-9")
                n = tuple(x / np.where(ok, nn, 1) for x in n)
                t = np.arctan2(geo.dot(n, a[6:]), geo.norm(cross(n, a[6:])))
                tol = r * (8 * EPS + 6 * EPS / np.where(ok, nn, 1)) + rtol
                return [("cross-track distance", np.abs(np.asarray(o[0], LD) - r * t), np.where(ok, tol, np.inf))]
            ok = geo.norm(cross([x.astype(LD) for x in A], [x.astype(LD) for x in B])) > 1e-9
            ctx.observe("nvector_cross_track_distance", [x[ok] for x in A + B + P], kw, j_xt, scalars=sc, modes=modes)

        f = rng.uniform(0, 1, N)
        f = np.where(rng.random(N) < .3, rng.choice([0., 1., .5, .25, 1e-9, 1 - 1e-9], N), f)
        f = np.where(rng.random(N) < .1, rng.uniform(-1, 2, N), f)  # further along the same circle

        def j_int(a, o):
            p, q, fr = unit(a[:3]), unit(a[3:6]), a[6]
            w = ang(p, q)
            gap = PI - w
            sw = np.sin(w)
            small = w < LD("1e-9")
            ca = np.where(small, 1 - fr, np.sin((1 - fr) * w) / np.where(small, 1, sw))
            cb = np.where(small, fr, np.sin(fr * w) / np.where(small, 1, sw))
            t = unit(tuple(ca * x + cb * y for x, y in zip(p, q)))
            tol = np.where(gap < LD("1e-7"), np.inf, (12 * EPS + 8 * EPS / gap) * (1 + np.where((fr < 0) | (fr > 1), 2 * np.abs(fr), 0)))
            return [("point", geo.dist(o, t), tol), ("unit length", np.abs(geo.norm([np.asarray(x, LD) for x in o]) - 1), 4 * EPS)]
        sub = np.flatnonzero(np.asarray(PI - ang([x.astype(LD) for x in A], [x.astype(LD) for x in B])) > 1e-7)
        ctx.observe("nvector_interpolate", [x[sub] for x in A + B + [f]], {}, j_int, scalars=ctx.n(1500, 15000), modes=("scalar",))
        ctx.observe("nvector_interpolate", [x[sub] for x in A + B + [f]], {}, j_int, scalars=ctx.n(150, 1500), modes=("stdlib", "npscalar"))

        C = [np.asarray(x, float) for x in nv(gen.lat(rng, N), gen.lon(rng, N))]
        D = [np.asarray(x, float) for x in nv(gen.lat(rng, N), gen.lon(rng, N))]

        def j_x(a, o):
            c1, c2 = cross(a[:3], a[3:6]), cross(a[6:9], a[9:12])
            i = cross(c1, c2)
            n1, n2, ni = geo.norm(c1), geo.norm(c2), geo.norm(i)
            ok = (n1 > 1e-7) & (n2 > 1e-7) & (ni > 1e-7 * n1 * n2)
            i = tuple(x / np.where(ok, ni, 1) for x in i)
            m = tuple(a[k] + a[3 + k] + a[6 + k] + a[9 + k] for k in range(3))
            d = geo.dot(i, m)
            i = tuple(np.where(d < 0, -x, x) for x in i)
            s12 = np.where(ok, ni / np.where(ok, n1 * n2, 1), 1)
            tol = 10 * EPS * (1 / np.where(ok, n1, 1) + 1 / np.where(ok, n2, 1)) / s12 + 8 * EPS
            e = geo.dist(o, i)
            amb = np.abs(d) < 8 * tol
            e2 = geo.dist(o, tuple(-x for x in i))
            return [("point", np.where(amb, np.minimum(e, e2), e), np.where(ok, tol, np.inf))]
        n1 = geo.norm(cross([x.astype(LD) for x in A], [x.astype(LD) for x in B]))
        c1, c2 = (cross([x.astype(LD) for x in p], [x.astype(LD) for x in q]) for p, q in ((A, B), (C, D)))
        n2, ni = geo.norm(c2), geo.norm(cross(c1, c2))
        ok = np.asarray((n1 > 1e-7) & (n2 > 1e-7) & (ni > 1e-7 * n1 * n2))  # two circles, and not the same
        ctx.observe("nvector_intersection", [x[ok] for x in A + B + C + D], {}, j_x, scalars=ctx.n(1500, 15000), modes=("scalar",))
        ctx.observe("nvector_intersection", [x[ok] for x in A + B + C + D], {}, j_x, scalars=ctx.n(150, 1500), modes=("stdlib", "npscalar"))

        for _ in range(ctx.n(60, 500)):
            m = int(rng.choice([1, 2, 3, 10, 100]))
            i = rng.integers(0, N, m)
            if rng.random() < .5:
                i0 = int(rng.integers(N))
                w = 10 ** rng.uniform(-7, 1)
                cols = nv(np.clip(la1[i0] + w * rng.normal(size=m), -90, 90), lo1[i0] + w * rng.normal(size=m))
                cols = [np.asarray(x, float) for x in cols]
            else:
                cols = [x[i] for x in A]
            sums = [np.sum(x.astype(LD)) for x in cols]
            t = unit(sums)
            form = rng.choice(["list", "array", "tuple", "stdlib"])
            args = [{"list": x.tolist(), "array": x, "tuple": tuple(x.tolist()), "stdlib": x.tolist()}[form] for x in cols]
            rep = {"function": "nvector_mean", "args": [x.tolist() for x in cols], "kwargs": {}}
            if geo.norm(sums) < 1e-6:
                continue
            try:
                if form == "stdlib":
                    st, o = ctx.worker("stdlib").run([("nvector_mean", args, {}, {})])[0]
                    if st != "ok":
                        raise RuntimeError(o)
                else:
                    o = instr.call("nvector_mean", *args)
                o = [np.array([float(v)]) for v in o]
            except Exception as ex:  # noqa: BLE001
                ctx.violation(f"nvector_mean of {m} vectors ({form}): raised {ex!r}", rep, key="mean raise")
                continue
            ctx._tally("nvector_mean", str(form), [np.array([float(v)]) for v in sums], o,
                       [("mean", geo.dist(o, t), 4 * EPS + m * 2 * EPS * m / geo.norm(sums))], rep, f"{m} vectors", None, {})

    for ell in gen.ells(ctx, ctx.n(2, 10), ctx.n(2, 25), flat=0.5):
        la, lo = gen.lat(rng, N), gen.lon(rng, N)
        h = gen.alt(rng, N, ell.a)
        V = [np.asarray(x, float) for x in nv(la, lo)]
        for deg in (True, False):
            def j_to(a, o, ell=ell):
                n = unit(a[:3])
                w = ell.la**2 / np.sqrt(ell.la**2 * (n[0] ** 2 + n[1] ** 2) + (ell.lb * n[2]) ** 2)
                hh = a[3] if len(a) > 3 else LD(0)
                t = ((w + hh) * n[0], (w + hh) * n[1], (w * (ell.lb / ell.la) ** 2 + hh) * n[2])
                return [("position", geo.dist(o, t), 20 * EPS * (ell.la + np.abs(hh)))]
            ctx.observe("nvector2ecef", V + [h], {"deg": deg}, j_to, ell=ell, scalars=sc, modes=modes)
            ctx.observe("nvector2ecef", V, {"deg": deg}, j_to, ell=ell, scalars=20, modes=("array", "scalar"))
            xyz = [np.asarray(v, float) for v in geo.fwd(la, lo, np.maximum(h, -0.05 * ell.a), ell)]

            def j_from(a, o, ell=ell):
                # true normal: solve for the foot point by iteration on the latitude
                p = np.hypot(a[0], a[1])
                phi = np.arctan2(a[2], p * (1 - ell.e2))
                for _ in range(300):
                    Nn = ell.la / np.sqrt(1 - ell.e2 * np.sin(phi) ** 2)
                    phi = np.arctan2(a[2] + ell.e2 * Nn * np.sin(phi), p)
                lam = np.arctan2(a[1], a[0])
                t = (np.cos(phi) * np.cos(lam), np.cos(phi) * np.sin(lam), np.sin(phi))
                rad_ = np.minimum(geo.norm(a[:3]), LD("inf"))
                # the normal turns by the displacement over the radius of curvature plus the height, or more slowly
                bend = np.maximum(rad_ - ell.e2 * ell.la, ell.lb**2 / ell.la * LD("0.5"))
                on_axis = p < LD("2e-8")
                t = tuple(np.where(on_axis, v, w) for v, w in zip((0, 0, np.sign(a[2])), t))
                return [("direction", geo.dist(o, t), geo.inverse_tol(ell, a[0], a[1], a[2]) / bend * LD("1.5") + 8 * EPS)]
            ctx.observe("ecef2nvector", xyz, {"deg": deg}, j_from, ell=ell, scalars=sc, modes=modes)
