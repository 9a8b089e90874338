"""C14 Karney geodesics: inverse, direct, line."""
import numpy as np

from .. import gen, geo, geod, instr
from ..geo import EPS, LD


def tolerance(ell):
    # a dozen nanometres on the Earth; both sides truncate the same sixth-order series
    return ell.la * (LD("4e-15") + LD("0.3") * np.abs(ell.n) ** 7 + LD("0.5") * ell.e2 * LD("1e-13"))


def j_inverse(ell, deg):
    def judge(a, o):
        la1, lo1, la2, lo2 = a
        d, _, _ = geod.inverse(la1, lo1, la2, lo2, ell, deg)
        tol = tolerance(ell) + EPS * 6 * ell.la * geo.sizes(lo1, lo2, la1, la2, deg=deg)
        s = np.asarray(o[0], float)
        z1, z2 = geod.degs(o[1], deg), geod.degs(o[2], deg)
        b1 = geod.direct(geod.degs(la1, deg), geod.degs(lo1, deg), z1, s, ell)
        b2 = geod.direct(geod.degs(la2, deg), geod.degs(lo2, deg), z2 + 180, s, ell)
        full = LD(180) if deg else geo.PI
        return [("distance", np.abs(np.asarray(s, LD) - d), tol),
                ("forward azimuth leads to point 2",
                 geod.gap(b1[0], b1[1], geod.degs(la2, deg), geod.degs(lo2, deg), ell), 3 * tol),
                ("azimuth at 2 leads back to point 1",
                 geod.gap(b2[0], b2[1], geod.degs(la1, deg), geod.degs(lo1, deg), ell), 3 * tol),
                ("distance not negative", -np.asarray(s, LD), 0),
                ("azimuths in one turn", np.maximum(np.abs(np.asarray(o[1], LD)), np.abs(np.asarray(o[2], LD))), 2 * full)]
    return judge


def j_direct(ell, deg):
    def judge(a, o):
        la1, lo1, az, s = a
        la, lo, _ = geod.direct(la1, lo1, az, s, ell, deg)
        tol = tolerance(ell) * (1 + s / ell.la) + EPS * 6 * ell.la * geo.sizes(lo1, la1, deg=deg)
        tol = tol + EPS * 4 * ell.la * geo.sizes(az, deg=deg)
        l2, o2, z2 = (geod.degs(v, deg) for v in o)
        back = geod.direct(l2, o2, z2 + 180, s, ell)
        q = LD(90) if deg else geo.PI / 2
        return [("end point", geod.gap(l2, o2, la, lo, ell), tol),
                ("azimuth at the end leads back",
                 geod.gap(back[0], back[1], geod.degs(la1, deg), geod.degs(lo1, deg), ell), 4 * tol),
                ("lat in range", np.abs(np.asarray(o[0], LD)), q * (1 + 4 * EPS)),
                ("lon in range", np.abs(np.asarray(o[1], LD)), 4 * q * (1 + 4 * EPS))]
    return judge


def run(ctx):
    ctx.rule = ("point pairs as in C13 including exact and near antipodes and equatorial ones; azimuths over a turn; "
                "distances up to several circumferences; default, named, spherical, random ellipsoids (f <= 0.1); oracle: PROJ")
    ctx.assumptions = ["PROJ (GeographicLib) solves the geodesic problem to nanometres",
                       "the second azimuth is the direction of travel at point 2"]
    rng = ctx.rng
    N = ctx.n(500, 6000)
    modes = ("scalar", "stdlib", "npscalar")
    for ell in gen.ells(ctx, ctx.n(3, 10), ctx.n(4, 30), fmax=0.1):
        for deg in (True, False):
            cv = (lambda x: x) if deg else gen.rad
            la, lo = gen.lat(rng, N), gen.lon(rng, N, wide=True)
            l2, o2, _ = gen.near_target(rng, N, la, lo, 0 * la, ell.a)
            # within a fraction of f of the antipode, where the shortest line switches sides
            k = rng.random(N) < .15
            eps = 10 ** rng.uniform(-12, 1, N)
            l2 = np.where(k, np.clip(-la + eps * rng.normal(size=N), -90, 90), l2)
            o2 = np.where(k, lo + 180 + eps * rng.normal(size=N) * 2 * (360 * float(ell.f) + 1e-9), o2)
            eq = rng.random(N) < .08
            la, l2 = np.where(eq, 0.0, la), np.where(eq, 0.0, l2)
            ctx.observe("karney.geodesic_inverse", [cv(la), cv(lo), cv(l2), cv(o2)], {"deg": deg}, j_inverse(ell, deg),
                        ell=ell, scalars=N, modes=modes[:1])
            ctx.observe("karney.geodesic_inverse", [cv(la), cv(lo), cv(l2), cv(o2)], {"deg": deg}, j_inverse(ell, deg),
                        ell=ell, scalars=ctx.n(60, 500), modes=modes[1:])
            s = np.abs(gen.length(rng, N, -3, 8)) * ell.a / 6.4e6
            s = np.where(rng.random(N) < .5, rng.uniform(0, np.pi * ell.a, N), s)
            az = gen.azimuth(rng, N)
            az = np.where(rng.random(N) < .3, az - 360, az)
            ctx.observe("karney.geodesic_direct", [cv(la), cv(lo), cv(az), s], {"deg": deg}, j_direct(ell, deg), ell=ell,
                        scalars=N, modes=modes[:1])
            ctx.observe("karney.geodesic_direct", [cv(la), cv(lo), cv(az), s], {"deg": deg}, j_direct(ell, deg), ell=ell,
                        scalars=ctx.n(60, 500), modes=modes[1:])
            ctx.observe("karney.geodesic_inverse", [np.round(v) for v in (la, lo, l2, o2)], {"deg": True},
                        j_inverse(ell, True), ell=ell, scalars=20, modes=("int",))
            for _ in range(ctx.n(30, 150)):
                i = int(rng.integers(N))
                arg = [float(cv(v[i])) for v in (la, lo, l2, o2)]
                npts = int(rng.choice([1, 2, 3, 7, 50, 100]))
                kw = {} if npts == 100 and rng.random() < .5 else {"npts": npts}
                rep = {"function": "karney.geodesic_line", "args": arg, "kwargs": {**kw, "deg": deg}, "ell": ell.spec()}
                try:
                    res = instr.call("karney.geodesic_line", *arg, ell=ell.obj(), deg=deg, **kw)
                    tl, to = (np.asarray(v, float) for v in res)
                except Exception as ex:  # noqa: BLE001
                    ctx.violation(f"geodesic_line{arg} ell={ell}: raised {ex!r}", rep, key="line raise")
                    continue
                if not ctx.ok(tl.shape == (npts,) == to.shape, f"geodesic_line{arg}: {tl.shape} points, not {npts}", rep,
                              fn="karney.geodesic_line"):
                    continue
                d = np.asarray(geod.inverse(*arg, ell, deg)[0]).item()
                frac = np.arange(npts) / max(npts - 1, 1)
                L = [geod.degs(v, deg) for v in arg]
                t_l, t_o = geod.degs(tl, deg), geod.degs(to, deg)
                # on some shortest line: distances to both ends are the right fractions of the whole
                d1 = geod.inverse(L[0], L[1], t_l, t_o, ell)[0]
                d2 = geod.inverse(t_l, t_o, L[2], L[3], ell)[0]
                tol = 4 * tolerance(ell) + EPS * 12 * ell.la * geo.sizes(*arg, deg=deg)
                ctx._tally("karney.geodesic_line", "scalar",
                           [np.full(npts, arg[0]), np.full(npts, arg[1]), np.full(npts, arg[2]), frac], [tl, to],
                           [("distance from start", np.abs(d1 - d * frac), tol),
                            ("distance to end", np.abs(d2 - d * (1 - frac)), tol)], rep, f"{arg} npts={npts}", ell,
                           {"deg": deg})
