"""C16 Rhumb lines, meridian arcs, departures and geographic means."""
import numpy as np

from .. import aux_lat as A
from .. import gen, geo, instr
from ..geo import EPS, LD, PI

POLE = LD("1.2e-9")  # next to a pole the isometric latitude is taken as infinite


def M_(phi, ell):
    return ell.la * (1 - ell.e2) / (1 - ell.e2 * np.sin(phi) ** 2) ** LD(1.5)


def par(phi, ell):
    return ell.la / np.sqrt(1 - ell.e2 * np.sin(phi) ** 2) * np.abs(np.cos(phi))


def dpsi_(p1, p2, ell):
    """isometric latitude difference without cancellation for close latitudes"""
    big = A.isometric(p2, ell) - A.isometric(p1, ell)
    room = PI / 2 - np.maximum(np.abs(p1), np.abs(p2))
    close = np.abs(p2 - p1) < LD("0.2") * room
    small = A.quad(lambda p: (1 - ell.e2) / ((1 - ell.e2 * np.sin(p) ** 2) * np.cos(p)), p1, np.where(close, p2, p1))
    return np.where(close, small, big)


def series(ell, dphi):
    n = np.abs(ell.n)
    return ell.la * LD(18) * n**5 * np.minimum(1, 4 * np.abs(dphi))


def dpsi_err(phi, ell):
    c = np.maximum(np.abs(np.cos(phi)), LD("1e-30"))
    return 6 * EPS * (1 + np.abs(A.isometric(phi, ell))) + 4 * EPS / c


def j_inverse(ell, deg):
    def judge(a, o):
        la1, lo1, la2, lo2 = (geo.r(v, deg) for v in a)
        # exact reduction of the longitude difference
        d = geo.wrap(a[3] - a[1], deg)
        dlon = geo.r(d, deg)
        half = np.abs(np.abs(dlon) - PI) < 64 * EPS * (1 + np.abs(lo1) + np.abs(lo2))
        dM = A.meridian(la1, la2, ell)
        same = la1 == la2
        dpsi = dpsi_(la1, la2, ell)
        ratio = np.where(same, par(la1, ell), dM / np.where(same, 1, dpsi))
        hyp = np.hypot(dlon, dpsi)
        s = hyp * np.abs(ratio)
        az = np.arctan2(dlon, dpsi)
        sin, cos = np.abs(np.sin(az)), np.abs(np.where(same, 0, np.cos(az)))
        c1, c2 = np.abs(np.cos(la1)), np.abs(np.cos(la2))
        pole1, pole2 = c1 < POLE, c2 < POLE
        samepole = pole1 & pole2 & (np.sign(la1) == np.sign(la2))
        pole = pole1 | pole2
        dl = EPS * 4 * geo.sizes(a[1], a[3], deg=deg) + 4 * EPS
        dp = dpsi_err(la1, ell) + dpsi_err(la2, ell)
        ew = cos < LD("1.1e-9")
        cc = np.maximum(cos, LD("9e-10"))
        arc = 24 * EPS * ell.la * (1 + geo.sizes(a[0], a[2], deg=deg)) + series(ell, la2 - la1) + LD("0.021") * np.abs(ell.n) ** 4 * np.abs(dM)
        tol = (arc / cc + s * sin**2 / np.maximum(np.abs(dpsi), LD("1e-300")) * dp
               + s * (6 * EPS * sin / cc + 8 * EPS) + ell.la * np.maximum(c1, c2) * dl)
        # rounding decides whether the line counts as east-west: along the first parallel then
        east = (dl * ell.la * np.maximum(c1, c2) * 2 + 16 * EPS * (s + ell.la) + 2 * s * np.minimum(1, np.abs(la2 - la1) / np.maximum(c1, LD("1e-30"))))
        tol = tol + s * LD("2e-11")
        amb = (np.abs(dpsi) < LD("3e-9") * hyp + 2 * dp)
        tol = np.where(ew, east, np.where(amb, np.maximum(tol, east), tol))
        tol = np.where(pole, np.where(samepole, LD("4e-9") * ell.la, arc + LD("3e-9") * ell.la), tol)
        dist = np.asarray(o[0], LD)
        ed = np.abs(dist - s)
        ed = np.where(pole, np.minimum(ed, np.abs(dist - np.abs(dM))), ed)
        got = np.asarray(o[1], LD)
        zr = geo.r(got, deg)
        # direction: sideways error of the far end
        e = np.abs(geo.wrap(zr - az, False))
        e = np.where(half, np.minimum(e, np.abs(geo.wrap(zr + az, False))), e)
        h2 = np.maximum(hyp**2, LD("1e-300"))
        ztol = dp * np.abs(dlon) / h2 + dl * np.abs(dpsi) / h2 + 16 * EPS
        # towards or from a pole: north or south; at one pole any
        e = np.where(pole & ~samepole, np.minimum(e, np.abs(geo.wrap(zr - np.where(la2 > la1, 0, PI), False))), e)
        # the isometric latitude within a few 1e-9 of a pole is off by a good part of itself
        edge = np.minimum(c1, c2) < LD("1e-8")
        ztol = ztol + 8 * EPS * np.abs(dlon) / np.maximum(np.abs(dpsi) * np.minimum(c1, c2), LD("1e-300")) * np.minimum(1, np.abs(dpsi) / hyp)
        ztol = ztol + np.where(edge, (dp + LD("1e-3")) * np.abs(dlon) / np.maximum(hyp, LD("1e-9")), 0)
        nothing = hyp < 8 * dp + 8 * dl
        full = LD(360) if deg else 2 * PI
        return [("distance", ed, tol),
                ("distance sign", -dist, 0),
                ("azimuth", e, np.where(samepole | nothing, np.inf, ztol)),
                ("azimuth in one turn", np.where(got < 0, np.inf, got), full)]
    return judge


def newton(M2, ell):
    """geodetic latitude whose signed meridian arc is M2"""
    phi = M2 / A.quarter(ell) * PI / 2
    for _ in range(30):
        step = (A.meridian(LD(0) * phi, phi, ell) - M2) / M_(phi, ell)
        phi = phi - step
        if np.max(np.abs(step), initial=0) < 1e-18:
            break
    return phi


def j_direct(ell, deg):
    def judge(a, o):
        la1, lo1, rng_, az = geo.r(a[0], deg), geo.r(a[1], deg), a[2], a[3]
        s_, c_ = geo.trig(az, deg)
        M1 = A.meridian(LD(0) * la1, la1, ell)
        M2 = M1 + rng_ * c_
        inside = np.abs(M2) < A.quarter(ell) * (1 - LD("1e-7"))
        ok = inside & (np.abs(np.cos(la1)) > POLE)
        M2 = np.where(ok, M2, M1)
        la2 = np.where(rng_ * np.abs(c_) == 0, la1, newton(M2, ell))
        dM = np.where(ok, rng_ * c_, 0)
        dpsi = dpsi_(la1, la2, ell)
        flat = np.abs(dM) < LD("1e-9") * ell.la
        ratio = np.where(flat, 1 / np.maximum(par(la1 + dM / M_(la1, ell) / 2, ell), LD("1e-30")), dpsi / np.where(flat, 1, dM))
        dlon = rng_ * s_ * ratio
        got_la, got_lo = geo.r(o[0], deg), geo.r(o[1], deg)
        n = np.abs(ell.n)
        lt = 16 * EPS * (1 + rng_ / ell.la) + 12 * n**5 * np.minimum(1, rng_ / ell.la * 4 + EPS) + LD("0.021") * n**4 * rng_ / ell.la
        lt = lt + 12 * n**5  # forward and back through two series
        dz = 4 * EPS * geo.sizes(az, deg=deg) + 4 * EPS
        lt = lt + rng_ / ell.la * (1 + 4 * ell.f) * dz
        p2 = par(la2, ell)
        t = np.abs(s_) / np.maximum(np.abs(c_), LD("9e-10"))
        cm = np.maximum(np.minimum(np.abs(np.cos(la1)), np.abs(np.cos(la2))), LD("1e-30"))
        # isometric latitudes cancel only where the change of latitude is above 1e-4
        t = np.minimum(t, rng_ / ell.la * (1 + 3 * ell.f) / (LD("0.9e-4") * cm))
        lonerr = p2 * (t * (dpsi_err(la1, ell) + dpsi_err(la2, ell) + 2 * lt / np.maximum(np.abs(np.cos(la2)), LD("1e-30")))
                       + dz * rng_ * np.maximum(ratio, 0) + np.abs(dlon) * (2 * lt + 6 * EPS) / cm
                       # along the parallel through the middle up to that change
                       + np.abs(dlon) * LD("1.5e-9")
                       + 6 * EPS * (np.abs(lo1) + np.abs(dlon)) + 4 * EPS)
        e = np.abs(geo.wrap(got_lo - lo1 - dlon, False)) * p2
        # an error close to a whole turn tells nothing
        lonerr = np.where(lonerr > p2, np.inf, lonerr)
        return [("latitude", np.abs(got_la - la2), np.where(ok, lt, np.inf)),
                ("longitude (sideways)", e, np.where(ok, lonerr, np.inf)),
                ("latitude in range", np.abs(got_la), np.where(ok, PI / 2 + LD("4e-15"), np.inf))]
    return judge


def run(ctx):
    ctx.rule = ("point pairs: random, close, same latitude, same meridian, same point, poles, across the antimeridian, "
                "almost east-west; directions over two turns incl. exact cardinal ones and 1e-12 next to them; default, "
                "named, spherical, random ellipsoids (f <= 0.05); oracle: meridian arc by quadrature and the Mercator "
                "differential in extended precision")
    ctx.assumptions = ["documented series (rectifying n^5, radius n^4, authalic e^8) are granted",
                       "within 1e-9 rad of a pole the isometric latitude may be taken as infinite",
                       "the loss of digits of distance = arc / cos(azimuth) next to east-west is granted",
                       "loxodrome_direct is judged away from the poles (a rhumb line does not cross them)"]
    rng = ctx.rng
    N = ctx.n(2500, 25000)
    sc = ctx.n(80, 400)
    modes = ("array", "array2d", "scalar", "stdlib", "npscalar")
    for ell in gen.ells(ctx, ctx.n(2, 10), ctx.n(2, 25), fmax=0.05):
        for deg in (True, False):
            cv = (lambda x: x) if deg else gen.rad
            la1, lo1 = gen.lat(rng, N), gen.lon(rng, N, wide=True)
            la2, lo2, _ = gen.near_target(rng, N, la1, lo1, 0 * la1, ell.a)
            k = rng.random(N)
            la2 = np.where(k < .1, la1, la2)
            la2 = np.where((k > .1) & (k < .2), np.clip(la1 + 10 ** rng.uniform(-14, -5, N), -90, 90), la2)
            lo2 = np.where((k > .2) & (k < .25), lo1, lo2)
            args = [cv(v) for v in (la1, lo1, la2, lo2)]
            ctx.observe("lox.loxodrome_inverse", args, {"deg": deg}, j_inverse(ell, deg), ell=ell, scalars=sc, modes=modes)
            if deg:
                ctx.observe("lox.loxodrome_inverse", [np.round(v) for v in args], {"deg": True}, j_inverse(ell, True), ell=ell,
                            scalars=30, modes=("int",))

            la = np.where(np.abs(la1) > 89.99999, np.sign(la1) * rng.uniform(0, 89.9, N), la1)
            az = gen.azimuth(rng, N)
            az = np.where(rng.random(N) < .2, rng.choice([0, 90, 180, 270, 360.], N) + rng.choice([-1, 1], N) * 10 ** rng.uniform(-13, -1, N), az)
            az = np.where(rng.random(N) < .2, az - 360, az)
            s = np.abs(gen.length(rng, N, -3, 7.5)) * ell.a / 6.4e6
            room = (90 - np.abs(la)) * np.pi / 180 * ell.a
            s = np.where(rng.random(N) < .6, rng.uniform(0, .97, N) * room, s)
            ctx.observe("lox.loxodrome_direct", [cv(la), cv(lo1), s, cv(az)], {"deg": deg}, j_direct(ell, deg), ell=ell,
                        scalars=sc, modes=modes)

            def j_arc(a, o, ell=ell, deg=deg):
                p, q = (geo.r(a[0], deg), geo.r(a[1], deg)) if len(a) == 2 else (LD(0) * a[0], geo.r(a[0], deg))
                t = np.abs(A.meridian(p, q, ell))
                return [("arc", np.abs(np.asarray(o[0], LD) - t),
                         24 * EPS * ell.la + series(ell, q - p) + LD("0.021") * np.abs(ell.n) ** 4 * t)]
            ctx.observe("lox.meridian_arc", [cv(la1), cv(la2)], {"deg": deg}, j_arc, ell=ell, scalars=sc, modes=modes)
            ctx.observe("lox.meridian_dist", [cv(la1)], {"deg": deg}, j_arc, ell=ell, scalars=sc, modes=modes)

            def j_dep(a, o, ell=ell, deg=deg):
                d = np.abs(geo.r(geo.wrap(a[1] - a[0], deg), deg))
                t = par(geo.r(a[2], deg), ell) * d
                return [("departure", np.abs(np.asarray(o[0], LD) - t),
                         ell.la * (8 * EPS * d + (4 * EPS * geo.sizes(a[0], a[1], deg=deg) + 4 * EPS) * np.abs(np.cos(geo.r(a[2], deg)))))]
            ctx.observe("lox.departure", [cv(lo1), cv(lo2), cv(la1)], {"deg": deg}, j_dep, ell=ell, scalars=sc, modes=modes)

            for _ in range(ctx.n(15, 150)):
                m = int(rng.choice([1, 2, 3, 10, 200]))
                la_, lo_ = gen.lat(rng, m), gen.lon(rng, m)
                if rng.random() < .5:
                    c0, l0 = rng.uniform(-85, 85), rng.uniform(-180, 180)
                    w = 10 ** rng.uniform(-6, 1)
                    la_, lo_ = np.clip(c0 + w * rng.normal(size=m), -90, 90), l0 + w * rng.normal(size=m)
                L, O = cv(la_), cv(lo_)
                if rng.random() < .3 and m % 2 == 0:
                    L, O = L.reshape(2, -1), O.reshape(2, -1)
                rep = {"function": "lox.meanm", "args": [L.tolist(), O.tolist()], "kwargs": {"deg": deg}, "ell": ell.spec()}
                try:
                    gl, go = (float(v) for v in instr.call("lox.meanm", L, O, ell=ell.obj(), deg=deg))
                except Exception as ex:  # noqa: BLE001
                    ctx.violation(f"meanm raised {ex!r}", rep, key="meanm raise")
                    continue
                beta = A.authalic(geo.r(L, deg), ell)
                lam = geo.r(O, deg)
                v = [np.sum(np.cos(beta) * np.cos(lam)), np.sum(np.cos(beta) * np.sin(lam)), np.sum(np.sin(beta))]
                nv = geo.norm(v)
                bl, gg = A.authalic(geo.r(gl, deg), ell), geo.r(go, deg)
                u = [np.cos(bl) * np.cos(gg), np.cos(bl) * np.sin(gg), np.sin(bl)]
                err = geo.dist(u, [x / nv for x in v])
                tol = (LD("0.14") * ell.e2**4 * (1 + ell.e2) * (1 + m / nv) + 12 * EPS * m / nv * (2 + np.max(np.abs(lam))))
                ctx._tally("lox.meanm", "array", [np.array([float(nv)]), np.array([gl]), np.array([go])],
                           [np.array([gl]), np.array([go])], [("mean", err, tol)], rep, f"{m} points", ell, {"deg": deg})
