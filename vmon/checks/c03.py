"""C03 azimuth, elevation, slant range describe the same displacement as the Cartesian frames."""
import numpy as np

from .. import earth, gen, geo, instr
from ..core import Ell
from ..geo import EPS, LD
from .c02 import FRAMES, judged_geodetic

MM = LD("1e-3")  # components below a millimetre are documented to be taken as zero


def slack(v, extra=0):
    t = LD(0)
    for c in v:
        t = t + np.where(np.abs(c) < MM + extra, np.abs(c), 0) ** 2
    return np.sqrt(t)


def ranges(o, deg):
    full = (LD(360) if deg else 2 * geo.PI) * (1 + 2 * EPS)
    az, el, r = (np.asarray(x, LD) for x in o)
    return [("azimuth in [0, full turn]", np.maximum(-az, az - full), 0),
            ("elevation in range", np.abs(el), full / 4),
            ("slant range not negative", -r, 0)]


def j_to_aer(frame, deg):
    def judge(a, o):
        v = geo.FROM_LOCAL[frame](*a)
        t = geo.aer_vec(*o, deg=deg)
        tol = 24 * EPS * geo.norm(v) + slack(v)
        return [("displacement", geo.dist(t, v), tol)] + ranges(o, deg)
    return judge


def j_from_aer(frame, deg):
    def judge(a, o):
        t = geo.TO_LOCAL[frame](*geo.aer_vec(*a, deg=deg))
        return [("displacement", geo.dist(o, t), EPS * (8 + 3 * geo.sizes(a[0], a[1], deg=deg)) * np.abs(a[2]))]
    return judge


def aer_of(p, l0, o0, h0, o, ell, deg, angles):
    p0 = geo.fwd(l0, o0, h0, ell, deg)
    v = geo.matvec(geo.enu_rows(l0, o0, deg), tuple(x - y for x, y in zip(p, p0)))
    tol = EPS * (10 + 6 * geo.sizes(*angles, deg=deg)) * (geo.norm(p) + geo.norm(p0) + ell.la)
    t = geo.aer_vec(*o, deg=deg)
    return [("displacement", geo.dist(t, v), 2 * tol + 24 * EPS * geo.norm(v) + slack(v, tol))] + ranges(o, deg)


def j_ecef2aer(ell, deg):
    def judge(a, o):
        return aer_of(a[:3], a[3], a[4], a[5], o, ell, deg, (a[3], a[4]))
    return judge


def j_geodetic2aer(ell, deg):
    def judge(a, o):
        return aer_of(geo.fwd(a[0], a[1], a[2], ell, deg), a[3], a[4], a[5], o, ell, deg, (a[0], a[1], a[3], a[4]))
    return judge


def target(a, ell, deg):
    v = geo.aer_vec(a[0], a[1], a[2], deg=deg)
    p0 = geo.fwd(a[3], a[4], a[5], ell, deg)
    d = geo.matvec(geo.transpose(geo.enu_rows(a[3], a[4], deg)), v)
    p = tuple(x + y for x, y in zip(p0, d))
    tol = EPS * (10 + 6 * geo.sizes(a[0], a[1], a[3], a[4], deg=deg)) * (geo.norm(v) + geo.norm(p0) + ell.la)
    return p, tol


def j_aer2ecef(ell, deg):
    def judge(a, o):
        p, tol = target(a, ell, deg)
        return [("point", geo.dist(o, p), tol)]
    return judge


def j_aer2geodetic(ell, deg):
    def judge(a, o):
        p, tol = target(a, ell, deg)
        return judged_geodetic(o, p, tol, ell, deg)
    return judge


def rotation(t, force, kw):
    """the library's own rotation from inertial to Earth-fixed axes at that instant (C19 judges it), as rows"""
    e = np.eye(3)
    rows = instr.call("eci2ecef", *[e[k].copy() * 1e7 for k in range(3)], t, force, **kw)
    return [[LD(float(v)) / LD(10) ** 7 for v in r] for r in rows]


def inertial(ctx, rng, ell, n, sc):
    """aer2eci and eci2aer: same line of sight, either implementation of the rotation"""
    w = Ell(none=True)
    for modes in (("array", "array2d", "scalar", "npscalar"), ("stdlib", "numpyonly")):
        t = earth.times(rng, 1)[0]
        eop = {}
        if "stdlib" in modes and rng.random() < .5:
            eop = {"delta_ut1": float(rng.uniform(-.9, .9)), "xp": float(rng.uniform(-2, 2)), "yp": float(rng.uniform(-2, 2))}
        M = rotation(t, "stdlib" in modes, eop)
        for deg in (True, False):
            cv = (lambda x: x) if deg else gen.rad
            kw = {"t": t, "deg": deg, **eop}
            la, lo, h = cv(gen.lat(rng, n)), cv(gen.lon(rng, n, wide=True)), gen.alt(rng, n, ell.a, -0.2)
            az, el = cv(gen.azimuth(rng, n)), cv(gen.elevation(rng, n))
            r = np.abs(gen.length(rng, n, 0, 9)) * ell.a / 6.4e6

            def j_to(a, o, M=M, deg=deg):
                p, tol = target(a, ell, deg)
                q = geo.matvec(M, [np.asarray(x, LD) for x in o])
                return [("point", geo.dist(q, p), tol + 60 * EPS * geo.norm(p))]
            ctx.observe("aer2eci", [az, el, r, la, lo, h], kw, j_to, ell=ell, scalars=sc, modes=modes)
            h = gen.alt(rng, n, w.a, -0.2)
            p, _ = target([np.asarray(x, LD) for x in (az, el, r, la, lo, h)], w, deg)
            q = [np.asarray(x, float) for x in geo.matvec(geo.transpose(M), p)]

            def j_back(a, o, M=M, deg=deg):
                P = geo.matvec(M, a[:3])
                res = aer_of(P, a[3], a[4], a[5], o, w, deg, (a[3], a[4]))
                return [(k, e, t_ + (120 * EPS * geo.norm(P) if k == "displacement" else 0)) for k, e, t_ in res]
            ctx.observe("eci2aer", [*q, la, lo, h], kw, j_back, scalars=sc, modes=modes)


def run(ctx):
    ctx.rule = ("displacements over 1e-6..1e8 m incl. axes, zeros and the zenith; azimuths over a full turn, elevations "
                "-90..90; observers incl. poles and dateline; results mapped back to a displacement and compared")
    ctx.assumptions = ["components under 1 mm may be dropped on the way to azimuth/elevation (documented)",
                       "azimuth exactly 360 is accepted for 0"]
    rng = ctx.rng
    N = ctx.n(3000, 40000)
    sc = ctx.n(60, 400)
    for deg in (True, False):
        cv = (lambda x: x) if deg else gen.rad
        for fr in FRAMES:
            v = [gen.length(rng, N, -6, 8) for _ in range(3)]
            ctx.observe(f"{fr}2aer", v, {"deg": deg}, j_to_aer(fr, deg), scalars=sc,
                        modes=("array", "array2d", "scalar", "stdlib", "npscalar"))
            ctx.observe(f"{fr}2aer", [np.round(x) for x in v], {"deg": deg}, j_to_aer(fr, deg), scalars=sc,
                        modes=("int",))
            az, el, r = gen.angle(rng, N), gen.elevation(rng, N), np.abs(gen.length(rng, N, -4, 9))
            ctx.observe(f"aer2{fr}", [cv(az), cv(el), r], {"deg": deg}, j_from_aer(fr, deg), scalars=sc)
    for ell in gen.ells(ctx, ctx.n(2, 10), ctx.n(2, 25), flat=0.5):
        for deg in (True, False):
            cv = (lambda x: x) if deg else gen.rad
            l0, o0, h0 = gen.lat(rng, N), gen.lon(rng, N, wide=True), gen.alt(rng, N, ell.a, -0.2)
            l1, o1, h1 = gen.near_target(rng, N, l0, o0, h0, ell.a)
            L0, O0, L1, O1 = cv(l0), cv(o0), cv(l1), cv(o1)
            kw = {"deg": deg}
            ctx.observe("geodetic2aer", [L1, O1, h1, L0, O0, h0], kw, j_geodetic2aer(ell, deg), ell=ell, scalars=sc)
            p = [np.asarray(x, float) for x in geo.fwd(L1, O1, h1, ell, deg)]
            ctx.observe("ecef2aer", [*p, L0, O0, h0], kw, j_ecef2aer(ell, deg), ell=ell, scalars=sc)
            az, el = gen.azimuth(rng, N), gen.elevation(rng, N)
            r = np.abs(gen.length(rng, N)) * ell.a / 6.4e6
            ctx.observe("aer2ecef", [cv(az), cv(el), r, L0, O0, h0], kw, j_aer2ecef(ell, deg), ell=ell, scalars=sc)
            ctx.observe("aer2geodetic", [cv(az), cv(el), r, L0, O0, h0], kw, j_aer2geodetic(ell, deg), ell=ell,
                        scalars=sc)
        inertial(ctx, rng, ell, ctx.n(400, 4000), ctx.n(20, 100))
