"""C02 local tangent frames (ENU, NED, NWU, SEZ): points, vectors and rotation matrices."""
import numpy as np

from .. import gen, geo
from ..geo import EPS, LD

FRAMES = ("enu", "ned", "nwu", "sez")
VEC_TO = {"enu": ("ecef2enuv", "uvw2enu"), "ned": ("ecef2nedv",), "nwu": ("ecef2nwuv",), "sez": ("ecef2sezv",)}
VEC_FROM = {"enu": ("enu2uvw", "enu2ecefv"), "ned": (), "nwu": ("nwu2ecefv",), "sez": ("sez2ecefv",)}


def j_vec_to(frame, deg):
    def judge(a, o):
        v, la, lo = a[:3], a[3], a[4]
        t = geo.matvec(geo.local_rows(frame, la, lo, deg), v)
        tol = EPS * (8 + 4 * geo.sizes(la, lo, deg=deg)) * geo.norm(v)
        return [("vector", geo.dist(o, t), tol)]
    return judge


def j_vec_from(frame, deg):
    def judge(a, o):
        v, la, lo = a[:3], a[3], a[4]
        t = geo.matvec(geo.transpose(geo.local_rows(frame, la, lo, deg)), v)
        tol = EPS * (8 + 4 * geo.sizes(la, lo, deg=deg)) * geo.norm(v)
        return [("vector", geo.dist(o, t), tol)]
    return judge


def j_pt_to(frame, ell, deg):
    def judge(a, o):
        p, la, lo, h = a[:3], a[3], a[4], a[5]
        p0 = geo.fwd(la, lo, h, ell, deg)
        d = tuple(x - y for x, y in zip(p, p0))
        t = geo.matvec(geo.local_rows(frame, la, lo, deg), d)
        tol = EPS * (10 + 6 * geo.sizes(la, lo, deg=deg)) * (geo.norm(p) + geo.norm(p0) + ell.la)
        return [("point", geo.dist(o, t), tol)]
    return judge


def target(frame, a, ell, deg):
    v, la, lo, h = a[:3], a[3], a[4], a[5]
    p0 = geo.fwd(la, lo, h, ell, deg)
    d = geo.matvec(geo.transpose(geo.local_rows(frame, la, lo, deg)), v)
    p = tuple(x + y for x, y in zip(p0, d))
    tol = EPS * (10 + 6 * geo.sizes(la, lo, deg=deg)) * (geo.norm(v) + geo.norm(p0) + ell.la)
    return p, tol


def j_pt_from(frame, ell, deg):
    def judge(a, o):
        p, tol = target(frame, a, ell, deg)
        return [("point", geo.dist(o, p), tol)]
    return judge


def judged_geodetic(o, p, tol, ell, deg):
    """verdicts for a (lat, lon, alt) result that should be the ECEF point p"""
    q = geo.fwd(o[0], o[1], o[2], ell, deg)
    t = tol * 2 + geo.inverse_tol(ell, *p)
    # points deep inside (or at the centre) have no well-defined geodetic coordinates
    t = np.where(geo.norm(p) > LD("0.72") * ell.la, t, np.inf)
    full = (LD(90) if deg else geo.PI / 2) * (1 + 4 * EPS)
    return [("point", geo.dist(q, p), t),
            ("lat in range", np.abs(np.asarray(o[0], LD)), np.where(np.isfinite(t), full, np.inf)),
            ("lon in range", np.abs(np.asarray(o[1], LD)), np.where(np.isfinite(t), 2 * full, np.inf)),
            ("principal solution", -np.asarray(o[2], LD), np.where(np.isfinite(t), LD("0.45") * ell.la, np.inf))]


def j_pt_geodetic(frame, ell, deg):
    def judge(a, o):
        p, tol = target(frame, a, ell, deg)
        return judged_geodetic(o, p, tol, ell, deg)
    return judge


def j_geodetic_to(frame, ell, deg):
    def judge(a, o):
        la, lo, h, l0, o0, h0 = a
        p = geo.fwd(la, lo, h, ell, deg)
        p0 = geo.fwd(l0, o0, h0, ell, deg)
        t = geo.matvec(geo.local_rows(frame, l0, o0, deg), tuple(x - y for x, y in zip(p, p0)))
        tol = EPS * (10 + 6 * geo.sizes(la, lo, l0, o0, deg=deg)) * (geo.norm(p) + geo.norm(p0) + ell.la)
        return [("point", geo.dist(o, t), tol)]
    return judge


def j_matrix(frame, deg, inverse):
    def judge(a, o):
        m = geo.local_rows(frame, a[0], a[1], deg)
        if inverse:
            m = geo.transpose(m)
        err = LD(0)
        for i in range(3):
            for j in range(3):
                err = np.maximum(err, np.abs(np.asarray(o[3 * i + j], LD) - m[i][j]))
        nan = np.isnan(np.sum([np.asarray(x, float) for x in o], axis=0))
        return [("matrix", np.where(nan, np.inf, err), EPS * (4 + 3 * geo.sizes(a[0], a[1], deg=deg)))]
    return judge


def run(ctx):
    ctx.rule = ("observers at poles, dateline, equator and random places, targets related to them (same place, "
                "antipode, same meridian, close, far) and vectors over 1e-4..1e8 m; each result compared with "
                "the frame's axes written out in extended precision")
    ctx.assumptions = ["x87 long double as reference precision", "frame axes: ENU, NED, NWU, SEZ (south, east, zenith)"]
    rng = ctx.rng
    N = ctx.n(1500, 20000)
    sc = ctx.n(40, 300)
    for ell in gen.ells(ctx, ctx.n(2, 8), ctx.n(2, 25), flat=0.5):
        for deg in (True, False):
            cv = (lambda x: x) if deg else gen.rad
            for fr in FRAMES:
                l0, o0, h0 = gen.lat(rng, N), gen.lon(rng, N, wide=True), gen.alt(rng, N, ell.a, -0.2)
                L0, O0 = cv(l0), cv(o0)
                v = [gen.length(rng, N) * ell.a / 6.4e6 for _ in range(3)]
                near = rng.random(N) < 0.3  # short baselines
                v = [np.where(near, gen.length(rng, N, -6, 3), x) for x in v]
                kw = {"deg": deg}
                ctx.observe(f"{fr}2ecef", [*v, L0, O0, h0], kw, j_pt_from(fr, ell, deg), ell=ell, scalars=sc)
                ctx.observe(f"{fr}2geodetic", [*v, L0, O0, h0], kw, j_pt_geodetic(fr, ell, deg), ell=ell, scalars=sc)
                l1, o1, h1 = gen.near_target(rng, N, l0, o0, h0, ell.a)
                ctx.observe(f"geodetic2{fr}", [cv(l1), cv(o1), h1, L0, O0, h0], kw, j_geodetic_to(fr, ell, deg),
                            ell=ell, scalars=sc)
                p = [np.asarray(x, float) for x in geo.fwd(cv(l1), cv(o1), h1, ell, deg)]
                ctx.observe(f"ecef2{fr}", [*p, L0, O0, h0], kw, j_pt_to(fr, ell, deg), ell=ell, scalars=sc)
                if ell.none:
                    for fn in VEC_TO[fr]:
                        ctx.observe(fn, [*v, L0, O0], kw, j_vec_to(fr, deg), scalars=sc)
                    for fn in VEC_FROM[fr]:
                        ctx.observe(fn, [*v, L0, O0], kw, j_vec_from(fr, deg), scalars=sc)
                    ctx.observe(f"ecef2{fr}_matrix", [L0, O0], kw, j_matrix(fr, deg, False), scalars=sc)
                    ctx.observe(f"{fr}2ecef_matrix", [L0, O0], kw, j_matrix(fr, deg, True), scalars=sc)
