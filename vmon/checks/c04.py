"""C04 down-range / cross-range / above frame."""
import numpy as np

from .. import gen, geo
from ..geo import EPS, LD
from .c02 import judged_geodetic
from .c03 import ranges, slack


def from_enu(v, hd, deg):
    """along the heading, left of it (cross = -e cos + n sin), up"""
    s, c = geo.trig(hd, deg)
    return v[0] * s + v[1] * c, -v[0] * c + v[1] * s, v[2]


def to_enu(v, hd, deg):
    s, c = geo.trig(hd, deg)
    return v[0] * s - v[1] * c, v[0] * c + v[1] * s, v[2]


def simple(expect, deg, nang):
    def judge(a, o):
        t = expect(a)
        tol = EPS * (8 + 4 * geo.sizes(*[a[i] for i in nang], deg=deg)) * geo.norm(t)
        return [("displacement", geo.dist(o, t), tol)]
    return judge


def run(ctx):
    ctx.rule = ("displacements 1e-4..1e8 m and headings over +-2 turns; points around observers at poles, dateline and "
                "random places; DCA axes written out in extended precision")
    ctx.assumptions = ["down-range along the heading, cross-range to its left, above = up"]
    rng = ctx.rng
    N = ctx.n(3000, 40000)
    sc = ctx.n(60, 400)
    for deg in (True, False):
        cv = (lambda x: x) if deg else gen.rad
        kw = {"deg": deg}
        v = [gen.length(rng, N) for _ in range(3)]
        hd = cv(gen.angle(rng, N, 720))
        ctx.observe("enu2dca", [*v, hd], kw, simple(lambda a: from_enu(a[:3], a[3], deg), deg, (3,)), scalars=sc)
        ctx.observe("ned2dca", [*v, hd], kw,
                    simple(lambda a: from_enu((a[1], a[0], -a[2]), a[3], deg), deg, (3,)), scalars=sc)
        ctx.observe("dca2enu", [*v, hd], kw, simple(lambda a: to_enu(a[:3], a[3], deg), deg, (3,)), scalars=sc)

        def dn(a, deg=deg):
            e, n, u = to_enu(a[:3], a[3], deg)
            return n, e, -u
        ctx.observe("dca2ned", [*v, hd], kw, simple(dn, deg, (3,)), scalars=sc)
        az, el, r = gen.azimuth(rng, N), gen.elevation(rng, N), np.abs(gen.length(rng, N))
        ctx.observe("aer2dca", [cv(az), cv(el), r, hd], kw,
                    simple(lambda a: from_enu(geo.aer_vec(a[0], a[1], a[2], deg=deg), a[3], deg), deg, (0, 1, 3)),
                    scalars=sc)

        def jd(a, o, deg=deg):
            e = to_enu(a[:3], a[3], deg)
            rounding = EPS * (8 + 4 * geo.sizes(a[3], deg=deg)) * geo.norm(e)
            return [("displacement", geo.dist(geo.aer_vec(*o, deg=deg), e),
                     rounding + 24 * EPS * geo.norm(e) + slack(e, rounding))] + ranges(o, deg)
        ctx.observe("dca2aer", [*v, hd], kw, jd, scalars=sc)
    for ell in gen.ells(ctx, ctx.n(2, 10), ctx.n(2, 25), flat=0.5):
        for deg in (True, False):
            cv = (lambda x: x) if deg else gen.rad
            kw = {"deg": deg}
            l0, o0, h0 = gen.lat(rng, N), gen.lon(rng, N, wide=True), gen.alt(rng, N, ell.a, -0.2)
            l1, o1, h1 = gen.near_target(rng, N, l0, o0, h0, ell.a)
            L0, O0, L1, O1 = cv(l0), cv(o0), cv(l1), cv(o1)
            hd = cv(gen.angle(rng, N))
            v = [gen.length(rng, N) * ell.a / 6.4e6 for _ in range(3)]

            def tol0(x, y, *angles, deg=deg, ell=ell):
                return EPS * (12 + 6 * geo.sizes(*angles, deg=deg)) * (geo.norm(x) + geo.norm(y) + ell.la)

            def tgt(a, deg=deg, ell=ell):
                p0 = geo.fwd(a[3], a[4], a[5], ell, deg)
                d = geo.matvec(geo.transpose(geo.enu_rows(a[3], a[4], deg)), to_enu(a[:3], a[6], deg))
                return tuple(x + y for x, y in zip(p0, d)), tol0(d, p0, a[3], a[4], a[6])

            def j_fwd(a, o, deg=deg, ell=ell):
                p, tol = tgt(a)
                return [("point", geo.dist(o, p), tol)]

            def j_geo(a, o, deg=deg, ell=ell):
                p, tol = tgt(a)
                return judged_geodetic(o, p, tol, ell, deg)

            def dca_of(p, l, o_, h, hdg, deg=deg, ell=ell):
                p0 = geo.fwd(l, o_, h, ell, deg)
                v = geo.matvec(geo.enu_rows(l, o_, deg), tuple(x - y for x, y in zip(p, p0)))
                return from_enu(v, hdg, deg), p0

            def j_e2d(a, o):
                t, p0 = dca_of(a[:3], *a[3:7])
                return [("point", geo.dist(o, t), tol0(a[:3], p0, a[3], a[4], a[6]))]

            def j_g2d(a, o, deg=deg, ell=ell):
                p = geo.fwd(a[0], a[1], a[2], ell, deg)
                t, p0 = dca_of(p, *a[3:7])
                return [("point", geo.dist(o, t), tol0(p, p0, a[0], a[1], a[3], a[4], a[6]))]

            ctx.observe("dca2ecef", [*v, L0, O0, h0, hd], kw, j_fwd, ell=ell, scalars=sc)
            ctx.observe("dca2geodetic", [*v, L0, O0, h0, hd], kw, j_geo, ell=ell, scalars=sc)
            p = [np.asarray(x, float) for x in geo.fwd(L1, O1, h1, ell, deg)]
            ctx.observe("ecef2dca", [*p, L0, O0, h0, hd], kw, j_e2d, ell=ell, scalars=sc)
            ctx.observe("geodetic2dca", [L1, O1, h1, L0, O0, h0, hd], kw, j_g2d, ell=ell, scalars=sc)
