"""C05 aerospace body frame: rotations, points and vectors through each local frame."""
import numpy as np

from .. import gen, geo, instr
from ..geo import EPS, LD
from .c02 import FRAMES, judged_geodetic


def ned2body_rows(y, p, r, deg):
    sy, cy = geo.trig(y, deg)
    sp, cp = geo.trig(p, deg)
    sr, cr = geo.trig(r, deg)
    # body axes (forward, right, down) in NED: textbook direction cosine matrix, zyx sequence
    return ((cp * cy, cp * sy, -sp),
            (sr * sp * cy - cr * sy, sr * sp * sy + cr * cy, sr * cp),
            (cr * sp * cy + sr * sy, cr * sp * sy - sr * cy, cr * cp))


def ned_of(frame, v):
    return geo.TO_LOCAL["ned"](*geo.FROM_LOCAL[frame](*v))


def of_ned(frame, v):
    return geo.TO_LOCAL[frame](*geo.FROM_LOCAL["ned"](*v))


def body_of(frame, v, att, deg):
    return geo.matvec(ned2body_rows(*att, deg), ned_of(frame, v))


def local_of(frame, b, att, deg):
    return of_ned(frame, geo.matvec(geo.transpose(ned2body_rows(*att, deg)), b))


def matrix_err(o, m):
    err = LD(0)
    for i in range(3):
        for j in range(3):
            err = np.maximum(err, np.abs(np.asarray(o[3 * i + j], LD) - m[i][j]))
    nan = np.isnan(np.sum([np.asarray(x, float) for x in o], axis=0))
    return np.where(nan, np.inf, err)


def frame_matrix(frame, att, deg):
    """columns: images of the local basis vectors"""
    rows = ned2body_rows(*att, deg)
    one, zero = np.ones_like(rows[0][0]), np.zeros_like(rows[0][0])
    cols = []
    for k in range(3):
        e = [zero, zero, zero]
        e[k] = one
        cols.append(geo.matvec(rows, ned_of(frame, e)))
    return geo.transpose(cols)


def run(ctx):
    ctx.rule = ("attitudes over full turns incl. gimbal lock and quadrants, all four local frames, observers at poles, "
                "dateline and random places, default/named/random ellipsoids; oracle: the zyx direction cosine matrix "
                "written out in extended precision")
    ctx.assumptions = ["body axes forward, right, down; yaw, pitch, roll about z, y, x of NED"]
    rng = ctx.rng
    N = ctx.n(1200, 20000)
    sc = ctx.n(30, 250)
    for deg in (True, False):
        cv = (lambda x: x) if deg else gen.rad
        kw = {"deg": deg}
        att = [cv(gen.angle(rng, N)), cv(np.where(rng.random(N) < .2, rng.choice([-90., 90.], N), gen.angle(rng, N, 180))),
               cv(gen.angle(rng, N))]
        v = [gen.length(rng, N) for _ in range(3)]
        m0 = lambda a, o, deg=deg: [("matrix", matrix_err(o, ned2body_rows(*a, deg)),  # noqa: E731
                                     EPS * (8 + 4 * geo.sizes(*a, deg=deg)))]
        ctx.observe("body_matrix", att, kw, m0, scalars=sc)
        ctx.observe("body_matrix", att, {**kw, "sequence": "zyx"}, m0, scalars=sc)
        for fr in FRAMES:
            def jm(a, o, deg=deg, fr=fr):
                return [("matrix", matrix_err(o, frame_matrix(fr, a, deg)), EPS * (8 + 4 * geo.sizes(*a, deg=deg)))]

            def jmt(a, o, deg=deg, fr=fr):
                return [("matrix", matrix_err(o, geo.transpose(frame_matrix(fr, a, deg))),
                         EPS * (8 + 4 * geo.sizes(*a, deg=deg)))]

            def jb(a, o, deg=deg, fr=fr):
                t = body_of(fr, a[:3], a[3:6], deg)
                return [("vector", geo.dist(o, t), EPS * (10 + 4 * geo.sizes(*a[3:6], deg=deg)) * geo.norm(t))]

            def jl(a, o, deg=deg, fr=fr):
                t = local_of(fr, a[:3], a[3:6], deg)
                return [("vector", geo.dist(o, t), EPS * (10 + 4 * geo.sizes(*a[3:6], deg=deg)) * geo.norm(t))]

            ctx.observe(f"{fr}2body_matrix", att, kw, jm, scalars=sc)
            ctx.observe(f"body2{fr}_matrix", att, kw, jmt, scalars=sc)
            ctx.observe(f"{fr}2body", [*v, *att], kw, jb, scalars=sc)
            ctx.observe(f"body2{fr}", [*v, *att], kw, jl, scalars=sc)
    for k, ell in enumerate(gen.ells(ctx, ctx.n(1, 6), ctx.n(1, 12), flat=0.5)):
        for deg in (True, False):
            cv = (lambda x: x) if deg else gen.rad
            l0, o0, h0 = gen.lat(rng, N), gen.lon(rng, N, wide=True), gen.alt(rng, N, ell.a, -0.2)
            l1, o1, h1 = gen.near_target(rng, N, l0, o0, h0, ell.a)
            L0, O0, L1, O1 = cv(l0), cv(o0), cv(l1), cv(o1)
            att = [cv(gen.angle(rng, N)), cv(gen.angle(rng, N, 180)), cv(gen.angle(rng, N))]
            v = [gen.length(rng, N) * ell.a / 6.4e6 for _ in range(3)]
            p = [np.asarray(x, float) for x in geo.fwd(L1, O1, h1, ell, deg)]
            # yaw, pitch and roll describe one attitude relative to NED, whatever frame carries them
            for fr in (None,) + FRAMES:
                kw = {"deg": deg} if fr is None else {"deg": deg, "frame": fr}
                f = fr or "ned"

                def fac(*angles, deg=deg):
                    return EPS * (14 + 6 * geo.sizes(*angles, deg=deg))

                def j_e2b(a, o, deg=deg, ell=ell, f=f):
                    p0 = geo.fwd(a[3], a[4], a[5], ell, deg)
                    d = tuple(x - y for x, y in zip(a[:3], p0))
                    t = body_of(f, geo.matvec(geo.local_rows(f, a[3], a[4], deg), d), a[6:9], deg)
                    return [("point", geo.dist(o, t),
                             fac(a[3], a[4], *a[6:9]) * (geo.norm(a[:3]) + geo.norm(p0) + ell.la))]

                def j_g2b(a, o, deg=deg, ell=ell, f=f):
                    q = geo.fwd(a[0], a[1], a[2], ell, deg)
                    p0 = geo.fwd(a[3], a[4], a[5], ell, deg)
                    d = tuple(x - y for x, y in zip(q, p0))
                    t = body_of(f, geo.matvec(geo.local_rows(f, a[3], a[4], deg), d), a[6:9], deg)
                    return [("point", geo.dist(o, t),
                             fac(a[0], a[1], a[3], a[4], *a[6:9]) * (geo.norm(q) + geo.norm(p0) + ell.la))]

                def tgt(a, deg=deg, ell=ell, f=f):
                    p0 = geo.fwd(a[3], a[4], a[5], ell, deg)
                    d = geo.matvec(geo.transpose(geo.local_rows(f, a[3], a[4], deg)),
                                   local_of(f, a[:3], a[6:9], deg))
                    return tuple(x + y for x, y in zip(p0, d)), fac(a[3], a[4], *a[6:9]) * (
                        geo.norm(d) + geo.norm(p0) + ell.la)

                def j_b2e(a, o):
                    t, tol = tgt(a)
                    return [("point", geo.dist(o, t), tol)]

                def j_b2g(a, o, deg=deg, ell=ell):
                    t, tol = tgt(a)
                    return judged_geodetic(o, t, tol, ell, deg)

                ctx.observe("ecef2body", [*p, L0, O0, h0, *att], kw, j_e2b, ell=ell, scalars=sc)
                ctx.observe("geodetic2body", [L1, O1, h1, L0, O0, h0, *att], kw, j_g2b, ell=ell, scalars=sc)
                ctx.observe("body2ecef", [*v, L0, O0, h0, *att], kw, j_b2e, ell=ell, scalars=sc)
                ctx.observe("body2geodetic", [*v, L0, O0, h0, *att], kw, j_b2g, ell=ell, scalars=sc)
                if k == 0:
                    def j_ev(a, o, deg=deg, f=f):
                        t = body_of(f, geo.matvec(geo.local_rows(f, a[3], a[4], deg), a[:3]), a[5:8], deg)
                        return [("vector", geo.dist(o, t), fac(*a[3:8]) * geo.norm(t))]

                    def j_be(a, o, deg=deg, f=f):
                        t = geo.matvec(geo.transpose(geo.local_rows(f, a[3], a[4], deg)),
                                       local_of(f, a[:3], a[5:8], deg))
                        return [("vector", geo.dist(o, t), fac(*a[3:8]) * geo.norm(t))]

                    ctx.observe("ecef2bodyv", [*v, L0, O0, *att], kw, j_ev, scalars=sc)
                    ctx.observe("body2ecefv", [*v, L0, O0, *att], kw, j_be, scalars=sc)
    # refused sequences and frames
    for _ in range(5):
        y, p_, r_ = (float(x) for x in rng.uniform(-90, 90, 3))
        for bad in ("xyz", "zxz", "", "ZYX", "zy"):
            for fn, args in (("body_matrix", (y, p_, r_)), ("ned2body", (1., 2., 3., y, p_, r_)),
                             ("body2enu", (1., 2., 3., y, p_, r_)),
                             ("ecef2body", (1., 2., 3., 10., 20., 0., y, p_, r_))):
                try:
                    res = instr.call(fn, *args, sequence=bad)
                    ctx.violation(f"{fn}: unsupported sequence {bad!r} accepted -> {res}",
                                  {"function": fn, "args": list(args), "kwargs": {"sequence": bad}}, key="sequence")
                except ValueError:
                    ctx.ok(True, "", fn=fn, mode="refused argument")
        for bad in ("xyz", "", "NED", "ecef"):
            for fn, args in (("ecef2body", (1., 2., 3., 10., 20., 0., y, p_, r_)),
                             ("body2ecef", (1., 2., 3., 10., 20., 0., y, p_, r_)),
                             ("ecef2bodyv", (1., 2., 3., 10., 20., y, p_, r_)),
                             ("body2ecefv", (1., 2., 3., 10., 20., y, p_, r_)),
                             ("geodetic2body", (1., 2., 3., 10., 20., 0., y, p_, r_)),
                             ("body2geodetic", (1., 2., 3., 10., 20., 0., y, p_, r_))):
                try:
                    res = instr.call(fn, *args, frame=bad)
                    ctx.violation(f"{fn}: unknown frame {bad!r} accepted -> {res}",
                                  {"function": fn, "args": list(args), "kwargs": {"frame": bad}}, key="frame")
                except ValueError:
                    ctx.ok(True, "", fn=fn, mode="refused argument")
