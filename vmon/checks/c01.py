"""C01 geodetic <-> ECEF is the same point."""
import numpy as np

from .. import gen, geo, instr
from ..geo import EPS, LD


def judge_fwd(ell, deg):
    def judge(a, o):
        la, lo, h = a
        t = geo.fwd(la, lo, h, ell, deg)
        tol = EPS * (8 + 3 * geo.sizes(la, lo, deg=deg)) * (ell.la + np.abs(h))
        return [("position", geo.dist(o, t), tol)]
    return judge


def judge_inv(ell, deg, truth=None):
    full = LD(90) if deg else geo.PI / 2
    # one rounding of the unit conversion
    lim = full * (1 + 4 * EPS)

    def judge(a, o):
        x, y, z = a
        la, lo, h = o
        p = geo.fwd(la, lo, h, ell, deg)
        tol = geo.inverse_tol(ell, x, y, z)
        out = [("roundtrip", geo.dist(p, a), tol),
               ("lat in range", np.abs(np.asarray(la, LD)), lim),
               ("lon in range", np.abs(np.asarray(lo, LD)), 2 * lim),
               # the surface is not farther than along the ray from the centre
               ("principal solution (altitude)", -np.asarray(h, LD), np.maximum(ell.la - geo.norm((x, y, z)), 0) + tol)]
        # the longitude is exactly that of the point, whatever the altitude
        s, c = geo.trig(lo, deg)
        rho = np.sqrt(x**2 + y**2)
        out.append(("longitude", np.hypot(x - rho * c, y - rho * s), rho * EPS * 16))
        return out
    return judge


def run(ctx):
    ctx.rule = ("geodetic points (poles, dateline, equator, +-0, integers, altitude from half the radius from the centre to a thousand radii, and the known error of the closed form farther in and out) on default, named, "
                "spherical and random ellipsoids; every result compared with an extended-precision closed form, "
                "inverse results mapped back with it")
    ctx.assumptions = ["x87 long double as reference precision", "positions more than half the semi-major axis from the centre (0.72 if flattened by more than a fiftieth)"]
    rng = ctx.rng
    N = ctx.n(4000, 60000)
    for ell in gen.ells(ctx, ctx.n(3, 12), ctx.n(3, 40), flat=0.5):
        for deg in (True, False):
            # normals cross within e^2 a of the centre; more is kept for strongly flattened bodies
            low = 0.28 if ell.f > 0.02 else 0.49
            la, lo, h = gen.lat(rng, N), gen.lon(rng, N, wide=True), gen.alt(rng, N, ell.a, -low, 950)
            if not deg:
                la, lo = gen.rad(la), gen.rad(lo)
            sc = ctx.n(60, 400)
            ctx.observe("geodetic2ecef", [la, lo, h], {"deg": deg}, judge_fwd(ell, deg), ell=ell, scalars=sc)
            p = [np.asarray(v, float) for v in geo.fwd(la, lo, h, ell, deg)]
            # exact axes and planes
            k = rng.integers(0, 30, N)
            p[0] = np.where(k == 0, 0.0, p[0])
            p[1] = np.where(np.isin(k, (0, 1)), 0.0, p[1])
            p[2] = np.where(k == 2, rng.choice([0.0, -0.0], N), p[2])
            ok = np.sqrt(p[0] ** 2 + p[1] ** 2 + p[2] ** 2) > (1 - low) * ell.a
            p = [v[ok] for v in p]
            ctx.observe("ecef2geodetic", p, {"deg": deg}, judge_inv(ell, deg), ell=ell, scalars=sc,
                        modes=("array", "array2d", "scalar", "stdlib", "npscalar"))
            q = [np.round(v) for v in p]
            ctx.observe("ecef2geodetic", [v[:sc] for v in q], {"deg": deg}, judge_inv(ell, deg), ell=ell,
                        scalars=sc, modes=("int",))
            ctx.observe("geodetic2ecef", [np.round(la[:sc]), np.round(lo[:sc]), np.round(h[:sc])], {"deg": deg},
                        judge_fwd(ell, deg), ell=ell, scalars=sc, modes=("int",))
    # farther in and farther out the closed form is not refined: its error, and no other
    for ell in gen.ells(ctx, 2, 2):
        if ell.f > 0.02:
            continue
        R = ell.a * np.where(rng.random(N) < .5, rng.uniform(.28, .4999, N), 10 ** rng.uniform(3.001, 5, N))
        s = rng.uniform(-1, 1, N)
        lo = rng.uniform(-np.pi, np.pi, N)
        c = np.sqrt(1 - s * s)
        p = [R * c * np.cos(lo), R * c * np.sin(lo), R * s]
        ctx.observe("ecef2geodetic", p, {"deg": True}, judge_inv(ell, True), ell=ell, scalars=50)
        g = instr.call("ecef2geodetic", *p, ell=ell.obj())
        err = geo.dist(geo.fwd(*g, ell, True), p)
        if (err > 1e-3 + 1e-9 * R).any():
            ctx.finding("C01-closed-inverse-deep-and-far", f"ecef2geodetic off by {float(err.max()):.3g} m at {R[np.argmax(err)] / ell.a:.3g} radii")
    # integer and single-precision arrays: the value is that of the numbers, not of their type
    call = instr.call
    for ell in gen.ells(ctx, 1, 1):
        la, lo, h = (np.round(gen.lat(rng, 500)), np.round(gen.lon(rng, 500)),
                     np.round(np.clip(gen.alt(rng, 500, ell.a), -2e9, 2e9)))
        p = [np.round(np.clip(np.asarray(v, float), -2e9, 2e9)) for v in geo.fwd(la, lo, h, ell)]
        ok = np.sqrt(p[0] ** 2 + p[1] ** 2 + p[2] ** 2) > 0.72 * ell.a
        p = [v[ok] for v in p]
        for dt in (np.int64, np.int32, np.float32):
            for fn, arr, jd in (("geodetic2ecef", [la, lo, h], judge_fwd), ("ecef2geodetic", p, judge_inv)):
                b = [v.astype(dt) for v in arr]
                with np.errstate(all="ignore"):
                    out = call(fn, *b, ell=ell.obj())
                outs = [np.asarray(v, float) for v in out]
                exact = [np.asarray(v, float) for v in b]
                verdicts = jd(ell, True)([v.astype(LD) for v in exact], outs)
                if dt is np.float32:
                    # single precision arithmetic: only the order of magnitude can be asked for
                    R = np.abs(geo.norm([v.astype(LD) for v in p])) if fn[0] == "e" else ell.la + np.abs(exact[2])
                    verdicts = [(verdicts[0][0], verdicts[0][1], verdicts[0][2] + LD("3e-5") * R)]
                ctx._tally(fn, f"dtype {np.dtype(dt).name}", exact, outs, verdicts,
                           {"function": fn, "mode": f"dtype {np.dtype(dt).name}", "ell": ell.spec(), "kwargs": {}},
                           "", ell, {"dtype": np.dtype(dt).name})
