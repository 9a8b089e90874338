"""C28 Cartesian <-> polar and spherical helpers."""
import numpy as np

from .. import gen, geo
from ..geo import EPS, LD, PI


def run(ctx):
    ctx.rule = ("coordinates over 24 orders of magnitude, and over 580 with comparable coordinates, with zeros of both signs and axes; angles over two turns; oracle: "
                "definitions in extended precision")
    rng = ctx.rng
    N = ctx.n(8000, 80000)
    sc = ctx.n(400, 3000)
    modes = ("array", "array2d", "scalar", "stdlib", "npscalar")
    for turn in range(ctx.n(3, 12)):
        # one time in three: over nearly all that a float can hold, the three coordinates of comparable size
        x, y, z = (gen.length(rng, N, -12, 12) for _ in range(3))
        if turn % 3 == 2:
            m = 10.0 ** rng.uniform(-280, 300, N)
            x, y, z = (v * m for v in rng.normal(size=(3, N)) * 10.0 ** rng.choice([0, 0, -5, -12], (3, N)))

        def j_pol(a, o):
            th, r = (np.asarray(v, LD) for v in o)
            n = np.hypot(a[0], a[1])
            return [("radius", np.abs(r - n), 4 * EPS * n),
                    ("direction", np.hypot(r * np.cos(th) - a[0], r * np.sin(th) - a[1]), 12 * EPS * n),
                    ("angle range", np.abs(th), PI * (1 + EPS))]
        ctx.observe("utils.cart2pol", [x, y], {}, j_pol, scalars=sc, modes=modes)
        ctx.observe("utils.cart2pol", [np.round(x) % 1e9, np.round(y) % 1e9], {}, j_pol, scalars=60, modes=("int",))

        def j_sph(a, o):
            az, el, r = (np.asarray(v, LD) for v in o)
            n = geo.norm(a)
            q = (r * np.cos(el) * np.cos(az), r * np.cos(el) * np.sin(az), r * np.sin(el))
            return [("radius", np.abs(r - n), 6 * EPS * n), ("position", geo.dist(q, a), 20 * EPS * n),
                    ("azimuth range", np.abs(az), PI * (1 + EPS)), ("elevation range", np.abs(el), PI / 2 * (1 + EPS))]
        ctx.observe("utils.cart2sph", [x, y, z], {}, j_sph, scalars=sc, modes=modes)
        ctx.observe("utils.cart2sph", [np.round(v) % 1e9 for v in (x, y, z)], {}, j_sph, scalars=60, modes=("int",))

        th, el = gen.rad(gen.angle(rng, N, 720)), gen.rad(gen.elevation(rng, N))
        r = np.abs(gen.length(rng, N, -12, 12)) if turn % 3 != 2 else 10.0 ** rng.uniform(-280, 300, N)

        def j_cart(a, o):
            o = [np.asarray(v, LD) for v in o]
            n = np.abs(a[1])
            return [("position", np.hypot(o[0] - a[1] * np.cos(a[0]), o[1] - a[1] * np.sin(a[0])), 6 * EPS * n)]
        ctx.observe("utils.pol2cart", [th, r], {}, j_cart, scalars=sc, modes=modes)
        # a negative radius is the opposite point
        sign = rng.choice([-1.0, 1.0], N)
        ctx.observe("utils.pol2cart", [th, r * sign], {}, j_cart, scalars=sc // 4, modes=modes)

        def j_scart(a, o):
            q = (a[2] * np.cos(a[1]) * np.cos(a[0]), a[2] * np.cos(a[1]) * np.sin(a[0]), a[2] * np.sin(a[1]))
            return [("position", geo.dist([np.asarray(v, LD) for v in o], q), 8 * EPS * np.abs(a[2]))]
        ctx.observe("utils.sph2cart", [th, el, r], {}, j_scart, scalars=sc, modes=modes)
        ctx.observe("utils.sph2cart", [th, el, r * sign], {}, j_scart, scalars=sc // 4, modes=modes)
