"""C20 Inertial <-> Earth-fixed states: velocities are the derivatives of positions."""
import warnings

import numpy as np

from .. import earth, geo, instr
from ..geo import LD

ARC = earth.ARCSEC
FAST = 0.2 * ARC
FINE = 2e-9


def run(ctx):
    ctx.rule = ("times 1973-2022 (built-in model: 1950-2060) in several zones; positions 1e3 to 1e9 m, velocities 0 to 1e5 m/s, "
                "at rest in either frame, single states and arrays; with Astropy, forced without, absent, NumPy absent; "
                "oracle: SOFA rotation matrix and its time derivative")
    ctx.assumptions = ["the built-in model differentiates over Julian dates that resolve 40 microseconds: "
                       "velocity good to 3e-6 of the Earth's rotation speed at that distance"]
    warnings.simplefilter("ignore")
    rng = ctx.rng
    N = ctx.n(50, 100)
    sc = ctx.n(5, 8)

    def states(n):
        p = rng.normal(size=(3, n))
        p *= 10 ** rng.uniform(3, 9, n) / np.sqrt((p ** 2).sum(0))
        v = rng.normal(size=(3, n)) * 10 ** rng.uniform(-2, 5, n)
        k = rng.integers(0, 6, n)
        v[:, k == 0] = 0
        w = np.array([-earth.OMEGA * p[1], earth.OMEGA * p[0], 0 * p[0]])
        v = np.where(k == 1, w, np.where(k == 2, -w, v))
        p[:, k == 3] = np.array([[0, 0, 7e6]]).T
        j = np.flatnonzero((k == 4) | (k == 5))  # components that vanish
        p[rng.integers(0, 3, j.size), j] = rng.choice([0.0, -0.0], j.size)
        v[rng.integers(0, 3, j.size), j] = rng.choice([0.0, -0.0], j.size)
        return [*p, *v]

    def judge_of(cands, ang, rel, inverse):
        def judge(a, o):
            best = None
            p, v = a[:3], a[3:]
            for m, dm in cands:
                if not inverse:
                    P = earth.apply(m, p)
                    W = earth.apply(dm, p)
                    V = tuple(x + y for x, y in zip(earth.apply(m, v), W))
                else:
                    P = earth.apply(m.T, p)
                    W = earth.apply(dm, P)
                    V = earth.apply(m.T, tuple(x - y for x, y in zip(v, W)))
                    W = earth.apply(m.T, W)
                R, S = geo.norm(p), geo.norm(v)
                # what the coarse clock does to the rate lies along the Earth's spin; square to it only the model's error is left
                n = np.maximum(geo.norm(W), LD(1e-300))
                d = [np.asarray(x, LD) - y for x, y in zip(o[3:], V)]
                along = sum(x * w / n for x, w in zip(d, W))
                square = geo.norm([x - along * w / n for x, w in zip(d, W)])
                r = [("position", geo.dist(o[:3], P), LD(ang) * R),
                     ("velocity", geo.dist(o[3:], V), LD(ang) * (S + 1.1 * earth.OMEGA * R) + LD(rel) * earth.OMEGA * R + LD(1e-9)),
                     ("velocity square to the spin", square, LD(ang) * (S + 1.1 * earth.OMEGA * R) + LD(min(rel, 1e-8)) * earth.OMEGA * R + LD(1e-9))]
                best = r if best is None else [(x[0], np.minimum(x[1], y[1]), x[2]) for x, y in zip(best, r)]
            return best
        return judge

    for i, t in enumerate(earth.times(rng, ctx.n(24, 300), 1973, 2060) + earth.times(rng, ctx.n(5, 60), 1950, 1973)):
        k = i % 3
        eop = {0: (0.0, 0.0, 0.0), 1: (float(rng.uniform(-.9, .9)), float(rng.uniform(-.4, .4)), float(rng.uniform(-.1, .6))),
               2: (float(rng.uniform(-60, 60)), float(rng.uniform(-3000, 3000)), float(rng.uniform(-3000, 3000)))}[k]
        kw = {} if k == 0 else {"delta_ut1": eop[0], "xp": eop[1], "yp": eop[2]}
        cands = [(f(t, *eop), earth.rate(f, t, *eop)) for f in (earth.m80, earth.m06)]
        s = states(N)
        for fn, inv in (("eci.eci2ecef_state", False), ("eci.ecef2eci_state", True)):
            fn = fn.split(".")[1]
            j = judge_of(cands, FAST, 3e-6, inv)
            ctx.observe(fn, s, {"time": t, "force_non_astropy": True, **kw}, j, scalars=sc, modes=("array", "array2d", "scalar"))
            ctx.observe(fn, s, {"time": t, **kw}, j, scalars=sc, modes=("stdlib", "numpyonly"))
        a = [x.copy() for x in s]
        b = instr.call("eci2ecef_state", *instr.call("ecef2eci_state", *a, t, True, **kw), t, True, **kw)
        dv = geo.dist(b[3:], s[3:]) / (geo.norm(s[3:]) + earth.OMEGA * geo.norm(s[:3]))
        dp = geo.dist(b[:3], s[:3]) / geo.norm(s[:3])
        ctx.ok(max(float(dv.max()), float(dp.max())) < 1e-13,
               f"ecef2eci_state then eci2ecef_state at {t} {kw}: off by {float(dp.max()):.3g}, {float(dv.max()):.3g} (relative)",
               {"function": "ecef2eci_state/eci2ecef_state", "time": str(t), "kwargs": kw}, key="roundtrip",
               fn="eci2ecef_state", mode="round trip")
        p = instr.call("eci2ecef", *a[:3], t, True, **kw)
        q = instr.call("eci2ecef_state", *a, t, True, **kw)[:3]
        e = float((geo.dist(p, q) / geo.norm(s[:3])).max())
        ctx.ok(e < 1e-13, f"eci2ecef and eci2ecef_state disagree about the position at {t} {kw}: {e:.3g} (relative)",
               {"function": "eci2ecef_state", "time": str(t), "kwargs": kw}, key="same position", fn="eci2ecef_state",
               mode="relation")
    for t in earth.times(rng, ctx.n(12, 150), 1973, 2022):
        e = earth.iers(t)
        cands = [(earth.m06(t, *e), earth.rate(earth.m06, t, *e))]
        s = states(N)
        for fn, inv in (("eci2ecef_state", False), ("ecef2eci_state", True)):
            ctx.observe(fn, s, {"time": t}, judge_of(cands, FINE, 1e-6, inv), scalars=1, modes=("array", "array2d", "scalar"))
