"""Every public conversion as data: argument kinds, result kinds, how to compare two results.

Used by the checks that relate executions of the same function to each other (purity, arrays,
units, scaling, configurations).  The comparison is by what the numbers mean (points, vectors),
so ill-conditioned coordinates near poles and zeniths do not matter.
"""

from __future__ import annotations

import datetime as D

import numpy as np

from . import gen, geo
from .core import Ell
from .geo import EPS, LD

# argument tokens -> [(kind, ...)]; kinds: A angle, L length, N pure number
TOK = {
    "geo": "AAL", "geo0": "AAL", "latlon": "AA", "ecef": "LLL", "eci": "LLL", "vec": "LLL", "aer": "AAL", "att": "AAA",
    "ang": "A", "lat": "A", "lon": "A", "alt": "L", "nv": "NNN", "frac": "N", "dist": "L", "sph": "AAL", "iso": "A",
    "vel": "LLL", "h0": "L", "tilt": "A", "radius": "L", "num": "N", "near": "AA", "latsame": "A", "xy": "LL", "rho": "NL", "rsph": "NNL",
    "radang": "N", "skyA": "AA", "skyB": "AA", "latlonp": "AA", "jd": "N", "nvnear": "NNN", "short": "L", "num1": "N",
}


class Fn:
    def __init__(self, path, args, outs, ell=False, deg=True, arr=True, np_only=False, kw=None, time=None, K=2000.0, L=None,
                 degonly=False, abs_len=3e-8, std=True, scale=True, scalar_len=False):
        self.path, self.args, self.outs = path, args.split(), outs.split()
        self.ell, self.deg, self.arr, self.np_only = ell, deg, arr, np_only
        self.kw, self.time, self.K = dict(kw or {}), time, K
        self.degonly = degonly   # always degrees, no deg argument
        self.abs_len = abs_len
        self.std = std and not np_only
        self.scale = scale       # obeys scaling of lengths
        self.kinds = "".join(TOK[t] for t in self.args)
        self.usesgeo = ell or any(t in ("geo", "geo0", "ecef") for t in self.args)

    def __repr__(self):
        return self.path + (str(self.kw) if self.kw else "")

    # --- generation (degrees)
    def generate(self, rng, n, ell, tame=False):
        a = ell.a
        out, la, lo, h, nv = [], None, None, None, None

        def latlon():
            nonlocal la, lo
            if tame:
                la, lo = rng.uniform(-85, 85, n), rng.uniform(-179, 179, n)
            else:
                la, lo = gen.lat(rng, n), gen.lon(rng, n, wide=True)
            return [la, lo]
        for t in self.args:
            if t in ("geo", "geo0"):
                if la is not None and not tame:
                    l2, o2, h2 = gen.near_target(rng, n, la, lo, h, a)
                    out += [l2, o2, np.maximum(h2, -0.15 * a)]
                else:
                    x = latlon()
                    h = gen.alt(rng, n, a, low=-0.15) if not tame else rng.uniform(0, 1e-3, n) * a
                    out += [*x, h]
            elif t in ("ecef", "eci"):
                x = latlon()
                h = gen.alt(rng, n, a, low=-0.15) if not tame else rng.uniform(0, 1e-2, n) * a
                p = geo.fwd(*x, h, ell)
                out += [np.asarray(v, float) for v in p]
            elif t == "latlon":
                out += latlon()
            elif t == "latlonp":  # not at the poles
                x = latlon()
                la = np.clip(la, -89, 89)
                out += [la, lo]
            elif t == "near":  # a second point, not close to antipodal, well apart
                l2 = np.clip(la * rng.uniform(0.2, 1, n), -89, 89)
                out += [l2, lo + rng.choice([-1, 1], n) * rng.uniform(0.5, 80, n)]
            elif t == "vec":
                out += [gen.length(rng, n, -2 if not tame else 2, 8 if not tame else 5) * a / 6.4e6 for _ in range(3)]
            elif t == "vel":
                out += [rng.normal(size=n) * 1e3 for _ in range(3)]
            elif t == "aer":
                out += [gen.azimuth(rng, n), gen.elevation(rng, n) if not tame else rng.uniform(-80, 80, n),
                        np.abs(gen.length(rng, n, 0 if not tame else 2, 8 if not tame else 6)) * a / 6.4e6]
            elif t == "att":
                out += [gen.angle(rng, n), gen.angle(rng, n, 180), gen.angle(rng, n)]
            elif t == "ang":
                out += [gen.azimuth(rng, n)]
            elif t in ("lat", "latsame"):
                out += [gen.lat(rng, n) if not tame else rng.uniform(-80, 80, n)]
            elif t == "lon":
                out += [gen.lon(rng, n) if not tame else rng.uniform(-179, 179, n)]
            elif t == "alt":
                out += [gen.alt(rng, n, a, low=-0.15) if not tame else rng.uniform(0, 1e-3, n) * a]
            elif t == "h0":
                out += [np.maximum(np.abs(gen.alt(rng, n, a, low=0)), 1e-6 * a) if not tame else rng.uniform(1e-4, 1e-1, n) * a]
            elif t == "tilt":
                out += [rng.uniform(0, 40, n)]
            elif t == "radius":
                out += [a * rng.uniform(0.9, 3, n)]
            elif t == "sph":
                out += [*latlon(), a * rng.uniform(0.9, 3, n)]
            elif t in ("nv", "nvnear"):
                v = rng.normal(size=(3, n))
                k = rng.integers(0, 10, n)
                if not tame and t == "nv":
                    v[:, k == 0] = np.eye(3)[:, rng.integers(0, 3, int((k == 0).sum()))]
                if t == "nvnear":
                    v = v - nv * (v * nv).sum(0)
                    v = nv + 0.4 * v / np.sqrt((v**2).sum(0))
                v /= np.sqrt((v**2).sum(0))
                nv = v
                out += list(v)
            elif t in ("frac", "num1"):
                out += [rng.uniform(0, 1, n)]
            elif t == "iso":
                out += [rng.uniform(-300, 300, n)]
            elif t == "dist":
                out += [rng.uniform(0, 0.9, n) * a]
            elif t == "short":
                out += [rng.uniform(0, 0.1, n) * a]
            elif t == "xy":
                out += [gen.length(rng, n, -2, 8), gen.length(rng, n, -2, 8)]
            elif t == "rho":
                out += [rng.uniform(-3, 3, n), gen.length(rng, n, -2, 8)]
            elif t == "rsph":
                out += [rng.uniform(-3, 3, n), rng.uniform(-1.5, 1.5, n), gen.length(rng, n, -2, 8)]
            elif t == "radang":
                out += [rng.uniform(-7, 7, n)]
            elif t == "skyA":
                out += [gen.azimuth(rng, n), gen.elevation(rng, n)]
            elif t == "skyB":
                out += [gen.lon(rng, n, wide=True), gen.lat(rng, n)]
            elif t == "jd":
                out += [rng.uniform(2415020, 2488070, n)]
            else:
                raise KeyError(t)
        return [np.ascontiguousarray(v, dtype=float) for v in out]

    def to_rad(self, args):
        return [np.radians(v) if k == "A" else v for v, k in zip(args, self.kinds)]

    def scaled(self, args, s):
        return [v * s if k == "L" else v for v, k in zip(args, self.kinds)]

    # --- comparison of results; o1 and o2 flat lists of arrays of common length
    def compare(self, args, o1, o2, ell, deg1=True, deg2=None, K=None, s2=1.0):
        """(label, err, tol) with results 2 scaled by s2; args belong to o1 (in unit deg1)"""
        deg2 = deg1 if deg2 is None else deg2
        if self.degonly:
            deg1 = deg2 = True
        K = LD(K or self.K)
        ang = LD(1)
        L = LD(0)
        for v, k in zip(args, self.kinds):
            v = np.asarray(v, LD)
            if k == "A":
                ang = ang + np.abs(geo.r(v, deg1))
            elif k == "L":
                L = L + np.abs(v)
        if self.usesgeo or self.ell:
            L = L + ell.la
        absL = LD(self.abs_len) * max(1, 1 / LD(s2))
        tolL = K * EPS * L * ang + absL
        tolA = K * EPS * ang
        if "ecef" in self.args or "eci" in self.args:
            tolA = tolA + 2 * absL / ell.la  # points within 1e-8 m of the axis are put on it
        res = []
        o1 = [np.asarray(v, LD) for v in o1]
        o2 = [np.asarray(v, LD) for v in o2]
        i = 0
        for g in self.outs:
            n = {"geo": 3, "sph": 3, "vec": 3, "aer": 3, "latlon": 2, "mat": 9, "nv": 3, "polar": 2, "vecs": 6, "sky": 2,
                 "azel": 2, "polaz": 3, "dirll": 3, "nv2": 6, "pxy": 2, "pol": 2, "csph": 3}.get(g, 1)
            x, y = o1[i:i + n], o2[i:i + n]
            i += n
            # NaN must agree
            nx, ny = np.zeros(np.shape(x[0]), bool), np.zeros(np.shape(x[0]), bool)
            for v in x:
                nx = nx | np.isnan(v)
            for v in y:
                ny = ny | np.isnan(v)
            u1, u2 = geo.unit_of(deg1), geo.unit_of(deg2)
            full1, full2 = (LD(360) if deg1 else 2 * geo.PI), (LD(360) if deg2 else 2 * geo.PI)
            if g == "geo":
                p, q = geo.fwd(*x, ell, deg1), geo.fwd(y[0], y[1], y[2] / s2, ell, deg2)
                # at the focal disc around the centre the closed inverse has several answers
                core = np.minimum(geo.norm(p), geo.norm(q)) < ell.la * np.maximum(LD("0.1"), LD("1.5") * np.sqrt(ell.e2))
                e, t = np.where(core, LD(0), geo.dist(p, q)), tolL
            elif g == "sph":
                f = lambda v, d: (v[2] * geo.trig(v[0], d)[1] * geo.trig(v[1], d)[1], v[2] * geo.trig(v[0], d)[1] * geo.trig(v[1], d)[0],  # noqa: E731
                                  v[2] * geo.trig(v[0], d)[0])
                e, t = geo.dist(f(x, deg1), f([y[0], y[1], y[2] / s2], deg2)), tolL
            elif g == "vec":
                e, t = geo.dist(x, [v / s2 for v in y]), tolL
            elif g == "vecs":
                e = np.maximum(geo.dist(x[:3], y[:3]), geo.dist(x[3:], y[3:]))
                t = tolL
            elif g == "aer":
                e = geo.dist(geo.aer_vec(*x, deg1), geo.aer_vec(y[0], y[1], y[2] / s2, deg2))
                t = tolL + LD("2.1e-3") * (1 + 1 / LD(s2))
            elif g == "latlon":
                f = lambda v, d: (geo.trig(v[0], d)[1] * geo.trig(v[1], d)[1], geo.trig(v[0], d)[1] * geo.trig(v[1], d)[0], geo.trig(v[0], d)[0])  # noqa: E731
                e, t = geo.dist(f(x, deg1), f(y, deg2)), tolA
            elif g == "sky":
                f = lambda v, d: (geo.trig(v[1], d)[1] * geo.trig(v[0], d)[1], geo.trig(v[1], d)[1] * geo.trig(v[0], d)[0], geo.trig(v[1], d)[0])  # noqa: E731
                e, t = geo.dist(f(x, True), f(y, True)), tolA
            elif g in ("mat", "nv", "nv2"):
                e = np.max([np.abs(a - b) for a, b in zip(x, y)], axis=0)
                t = tolA
            elif g == "polar":  # distance, direction
                f = lambda v, d, s: (v[0] / s * geo.trig(v[1], d)[0], v[0] / s * geo.trig(v[1], d)[1])  # noqa: E731
                p, q = f(x, deg1, 1), f(y, deg2, s2)
                e, t = np.hypot(p[0] - q[0], p[1] - q[1]), tolL
            elif g == "polaz":  # distance, two azimuths
                f = lambda v, d, s, k: (v[0] / s * geo.trig(v[k], d)[0], v[0] / s * geo.trig(v[k], d)[1])  # noqa: E731
                e = LD(0)
                for k in (1, 2):
                    p, q = f(x, deg1, 1, k), f(y, deg2, s2, k)
                    e = np.maximum(e, np.hypot(p[0] - q[0], p[1] - q[1]))
                t = tolL
            elif g == "dirll":  # lat, lon, azimuth there
                f = lambda v, d: (geo.trig(v[0], d)[1] * geo.trig(v[1], d)[1], geo.trig(v[0], d)[1] * geo.trig(v[1], d)[0], geo.trig(v[0], d)[0])  # noqa: E731
                e, t = geo.dist(f(x, deg1), f(y, deg2)), tolA
                c = geo.trig(x[0], deg1)[1]
                e = np.maximum(e, np.abs(geo.wrap(x[2] * u1 - y[2] * u2, False)) * np.abs(c))
            elif g == "pxy":
                e, t = np.hypot(x[0] - y[0] / s2, x[1] - y[1] / s2), tolL
            elif g == "pol":
                e = np.hypot(x[1] * np.cos(x[0]) - y[1] / s2 * np.cos(y[0]), x[1] * np.sin(x[0]) - y[1] / s2 * np.sin(y[0]))
                t = tolL
            elif g == "csph":
                f = lambda v, s: (v[2] / s * np.cos(v[1]) * np.cos(v[0]), v[2] / s * np.cos(v[1]) * np.sin(v[0]), v[2] / s * np.sin(v[1]))  # noqa: E731
                e, t = geo.dist(f(x, 1), f(y, s2)), tolL
            elif g == "ang":
                d = x[0] / full1 - y[0] / full2
                e, t = np.abs(d - np.rint(d)) * 2 * geo.PI, tolA
            elif g == "angv":
                inf = np.isinf(x[0]) & (x[0] == y[0])
                with np.errstate(all="ignore"):
                    e = np.where(inf, 0, np.abs(x[0] * u1 - y[0] * u2))
                    t = tolA * (1 + np.where(np.isfinite(x[0]), np.abs(x[0] * u1), 0))
            elif g == "len":
                e, t = np.abs(x[0] - y[0] / s2), tolL
            elif g == "rlen":  # relative
                e, t = np.abs(x[0] - y[0] / s2), K * EPS * np.abs(x[0]) * ang
            elif g == "area":
                e, t = np.abs(x[0] - y[0] / LD(s2) ** 2), K * EPS * L * L
            elif g == "num":
                e, t = np.abs(x[0] - y[0]), K * EPS * (np.abs(x[0]) + ang)
            elif g == "hour":
                d = (x[0] - y[0]) / (2 * geo.PI)
                e, t = np.abs(d - np.rint(d)), tolA
            elif g == "radv":
                d = (x[0] - y[0]) / (2 * geo.PI)
                e, t = np.abs(d - np.rint(d)) * 2 * geo.PI, tolA
            else:
                raise KeyError(g)
            with np.errstate(all="ignore"):
                e = np.where(nx & ny, 0, e)
                e = np.where(nx != ny, np.inf, e)
            res.append((g, e, t + 0 * e if np.ndim(t) == 0 else t))
            # the same direction is written with the same number of turns, except next to where the range ends
            for k in TURNS.get(g, ()):
                d1, d2 = (True, True) if g in ("sky", "azel") else (False, False) if g in ("pol", "csph", "radv") else (deg1, deg2)
                a1, a2 = x[k] * geo.unit_of(d1), y[k] * geo.unit_of(d2)
                with np.errstate(all="ignore"):
                    n = np.rint((a1 - a2) / (2 * geo.PI))
                    same = np.abs(a1 - a2 - n * 2 * geo.PI) < LD("1e-6")
                    inside = np.abs(a1 / geo.PI - np.rint(a1 / geo.PI)) > LD("1e-6")
                res.append((g + " turns", np.where(same & inside, np.abs(n), 0), LD("0.5")))
        return res


# results that are angles
TURNS = {"geo": (0, 1), "sph": (0, 1), "aer": (0, 1), "latlon": (0, 1), "polar": (1,), "polaz": (1, 2), "dirll": (0, 1, 2), "sky": (0, 1),
         "azel": (0, 1), "ang": (0,), "pol": (0,), "csph": (0, 1), "radv": (0,)}


T0 = D.datetime(2013, 5, 7, 11, 22, 33, 250000)


def build():
    F = []
    add = lambda *a, **k: F.append(Fn(*a, **k))  # noqa: E731
    # ecef
    add("geodetic2ecef", "geo", "vec", ell=True)
    add("ecef2geodetic", "ecef", "geo", ell=True)
    add("ecef2enu", "ecef geo0", "vec", ell=True)
    add("enu2ecef", "vec geo0", "vec", ell=True)
    add("ecef2enuv", "vec latlon", "vec")
    add("enu2uvw", "vec latlon", "vec")
    add("uvw2enu", "vec latlon", "vec")
    # aer
    add("aer2ecef", "aer geo0", "vec", ell=True)
    add("ecef2aer", "ecef geo0", "aer", ell=True)
    add("geodetic2aer", "geo geo0", "aer", ell=True)
    add("aer2geodetic", "aer geo0", "geo", ell=True)
    # enu
    add("aer2enu", "aer", "vec")
    add("enu2aer", "vec", "aer")
    add("enu2geodetic", "vec geo0", "geo", ell=True)
    add("geodetic2enu", "geo geo0", "vec", ell=True)
    add("enu2ecefv", "vec latlon", "vec")
    for fr in ("enu", "ned", "nwu", "sez"):
        add(f"ecef2{fr}_matrix", "latlon", "mat")
        add(f"{fr}2ecef_matrix", "latlon", "mat")
        add(f"{fr}2body_matrix", "att", "mat")
        add(f"body2{fr}_matrix", "att", "mat")
        add(f"{fr}2body", "vec att", "vec")
        add(f"body2{fr}", "vec att", "vec", kw={"sequence": "zyx"})
        if fr != "enu":
            add(f"ecef2{fr}", "ecef geo0", "vec", ell=True)
            add(f"{fr}2ecef", "vec geo0", "vec", ell=True)
            add(f"ecef2{fr}v", "vec latlon", "vec")
            add(f"{fr}2geodetic", "vec geo0", "geo", ell=True)
            add(f"geodetic2{fr}", "geo geo0", "vec", ell=True)
            add(f"aer2{fr}", "aer", "vec")
            add(f"{fr}2aer", "vec", "aer")
            if fr != "ned":
                add(f"{fr}2ecefv", "vec latlon", "vec")
    # body
    add("body_matrix", "att", "mat")
    for fr in ("ned", "enu", "nwu", "sez"):
        k = {} if fr == "ned" else {"frame": fr}
        add("ecef2body", "ecef geo0 att", "vec", ell=True, kw=k)
        add("body2ecef", "vec geo0 att", "vec", ell=True, kw=k)
        add("geodetic2body", "geo geo0 att", "vec", ell=True, kw=k)
        add("body2geodetic", "vec geo0 att", "geo", ell=True, kw=k)
        add("ecef2bodyv", "vec latlon att", "vec", kw=k)
        add("body2ecefv", "vec latlon att", "vec", kw=k)
    # dca
    add("enu2dca", "vec ang", "vec")
    add("dca2enu", "vec ang", "vec")
    add("ned2dca", "vec ang", "vec")
    add("dca2ned", "vec ang", "vec")
    add("aer2dca", "aer ang", "vec")
    add("dca2aer", "vec ang", "aer")
    add("ecef2dca", "ecef geo0 ang", "vec", ell=True)
    add("dca2ecef", "vec geo0 ang", "vec", ell=True)
    add("geodetic2dca", "geo geo0 ang", "vec", ell=True)
    add("dca2geodetic", "vec geo0 ang", "geo", ell=True)
    # latitudes
    for nm in ("authalic", "conformal", "parametric", "rectifying"):
        add(f"geodetic2{nm}", "lat", "angv", ell=True)
        # two inverses close to +-1: half of the digits
        add(f"{nm}2geodetic", "lat", "angv", ell=True)
    add("geodetic2geocentric", "lat alt", "angv", ell=True)
    add("geod2geoc", "lat alt", "angv", ell=True)
    add("geocentric2geodetic", "lat alt", "angv", ell=True)
    add("geodetic2isometric", "lat", "angv", ell=True, K=1e10)
    add("isometric2geodetic", "iso", "angv", ell=True)
    add("geoc2geod", "lat radius", "angv", ell=True)
    add("geodetic2spherical", "geo", "sph", ell=True)
    add("spherical2geodetic", "sph", "geo", ell=True)
    # radii
    add("geocentric_radius", "lat", "rlen", ell=True)
    add("rcurve.meridian", "lat", "rlen", ell=True)
    add("rcurve.transverse", "lat", "rlen", ell=True)
    add("rcurve.parallel", "lat", "len", ell=True)
    for m in ("mean", "norm"):
        add("rsphere.curve", "lat", "rlen", ell=True, kw={"method": m})
        add("rsphere.biaxial", "", "rlen", ell=True, deg=False, kw={"method": m}, arr=False)
        add("rsphere.triaxial", "", "rlen", ell=True, deg=False, kw={"method": m}, arr=False)
    for f in ("authalic", "eqavol", "rectifying"):
        add(f"rsphere.{f}", "", "rlen", ell=True, deg=False, arr=False)
    add("rsphere.euler", "latlon near", "rlen", ell=True)
    # rhumb
    add("lox.meridian_dist", "lat", "len", ell=True)
    add("lox.meridian_arc", "lat latsame", "len", ell=True)
    add("lox.departure", "lon lon lat", "len", ell=True)
    add("lox.loxodrome_inverse", "latlon near", "polar", ell=True, K=1e5)
    add("lox.loxodrome_direct", "latlonp short ang", "latlon", ell=True, K=1e6)
    # geodesics
    add("vincenty.vdist", "latlon near", "polar", ell=True, K=1e6, abs_len=1e-5)
    add("vincenty.vreckon", "latlon dist ang", "latlon", ell=True, K=1e6)
    add("karney.geodesic_inverse", "latlon near", "polaz", ell=True, arr=False, abs_len=1e-7)
    add("karney.geodesic_direct", "latlon ang dist", "dirll", ell=True, arr=False)
    # n-vectors
    add("geodetic2nvector", "latlon", "nv")
    add("nvector2geodetic", "nv", "latlon")
    add("ecef2nvector", "ecef", "nv", ell=True)
    add("nvector2ecef", "nv alt", "vec", ell=True, deg=False)
    add("nvector_distance", "nv nv", "num", deg=False)
    add("nvector_cross_track_distance", "nv nvnear nv", "num", deg=False)
    add("nvector_interpolate", "nv nvnear frac", "nv", deg=False, arr=False)
    add("nvector_intersection", "nv nvnear nv nvnear", "nv2", deg=False, arr=False, K=1e6)
    # line of sight
    add("los.lookAtSpheroid", "latlon h0 ang tilt", "latlon len", ell=True, K=1e6, L="h")
    # sky
    add("haversine.anglesep", "latlon near", "angv")
    add("haversine.anglesep_meeus", "latlon near", "angv")
    add("haversine.haversine", "radang", "num", deg=False)
    add("azel2radec", "skyA lat lon", "sky", deg=False, degonly=True, time="time", K=1e5)
    add("radec2azel", "skyA lat lon", "sky", deg=False, degonly=True, time="time", K=1e5)
    add("azel2radec", "skyA lat lon", "sky", deg=False, degonly=True, time="time", kw={"force_non_astropy": True, "delta_ut1": 0.3})
    add("radec2azel", "skyA lat lon", "sky", deg=False, degonly=True, time="time", kw={"force_non_astropy": True, "delta_ut1": 0.3})
    add("greenwichsrt", "jd", "radv", deg=False, K=1e7)
    # eci
    eop = {"force_non_astropy": True, "delta_ut1": 0.3, "xp": 0.2, "yp": 0.3}
    for k in ({}, eop):
        add("eci2ecef", "eci", "vec", deg=False, time="time", kw=k)
        add("ecef2eci", "eci", "vec", deg=False, time="time", kw=k)
        add("eci2ecef_state", "eci vel", "vecs", deg=False, time="time", kw=k, K=1e5, scale=False)
        add("ecef2eci_state", "eci vel", "vecs", deg=False, time="time", kw=k, K=1e5, scale=False)
    add("eci2geodetic", "eci", "geo", ell=True, time="t", K=1e5)
    add("geodetic2eci", "geo", "vec", ell=True, time="t", K=1e5)
    add("aer.aer2eci", "aer geo0", "vec", ell=True, time="t", K=1e5)
    add("aer.eci2aer", "eci geo0", "aer", time="t", K=1e5, scale=False)
    # utils
    add("utils.cart2pol", "xy", "pol", deg=False)
    add("utils.pol2cart", "rho", "pxy", deg=False)
    add("utils.cart2sph", "vec", "csph", deg=False)
    add("utils.sph2cart", "rsph", "vec", deg=False)
    return F


def time_kw(f, t=T0):
    return {f.time: t} if f.time else {}


def evaluate(f, args, kw, pos=()):
    """flat list of result arrays of the same length as the arguments (one call, or one call per element)"""
    from . import instr
    from .core import flatten

    fn = instr.api(f.path)
    n = len(args[0]) if args else 1
    with np.errstate(all="ignore"):
        if f.arr:
            out = flatten(fn(*[v.copy() for v in args], *pos, **kw))
            res = []
            for v in out:
                v = np.asarray(v, float)
                if v.shape not in ((n,), ()):
                    raise AssertionError(f"result of shape {v.shape} for arguments of shape {(n,)}")
                res.append(np.broadcast_to(v, (n,)).copy())
            return res
        rows = [[float(x) for x in flatten(fn(*[float(v[i]) for v in args], *pos, **kw))] for i in range(n)]
        return [np.array(c) for c in zip(*rows)]


def ecef_usable(f, args, ell):
    """mask of arguments whose ECEF position is away from the centre, where directions are undefined"""
    ok = np.ones(len(args[0]) if args else 1, bool)
    if "ecef" in f.args or "eci" in f.args:
        i = 0
        for t in f.args:
            if t in ("ecef", "eci"):
                ok &= np.sqrt(sum(v**2 for v in args[i:i + 3])) > 0.1 * ell.a
            i += len(TOK[t])
    return ok
