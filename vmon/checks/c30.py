"""C30 Every route through the coordinate systems leads to the same point."""
import datetime as D
import math
import warnings

import numpy as np

from .. import earth, gen, geo, instr
from ..core import Ell, flatten
from ..geo import EPS, LD
from .c05 import local_of

LOCAL = ("enu", "ned", "nwu", "sez")


def edges():
    """(from, to, function, what follows the coordinates: O observer, B attitude, H heading, T time; ellipsoid?)"""
    out = [("geo", "ecef", "geodetic2ecef", "", True), ("ecef", "geo", "ecef2geodetic", "", True),
           ("geo", "aer", "geodetic2aer", "O", True), ("aer", "geo", "aer2geodetic", "O", True),
           ("ecef", "aer", "ecef2aer", "O", True), ("aer", "ecef", "aer2ecef", "O", True),
           ("geo", "sph", "geodetic2spherical", "", True), ("sph", "geo", "spherical2geodetic", "", True),
           ("geo", "dca", "geodetic2dca", "OH", True), ("dca", "geo", "dca2geodetic", "OH", True),
           ("ecef", "dca", "ecef2dca", "OH", True), ("dca", "ecef", "dca2ecef", "OH", True),
           ("aer", "dca", "aer2dca", "H", False), ("dca", "aer", "dca2aer", "H", False),
           ("enu", "dca", "enu2dca", "H", False), ("dca", "enu", "dca2enu", "H", False),
           ("ned", "dca", "ned2dca", "H", False), ("dca", "ned", "dca2ned", "H", False),
           ("ecef", "body", "ecef2body", "OBF", True), ("body", "ecef", "body2ecef", "OBF", True),
           ("geo", "body", "geodetic2body", "OBF", True), ("body", "geo", "body2geodetic", "OBF", True),
           ("ecef", "eci", "ecef2eci", "t", False), ("eci", "ecef", "eci2ecef", "t", False),
           ("geo", "eci", "geodetic2eci", "T", True), ("eci", "geo", "eci2geodetic", "T", True),
           ("aer", "eci", "aer.aer2eci", "OT", True), ("eci", "aer", "aer.eci2aer", "OTD", False),
           ("geo", "nvh", "geodetic2nvector", "N", False), ("nvh", "geo", "nvector2geodetic", "N", False), ("nvh", "ecef", "nvector2ecef", "", True)]
    for f in LOCAL:
        out += [("geo", f, f"geodetic2{f}", "O", True), (f, "geo", f"{f}2geodetic", "O", True), ("ecef", f, f"ecef2{f}", "O", True),
                (f, "ecef", f"{f}2ecef", "O", True), ("aer", f, f"aer2{f}", "", False), (f, "aer", f"{f}2aer", "", False),
                (f, "body", f"{f}2body", "B", False), ("body", f, f"body2{f}", "B", False)]
    return out


ANGLES = {"geo": (0, 1), "aer": (0, 1), "sph": (0, 1)}
YOU = {"ecef2geodetic", "aer2geodetic", "dca2geodetic", "body2geodetic", "eci2geodetic", "spherical2geodetic", *(f"{f}2geodetic" for f in LOCAL)}


class World:
    """what stays as it is along a walk"""

    def __init__(self, rng, ctx):
        self.ell = gen.ells(ctx, 1, 1)[int(rng.integers(0, 5))] if rng.random() < .7 else Ell(none=True)
        la, lo, h = float(gen.lat(rng, 1)[0]), float(gen.lon(rng, 1)[0]), float(rng.choice([0, 0, 1, -1])) * float(10 ** rng.uniform(0, 5))
        self.obs = [la, lo, h * self.ell.a / 6.4e6]
        self.att = [float(gen.angle(rng, 1)[0]), float(gen.angle(rng, 1, 180)[0]), float(gen.angle(rng, 1)[0])]
        self.heading = float(gen.azimuth(rng, 1)[0])
        self.t = earth.times(rng, 1, 1975, 2022)[0]
        if isinstance(self.t, D.datetime) is False:
            self.t = D.datetime(2001, 2, 3, 4, 5, 6)
        self.frame = str(rng.choice(LOCAL))
        self.O = geo.fwd(*self.obs, self.ell)
        self.rows = geo.local_rows("enu", *self.obs[:2])

    def spec(self):
        return {"ell": self.ell.spec(), "observer": self.obs, "attitude": self.att, "heading": self.heading, "time": self.t.isoformat(), "frame": self.frame}

    def enu2ecef(self, v):
        w = geo.matvec(geo.transpose(self.rows), v)
        return tuple(a + b for a, b in zip(self.O, w))

    def point(self, node, v, deg):
        """ECEF position denoted by coordinates; None for inertial ones"""
        v = [np.asarray(x, LD) for x in v]
        if node == "geo":
            return geo.fwd(*v, self.ell, deg)
        if node == "ecef":
            return tuple(v)
        if node in LOCAL:
            return self.enu2ecef(geo.FROM_LOCAL[node](*v))
        if node == "aer":
            return self.enu2ecef(geo.aer_vec(*v, deg))
        if node == "dca":
            s, c = geo.trig(self.heading, True)
            return self.enu2ecef((v[0] * s - v[1] * c, v[0] * c + v[1] * s, v[2]))
        if node == "body":
            return self.enu2ecef(local_of("enu", v, self.att, True))
        if node == "sph":
            s, c = geo.trig(v[0], deg)
            so, co = geo.trig(v[1], deg)
            return v[2] * c * co, v[2] * c * so, v[2] * s
        if node == "nvh":
            la, lo = np.arctan2(v[2], np.hypot(v[0], v[1])), np.arctan2(v[1], v[0])
            return geo.fwd(la, lo, v[3], self.ell, False)
        return None


def turn(v, node, old, new):
    """the same coordinates in the other unit, as a caller would do it"""
    if old == new:
        return list(v)
    one = all(isinstance(x, float) and not isinstance(x, np.floating) for x in v)
    f = (math.degrees if new else math.radians) if one else (np.degrees if new else np.radians)
    return [(f(x) if k in ANGLES.get(node, ()) else x) for k, x in enumerate(v)]


def walk(ctx, rng, E, length, mode):
    w = World(rng, ctx)
    ell = w.ell
    a = ell.a
    n = {"array": 6, "array2d": 6}.get(mode, 1)
    la, lo = gen.lat(rng, n), gen.lon(rng, n, wide=True)
    h = gen.alt(rng, n, a, low=-0.1)
    h = np.minimum(h, 20 * a)
    if rng.random() < .5:
        la, lo, h = gen.near_target(rng, n, np.full(n, w.obs[0]), np.full(n, w.obs[1]), np.full(n, w.obs[2]), a)
        h = np.maximum(h, -0.1 * a)
    deg = True
    shape = {"array": (n,), "array2d": (2, 3)}.get(mode)
    v = [x.reshape(shape) if shape else float(x[0]) for x in (la, lo, h)]
    node = "geo"
    P = start = w.point("geo", v, True)
    total = LD(0)
    inert = None
    trail = []
    fns = []
    far = np.maximum(geo.norm(P), geo.norm(w.O)) + a
    worker = ctx.worker(mode) if mode in ("stdlib", "numpyonly") else None
    for _ in range(length):
        out = [e for e in E if e[0] == node and not ("D" in e[3] and not ell.none) and not (e[1] == "eci" and ell.la < 1e5)]
        _, to, fn, rest, hasell = out[int(rng.integers(len(out)))]
        d = bool(rng.random() < .6)
        x = turn(v, node, deg, d)
        cv = (lambda q: q) if d else np.radians
        args, kw, keep = list(x), {}, None
        if "N" in rest:
            keep = args.pop() if node == "nvh" else args.pop(2)
        if "O" in rest:
            args += [float(cv(w.obs[0])), float(cv(w.obs[1])), w.obs[2]]
        if "B" in rest:
            args += [float(cv(q)) for q in w.att]
        if "H" in rest:
            args.append(float(cv(w.heading)))
        if "F" in rest:
            kw["frame"] = w.frame
        if "T" in rest:
            kw["t"] = w.t
        if "t" in rest:
            args.append(w.t)
        elif fn != "nvector2ecef" or rng.random() < .5:
            if rng.random() < .7 or not d:
                kw["deg"] = d
        ek = {"ell": ell.spec()} if hasell and not (ell.none and rng.random() < .5) else {}
        try:
            if worker:
                st, o = worker.run([(fn, args, kw, ek)])[0]
                if st != "ok":
                    raise RuntimeError(o)
                o = flatten(o)
            else:
                k2 = {**kw, **{q: instr.make_ell(s) for q, s in ek.items()}}
                with np.errstate(all="ignore"):
                    o = flatten(instr.call(fn, *args, **k2))
        except Exception as e:  # noqa: BLE001
            ctx.count(fn, mode)
            ctx.violation(f"{fn} raises {type(e).__name__}: {e} after {' -> '.join(fns[-8:])}", {"walk": trail[-12:], "world": w.spec()}, key=f"{fn} raises")
            return
        if keep is not None:
            o = [*o, keep]
        trail.append({"function": fn, "args": [np.asarray(q, float).tolist() if not isinstance(q, D.datetime) else q.isoformat() for q in args],
                      "kwargs": {k: str(q) for k, q in kw.items()}})
        fns.append(fn)
        ctx.edges.add((fn, mode, d))
        ang = 1 + sum(np.abs(geo.r(x[k], d)) for k in ANGLES.get(node, ()))
        tol = LD(60) * EPS * far * ang + LD("3e-8")
        if fn in YOU or fn.endswith("2geodetic") and fn != "nvector2geodetic":
            tol = tol + geo.inverse_tol(ell, *P)
        if to == "aer":
            q = geo.matvec(w.rows, tuple(p - c for p, c in zip(P, w.O)))
            tol = tol + np.where(np.min(np.abs(np.array(q)), axis=0) < LD("1.1e-3"), LD("2e-3"), 0)
        if "eci" in (node, to):
            tol = tol + LD("2e-12") * far
        new = w.point(to, o, d)
        if new is None:
            inert = o
            total = total + tol
            m = earth.m06(w.t, *earth.iers(w.t)) if mode not in ("stdlib", "numpyonly") else earth.m80(w.t)
            e = geo.dist(o, earth.apply(m.T, P))
            t = (LD("3e-9") if mode not in ("stdlib", "numpyonly") else LD("0.2") * earth.ARCSEC * 3) * far + tol
        else:
            e, t = geo.dist(new, P), tol
            total = total + tol
        good = bool(np.all(e <= t))
        if good and new is not None:
            e2 = geo.dist(new, start)
            if not np.all(e2 <= total):
                good, e, t = False, e2, total
        ctx.worst_step = max(ctx.worst_step, float(np.max(e / t)))
        if not ctx.ok(good, f"{fn}{'' if d else ' (radians)'} [{mode}] puts the point {float(np.max(e)):.3g} m away (allowed {float(np.max(t)):.3g}) "
                      f"after {' -> '.join(fns[-8:])}; ell={ell}", {"walk": trail[-12:], "world": w.spec()}, key=f"{fn} route", fn=fn, mode=mode):
            return
        if not ctx.ok(all(np.shape(q) == (shape or ()) for q in o), f"{fn} [{mode}] gives shapes {[np.shape(q) for q in o]} for {shape}",
                      {"walk": trail[-12:], "world": w.spec()}, key=f"{fn} shape", fn=fn, mode=mode):
            return
        P = new if new is not None else P
        v, node, deg = o, to, d
    ctx.distinct.add(tuple(fns))
    if len(ctx.samples) < 5:
        ctx.samples.append({"mode": mode, "route": fns, "world": w.spec()})


def vector_walk(ctx, rng, length, mode):
    """free vectors through the local, body and Earth-fixed axes"""
    w = World(rng, ctx)
    n = {"array": 6, "array2d": 6}.get(mode, 1)
    shape = {"array": (n,), "array2d": (2, 3)}.get(mode)
    v = [x.reshape(shape) if shape else float(x[0]) for x in (gen.length(rng, n) for _ in range(3))]
    lv = [np.asarray(x, LD) for x in v]
    V = lv  # the same vector in ECEF axes
    size = geo.norm(lv)
    worker = ctx.worker(mode) if mode in ("stdlib", "numpyonly") else None
    node, fns, total = "ecef", [], LD(0)
    rows = {f: geo.local_rows(f, *w.obs[:2]) for f in LOCAL}
    E = [("ecef", f, f"ecef2{f}v", "O") for f in LOCAL] + [(f, "ecef", f"{f}2ecefv", "O") for f in LOCAL if f != "ned"]
    E += [(f, "body", f"{f}2body", "B") for f in LOCAL] + [("body", f, f"body2{f}", "B") for f in LOCAL]
    E += [("enu", "ecef", "enu2uvw", "O"), ("ecef", "enu", "uvw2enu", "O"), ("ecef", "body", "ecef2bodyv", "OBF"), ("body", "ecef", "body2ecefv", "OBF")]
    for _ in range(length):
        out = [e for e in E if e[0] == node]
        _, to, fn, rest = out[int(rng.integers(len(out)))]
        d = bool(rng.random() < .6)
        cv = (lambda q: q) if d else (math.radians if worker else np.radians)
        args, kw = list(v), {} if d and rng.random() < .5 else {"deg": d}
        if "O" in rest:
            args += [float(cv(w.obs[0])), float(cv(w.obs[1]))]
        if "B" in rest:
            args += [float(cv(q)) for q in w.att]
        if "F" in rest:
            kw["frame"] = w.frame
        try:
            if worker:
                st, o = worker.run([(fn, args, kw, {})])[0]
                if st != "ok":
                    raise RuntimeError(o)
                o = flatten(o)
            else:
                with np.errstate(all="ignore"):
                    o = flatten(instr.call(fn, *args, **kw))
        except Exception as e:  # noqa: BLE001
            ctx.count(fn, mode)
            ctx.violation(f"{fn} raises {type(e).__name__}: {e} after {' -> '.join(fns[-8:])}", {"world": w.spec()}, key=f"{fn} raises")
            return
        fns.append(fn)
        ctx.edges.add((fn, mode, d))
        q = [np.asarray(x, LD) for x in o]
        if to == "body":
            q = local_of("enu", q, w.att, True)
        if to in ("body", *LOCAL):
            q = geo.matvec(geo.transpose(rows["enu" if to == "body" else to]), q)
        total = total + 120 * EPS * size
        e = geo.dist(q, V)
        ctx.worst_step = max(ctx.worst_step, float(np.max(e / np.maximum(total, LD("1e-300")))))
        if not ctx.ok(np.all(e <= total) and all(np.shape(x) == (shape or ()) for x in o),
                      f"{fn}{'' if d else ' (radians)'} [{mode}] turns the vector by {float(np.max(e)):.3g} of {float(np.max(size)):.3g} "
                      f"after {' -> '.join(fns[-8:])}", {"function": fn, "args": [np.asarray(x, float).tolist() for x in args], "world": w.spec()},
                      key=f"{fn} route", fn=fn, mode=mode):
            return
        v, node = o, to
    ctx.distinct.add(tuple(fns))


def run(ctx):
    warnings.simplefilter("ignore")
    ctx.rule = ("random walks over the graph of all conversions between thirteen coordinate systems, observer, attitude, heading, ellipsoid and time held "
                "fixed, results handed on as they come, unit of angle changing on the way; the position denoted after every step, worked out "
                "independently in extended precision, is the one before it, and the one at the start of the walk; the same for free vectors")
    ctx.assumptions = ["ecef2geodetic: nanometres between 0.5 and 1000 semi-major axes, the error of the closed form elsewhere, at each step that uses it"]
    rng = ctx.rng
    E = edges()
    ctx.edges, ctx.worst_step = set(), 0.0
    for mode, k in (("array", ctx.n(150, 3000)), ("array2d", ctx.n(40, 700)), ("scalar", ctx.n(250, 5000)), ("stdlib", ctx.n(80, 1500)), ("numpyonly", ctx.n(30, 500))):
        for _ in range(k):
            walk(ctx, rng, E, 24, mode)
        for _ in range(k // 3):
            vector_walk(ctx, rng, 24, mode)
    ctx.stats["edges in the graph"] = len(E)
    ctx.stats["edges walked (function, installation, unit)"] = len(ctx.edges)
    ctx.stats["largest error, percent of allowed"] = int(100 * ctx.worst_step)
    for e in {x[2] for x in E} - {x[0] for x in ctx.edges}:
        ctx.violation(f"{e} was never walked", key="coverage")
