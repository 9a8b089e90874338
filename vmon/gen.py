"""Workload generators: random bulk plus the places where geodesy code goes wrong."""

from __future__ import annotations

import numpy as np

from .core import Ell, LD

# what the package documents as available; read once from the package itself in C24
NAMED = ["wgs84", "grs80", "clarke1866", "airy", "everest", "mars", "moon", "jupiter", "venus", "wgs72",
         "australian_national", "bessel1841", "intl1924" , "maupertuis", "saturn", "pluto", "mercury"]


def named_models():
    from . import instr

    E = instr.api("ellipsoid.Ellipsoid")
    return [k for k in E.models.keys()]


def random_ell(rng, fmax=0.1):
    a = float(10 ** rng.uniform(3.5, 8.3))
    f = float(rng.choice([0.0, 10 ** rng.uniform(-6, np.log10(fmax)), 10 ** rng.uniform(-13, -5), rng.uniform(0, fmax), 1 / 298.257]))
    return Ell(a=a, b=a * (1 - f))


def ells(ctx, n_random=2, n_named=2, none=True, fmax=0.1, flat=0.0):
    """A few ellipsoids: default, named ones (rotating with the seed), a sphere, random ones."""
    out = []
    if none:
        out.append(Ell(none=True))
    names = [m for m in named_models() if m != "io"]
    pick = list(ctx.rng.choice(names, min(n_named, len(names)), replace=False))
    for nm in pick:
        e = Ell(name=str(nm))
        if (e.a - e.b) / e.a <= fmax:
            out.append(e)
    r = float(10 ** ctx.rng.uniform(5, 7.5))
    out.append(Ell(a=r, b=r))
    for _ in range(n_random):
        out.append(random_ell(ctx.rng, fmax))
    if n_random:  # hardly flattened
        r = float(10 ** ctx.rng.uniform(5, 7.5))
        out.append(Ell(a=r, b=r * (1 - 10 ** ctx.rng.uniform(-14, -4))))
    if ctx.pid in ("C13", "C14", "C15"):  # about where series stop being enough, and steps of Newton's method begin
        r = float(10 ** ctx.rng.uniform(5, 7.5))
        out += [Ell(a=r, b=r * (1 - ctx.rng.uniform(.0085, .01))), Ell(a=r, b=r * (1 - ctx.rng.uniform(.01, .012)))]
    if flat:  # strongly flattened
        r = float(10 ** ctx.rng.uniform(3.5, 8))
        out.append(Ell(a=r, b=r * (1 - ctx.rng.uniform(fmax, flat))))
    return out


def _tiny(rng, n):
    return rng.choice([-1.0, 1.0], n) * 10.0 ** rng.uniform(-16, -2, n)


def lat(rng, n):
    """Degrees in [-90, 90]: bulk, poles, equator, neighbourhoods."""
    v = np.degrees(np.arcsin(rng.uniform(-1, 1, n)))
    k = rng.integers(0, 12, n)
    t = np.abs(_tiny(rng, n))
    s = rng.choice([-1.0, 1.0], n)
    v = np.where(k == 0, s * 90.0, v)
    v = np.where(k == 1, s * (90.0 - t), v)
    v = np.where(k == 2, s * t, v)
    v = np.where(k == 3, s * 0.0, v)
    v = np.where(k == 4, np.round(v), v)
    v = np.where(k == 5, s * rng.choice([30.0, 45.0, 60.0, 89.0, 89.999, 89.9999999], n), v)
    return v


def lon(rng, n, wide=False):
    v = rng.uniform(-180, 180, n)
    k = rng.integers(0, 12, n)
    t = np.abs(_tiny(rng, n))
    s = rng.choice([-1.0, 1.0], n)
    v = np.where(k == 0, s * 180.0, v)
    v = np.where(k == 1, s * (180.0 - t), v)
    v = np.where(k == 2, s * t, v)
    v = np.where(k == 3, s * 0.0, v)
    v = np.where(k == 4, s * 90.0, v)
    v = np.where(k == 5, np.round(v), v)
    q = np.clip(near_quarters(rng, n, 4), -360.0, 360.0)
    v = np.where(k == 8, np.where(abs(q) <= 180, q, q / 4), v)
    if wide:
        v = np.where(k == 6, v + s * 360.0, v)
        v = np.where(k == 7, rng.uniform(0, 360, n), v)
        v = np.where(k == 9, q, v)
    return v


def alt(rng, n, a, low=-0.2, high=50.0):
    """Metres: surface, aircraft, orbit, far away, below ground (down to low*a)."""
    k = rng.integers(0, 10, n)
    v = rng.uniform(-0.001, 0.002, n) * a
    v = np.where(k == 0, 0.0, v)
    v = np.where(k == 1, rng.uniform(0, 0.2, n) * a, v)
    v = np.where(k == 2, a * 10 ** rng.uniform(-6, np.log10(high), n), v)
    v = np.where(k == 3, rng.uniform(low, 0, n) * a, v)
    v = np.where(k == 4, _tiny(rng, n), v)
    v = np.where(k == 5, np.round(v), v)
    v = np.where(k == 6, -0.0, v)
    return v


def length(rng, n, lo=-4, hi=8):
    """Signed metres over many magnitudes, with zeros."""
    v = rng.choice([-1.0, 1.0], n) * 10 ** rng.uniform(lo, hi, n)
    k = rng.integers(0, 12, n)
    v = np.where(k == 0, 0.0, v)
    v = np.where(k == 1, -0.0, v)
    v = np.where(k == 2, np.round(v), v)
    return v


def angle(rng, n, lim=360.0):
    v = rng.uniform(-lim, lim, n)
    k = rng.integers(0, 10, n)
    v = np.where(k == 0, rng.choice([-270.0, -180.0, -90.0, 0.0, -0.0, 90.0, 180.0, 270.0, 360.0], n), v)
    v = np.where(k == 1, np.round(v), v)
    v = np.where(k == 2, _tiny(rng, n), v)
    return np.where(k == 3, near_quarters(rng, n, int(lim // 90)), v)


def near_quarters(rng, n, m=4):
    """close to multiples of a right angle, at every distance a float can tell"""
    return 90.0 * rng.integers(-m, m + 1, n) + rng.choice([-1, 1], n) * 10 ** rng.uniform(-14, 0, n)


def azimuth(rng, n):
    v = rng.uniform(0, 360, n)
    k = rng.integers(0, 10, n)
    v = np.where(k == 0, rng.choice([0.0, 90.0, 180.0, 270.0, 360.0, 45.0], n), v)
    v = np.where(k == 1, np.round(v), v)
    return np.where(k == 2, np.abs(near_quarters(rng, n, 4)), v)


def elevation(rng, n):
    v = rng.uniform(-90, 90, n)
    k = rng.integers(0, 10, n)
    v = np.where(k == 0, rng.choice([-90.0, 0.0, 90.0, 45.0], n), v)
    v = np.where(k == 1, rng.choice([-1, 1], n) * (90 - 10 ** rng.uniform(-14, 0, n)), v)
    v = np.where(k == 2, np.round(v), v)
    v = np.where(k == 3, _tiny(rng, n), v)
    return np.where(k == 4, -0.0, v)


def near_target(rng, n, la, lo, h, a):
    """A second point related to the first: same, same meridian, antipodal, above, close, far."""
    l2, o2, h2 = lat(rng, n), lon(rng, n), alt(rng, n, a)
    k = rng.integers(0, 12, n)
    l2 = np.where(np.isin(k, (0, 2, 3)), la, l2)
    o2 = np.where(np.isin(k, (0, 1, 3)), lo, o2)
    h2 = np.where(k == 0, h, h2)
    l2 = np.where(k == 4, -la, l2)
    o2 = np.where(k == 4, np.where(lo > 0, lo - 180, lo + 180), o2)
    d = 10 ** rng.uniform(-9, 1, n)
    close = np.isin(k, (5, 6, 7))
    l2 = np.where(close, np.clip(la + d * rng.normal(size=n), -90, 90), l2)
    o2 = np.where(close, np.clip(lo + d * rng.normal(size=n), -180, 180), o2)
    h2 = np.where(close, h + d * 1e4 * a / 6.4e6 * rng.normal(size=n), h2)
    return l2, o2, h2


def rad(deg):
    """Degrees to radians the way a user does it."""
    return np.radians(deg)
