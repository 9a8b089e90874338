"""Closed-form reference geometry in extended precision (x87 80-bit long double).

Nothing here calls pymap3d.
"""

from __future__ import annotations

import numpy as np

LD = np.longdouble
PI = LD("3.14159265358979323846264338327950288")
D2R = PI / 180
EPS = LD(2.0) ** -52


def r(x, deg):
    x = np.asarray(x, dtype=LD)
    return x * D2R if deg else x


def trig(x, deg):
    """sin, cos with exact reduction for degrees."""
    x = np.asarray(x, dtype=LD)
    if deg:
        x = np.fmod(x, LD(360))
        x = x * D2R
    return np.sin(x), np.cos(x)


def unit_of(deg):
    """size of one angular unit in radians"""
    return D2R if deg else LD(1)


def fwd(lat, lon, h, ell, deg=True):
    s, c = trig(lat, deg)
    so, co = trig(lon, deg)
    h = np.asarray(h, dtype=LD)
    N = ell.la**2 / np.sqrt((ell.la * c) ** 2 + (ell.lb * s) ** 2)
    return (N + h) * c * co, (N + h) * c * so, (N * (ell.lb / ell.la) ** 2 + h) * s


def enu_rows(lat, lon, deg=True):
    """rows east, north, up of the ECEF->ENU rotation"""
    s, c = trig(lat, deg)
    so, co = trig(lon, deg)
    z = np.zeros_like(so)
    return ((-so, co, z + 0), (-s * co, -s * so, c), (c * co, c * so, s))


def dot(row, v):
    return row[0] * v[0] + row[1] * v[1] + row[2] * v[2]


def matvec(m, v):
    return tuple(dot(row, v) for row in m)


def transpose(m):
    return tuple(tuple(m[j][i] for j in range(3)) for i in range(3))


def matmul(a, b):
    return tuple(tuple(sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)) for i in range(3))


def norm(v):
    return np.sqrt(v[0] ** 2 + v[1] ** 2 + v[2] ** 2)


def dist(a, b):
    return norm(tuple(np.asarray(x, dtype=LD) - y for x, y in zip(a, b)))


# permutations from ENU (e, n, u) to the other local frames
TO_LOCAL = {
    "enu": lambda e, n, u: (e, n, u),
    "ned": lambda e, n, u: (n, e, -u),
    "nwu": lambda e, n, u: (n, -e, u),
    "sez": lambda e, n, u: (-n, e, u),
}
FROM_LOCAL = {
    "enu": lambda a, b, c: (a, b, c),
    "ned": lambda a, b, c: (b, a, -c),
    "nwu": lambda a, b, c: (-b, a, c),
    "sez": lambda a, b, c: (b, -a, c),
}


def local_rows(frame, lat, lon, deg=True):
    e, n, u = enu_rows(lat, lon, deg)
    neg = lambda w: tuple(-x for x in w)  # noqa: E731
    return {"enu": (e, n, u), "ned": (n, e, neg(u)), "nwu": (n, neg(e), u), "sez": (neg(n), e, u)}[frame]


def aer_vec(az, el, rng, deg=True):
    """unit pieces of az, el, range as an ENU vector"""
    sa, ca = trig(az, deg)
    se, ce = trig(el, deg)
    rng = np.asarray(rng, dtype=LD)
    return rng * ce * sa, rng * ce * ca, rng * se


def sizes(*angles, deg=True):
    """sum of |angle| in radians: how much rounding the unit conversion can contribute"""
    t = LD(0)
    for x in angles:
        t = t + np.abs(r(x, deg))
    return t


def closed_angle(ell, radius):
    """Angular error of You's closed form: grows with the fourth power of the relative height (0.08 e^2 x^4 measured)"""
    h = np.maximum(np.abs(radius - ell.la), np.abs(radius - ell.lb))
    x = np.minimum(h / np.minimum(radius, LD("inf")), 3)
    return LD("0.105") * ell.e2 * x**4 * (1 + 3 * ell.e2)


def inverse_angle(ell, radius):
    """Bound of the angular error ecef2geodetic leaves: a closed first answer, refined by Newton's method.

    Each of three steps squares the error of the closed form, times the curvature of the equation they
    solve. Next to the evolute, where the normals through a point cross, no bound is claimed; within half
    the semi-axis of the centre and beyond a thousand of them only the closed form's (known finding).
    """
    # height up to the difference of the semi-axes cannot be told from the radius alone
    ang = closed_angle(ell, radius)
    slope = radius - ell.e2 * ell.la
    with np.errstate(all="ignore"):
        c = np.where(slope > 0, ell.e2 * ell.la / np.where(slope > 0, slope, 1), np.inf)
        left = np.where(c * ang < LD("0.3"), ang * (c * ang) ** 7, ang)
    left = np.where((radius > LD("0.5001") * ell.la) & (radius < LD("999.9") * ell.la), left, ang)
    return left + LD("1.5e-15")


def inverse_tol(ell, x, y, z):
    """position tolerance for results of ecef2geodetic at ECEF (x, y, z)"""
    R = norm((x, y, z))
    ang = inverse_angle(ell, R)
    # points within 1e-8 m of the axis are put on it
    axis = np.where(np.hypot(np.asarray(x, LD), np.asarray(y, LD)) < LD("2e-8"), LD("2.1e-8"), LD(0))
    # round-off: the equation solved is worth b^2 where its terms are worth a^2
    tol = R * ang + ell.la * (LD("2e-15") + ang**2) + 8 * EPS * (R + ell.la) / (1 - ell.e2) + axis
    if ell.f > 0.1:  # no bound is known below the surface of a strongly flattened ellipsoid
        tol = np.where(np.hypot(np.hypot(x / ell.la, y / ell.la), z / ell.lb) < LD("0.98"), np.inf, tol)
    return tol


def wrap(d, deg=True):
    """difference of angles folded to half a turn"""
    full = LD(360) if deg else 2 * PI
    d = np.asarray(d, dtype=LD)
    return d - full * np.rint(d / full)
