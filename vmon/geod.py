"""Ellipsoidal geodesics: PROJ's GeographicLib as reference, and distance on the surface."""

from __future__ import annotations

import functools

import numpy as np

from .geo import LD, PI


@functools.lru_cache(maxsize=64)
def _geod(a, b):
    from pyproj import Geod

    return Geod(a=a, b=b)


def degs(x, deg):
    x = np.asarray(x, LD)
    return np.asarray(x if deg else x * 180 / PI, dtype=float)


def inverse(la1, lo1, la2, lo2, ell, deg=True):
    """dist, forward azimuth at 1, forward azimuth at 2 (degrees)"""
    a = [degs(v, deg) for v in (la1, lo1, la2, lo2)]
    a = [np.ascontiguousarray(v) for v in np.broadcast_arrays(*a)]
    a[0], a[2] = np.clip(a[0], -90, 90), np.clip(a[2], -90, 90)
    az, baz, d = _geod(ell.a, ell.b).inv(a[1], a[0], a[3], a[2])
    return np.asarray(d), np.asarray(az), np.asarray(baz) + 180.0


def direct(la1, lo1, az, s, ell, deg=True):
    """lat, lon, forward azimuth at the end (degrees)"""
    la, lo, az = (degs(v, deg) for v in (la1, lo1, az))
    la, lo, az, s = (np.ascontiguousarray(v) for v in np.broadcast_arrays(la, lo, az, np.asarray(s, dtype=float)))
    lo2, la2, baz = _geod(ell.a, ell.b).fwd(lo, np.clip(la, -90, 90), az, s)
    return np.asarray(la2), np.asarray(lo2), np.asarray(baz) + 180.0


def gap(la1, lo1, la2, lo2, ell):
    """straight-line distance between two points on the ellipsoid given in degrees (NaN stays NaN)"""
    from . import geo

    return geo.dist(geo.fwd(la1, lo1, 0, ell), geo.fwd(la2, lo2, 0, ell))


def separation(la1, lo1, la2, lo2, deg=True):
    """angle between the normals, radians"""
    from . import geo

    s1, c1 = geo.trig(la1, deg)
    s2, c2 = geo.trig(la2, deg)
    sl, cl = geo.trig(np.asarray(lo2, LD) - np.asarray(lo1, LD), deg)
    return np.arctan2(np.hypot(c2 * sl, c1 * s2 - s1 * c2 * cl), s1 * s2 + c1 * c2 * cl)
