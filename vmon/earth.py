"""Earth rotation reference: IAU models of the SOFA library (erfa), no pymap3d."""

from __future__ import annotations

import datetime as D
import functools
import warnings

import numpy as np

from .geo import D2R, LD

ARCSEC = float(D2R / 3600)
OMEGA = 7.292115146706979e-5
UTC = D.timezone.utc


def utc(t):
    return t.replace(tzinfo=UTC) if t.tzinfo is None else t.astimezone(UTC)


def jd2(t):
    """UTC calendar as a two-part Julian date with 86400 s days: exact to 1e-11 s"""
    u = utc(t)
    d = (u - D.datetime(2000, 1, 1, 12, tzinfo=UTC))
    days = d.days
    return 2451545.0 + days, (d.seconds + d.microseconds / 1e6) / 86400.0


def tai_minus_utc(t):
    import erfa

    u = utc(t)
    if u.year < 1972:
        return 10.0
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return float(erfa.dat(u.year, u.month, u.day, 0.0))


def _tt(t):
    a, b = jd2(t)
    return a, b + (tai_minus_utc(t) + 32.184) / 86400


def _ut1(t, dut1):
    a, b = jd2(t)
    return a, b + dut1 / 86400


@functools.lru_cache(20000)
def m80(t, dut1=0.0, xp=0.0, yp=0.0, shift=0.0):
    """J2000 -> terrestrial, IAU 1976 precession, 1980 nutation; shift in seconds"""
    import erfa

    tt = _tt(t)
    tt = tt[0], tt[1] + shift / 86400
    ut = _ut1(t, dut1)
    ut = ut[0], ut[1] + shift / 86400
    dp, de = erfa.nut80(*tt)
    gst = erfa.gmst82(*ut) + dp * np.cos(erfa.obl80(*tt) + de)
    return erfa.pom00(xp * ARCSEC, yp * ARCSEC, 0.0) @ erfa.rz(gst, np.eye(3)) @ erfa.pnm80(*tt)


@functools.lru_cache(20000)
def m06(t, dut1=0.0, xp=0.0, yp=0.0, shift=0.0):
    """GCRS -> ITRS, IAU 2006/2000A"""
    import erfa

    tt = _tt(t)
    ut = _ut1(t, dut1)
    return erfa.c2t06a(tt[0], tt[1] + shift / 86400, ut[0], ut[1] + shift / 86400, xp * ARCSEC, yp * ARCSEC)


@functools.lru_cache(20000)
def iers(t):
    """UT1-UTC, xp, yp (arcseconds) as bundled with astropy"""
    from astropy import units as u
    from astropy.time import Time
    from astropy.utils import iers as I

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        T = Time(t)
        x, y = I.earth_orientation_table.get().pm_xy(T)
        return float(T.delta_ut1_utc), float(x.to_value(u.arcsec)), float(y.to_value(u.arcsec))


def rate(f, t, *a):
    h = 1.0
    return (f(t, *a, shift=h) - f(t, *a, shift=-h)) / (2 * h)


def apply(m, v):
    m = np.asarray(m, LD)
    return tuple(m[i, 0] * v[0] + m[i, 1] * v[1] + m[i, 2] * v[2] for i in range(3))


def times(rng, n, y0=1973, y1=2023):
    """naive, aware UTC, other zones; midnights, ends of years and leap years, microseconds"""
    out = []
    for _ in range(n):
        t = D.datetime(y0, 1, 2) + D.timedelta(seconds=float(rng.uniform(0, (y1 - y0) * 365.25 * 86400 - 172800)))
        k = rng.integers(0, 8)
        if k == 0:
            t = t.replace(hour=0, minute=0, second=0, microsecond=0)
        elif k == 1:
            t = D.datetime(t.year, int(rng.choice([1, 2, 3, 12])), int(rng.choice([1, 28])), t.hour, t.minute, t.second)
        elif k == 2:
            t = t.replace(month=12, day=31, hour=23, minute=59, second=59, microsecond=999999)
        elif k == 3:
            t = D.datetime(t.year - t.year % 4 if t.year - t.year % 4 >= y0 else t.year, 3, 1, t.hour) - D.timedelta(
                hours=int(rng.integers(0, 24)))
        z = rng.integers(0, 3)
        if z == 1:
            t = t.replace(tzinfo=UTC)
        elif z == 2:
            t = t.replace(tzinfo=D.timezone(D.timedelta(minutes=int(rng.choice([-720, -300, -210, 60, 330, 345, 840])))))
        out.append(t.replace(fold=int(rng.integers(0, 2))) if t.tzinfo is None else t)  # fold says nothing about UTC
    return out
