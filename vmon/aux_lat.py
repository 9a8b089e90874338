"""Auxiliary latitudes and meridian arc from their definitions (closed forms and quadrature)."""

from __future__ import annotations

import numpy as np

from .geo import LD, PI

_x, _w = np.polynomial.legendre.leggauss(40)
# polish the nodes to extended precision (Newton on the Legendre polynomial)


def _legendre(n, x):
    p0, p1 = np.ones_like(x), x
    for k in range(2, n + 1):
        p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
    dp = n * (x * p1 - p0) / (x * x - 1)
    return p1, dp


_x = _x.astype(LD)
for _ in range(3):
    _p, _d = _legendre(40, _x)
    _x = _x - _p / _d
_w = 2 / ((1 - _x * _x) * _legendre(40, _x)[1] ** 2)


def quad(f, lo, hi):
    lo, hi = np.asarray(lo, LD), np.asarray(hi, LD)
    m, h = (lo + hi) / 2, (hi - lo) / 2
    s = np.zeros(np.broadcast(lo, hi).shape, LD)
    for x, w in zip(_x, _w):
        s = s + w * f(m + h * x)
    return s * h


def meridian(phi1, phi2, ell):
    """signed meridian arc from phi1 to phi2 (radians), metres"""
    e2 = ell.e2
    return ell.la * (1 - e2) * quad(lambda p: (1 - e2 * np.sin(p) ** 2) ** LD(-1.5), phi1, phi2)


def quarter(ell):
    return meridian(LD(0), PI / 4, ell) + meridian(PI / 4, PI / 2, ell)


def rectifying(phi, ell):
    return np.sign(phi) * PI / 2 * (1 - meridian(np.abs(phi), PI / 2, ell) / quarter(ell))


def authalic(phi, ell):
    e2 = ell.e2
    g = lambda p: np.cos(p) / (1 - e2 * np.sin(p) ** 2) ** 2  # noqa: E731
    qp = quad(g, LD(0), PI / 4) + quad(g, PI / 4, PI / 2)
    d = quad(g, np.abs(phi), PI / 2) / qp
    return np.sign(phi) * (PI / 2 - 2 * np.arcsin(np.sqrt(np.clip(d / 2, 0, 1))))


def isometric(phi, ell):
    e = np.sqrt(ell.e2)
    s = np.sin(phi)
    # the cosine of the nearest number to pi/2 can come out with the wrong sign
    t = s / np.maximum(np.cos(phi), LD("1e-40"))
    return np.arcsinh(t) - e * np.arctanh(e * s)


def gd(psi):
    """Gudermannian: conformal latitude of an isometric one"""
    t = np.exp(-np.abs(psi))
    return np.sign(psi) * (PI / 2 - 2 * np.arctan(t))


def conformal(phi, ell):
    return gd(isometric(phi, ell))


def parametric(phi, ell):
    return np.arctan2((1 - ell.f) * np.sin(phi), np.cos(phi))


def geocentric(phi, h, ell):
    N = ell.la / np.sqrt(1 - ell.e2 * np.sin(phi) ** 2)
    return np.arctan2((1 - ell.e2 * N / (N + h)) * np.sin(phi), np.cos(phi))
