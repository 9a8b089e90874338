"""C29 The built-in Earth-orientation model is made of the published models it names."""
import datetime as D
import warnings

import erfa
import numpy as np

from .. import earth, instr
from ..earth import ARCSEC, UTC

TAU = 2 * np.pi


def wrap(x):
    return abs((x + np.pi) % TAU - np.pi)


def leap_epochs():
    """days on which TAI-UTC changes, from the table of the SOFA library"""
    out, last = [], None
    d = D.date(1972, 1, 1)
    while d < D.date(2024, 1, 1):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            v = float(erfa.dat(d.year, d.month, d.day, 0.0))
        if v != last:
            out.append(d)
            last = v
        d = (d.replace(day=1) + D.timedelta(days=32)).replace(day=1)
    return out


def run(ctx):
    warnings.simplefilter("ignore")
    ctx.rule = ("Julian dates and centuries 1800-2200, times around every leap second, in all zones; pole offsets to 1000 arcsec; oracle: SOFA (erfa) "
                "routines of the same standards, one by one")
    ctx.assumptions = ["Julian dates in one float resolve 40 microseconds"]
    rng = ctx.rng
    eo = instr.api("earth_orientation.eci_to_ecef_matrix")
    assert eo
    n = ctx.n(1500, 40000)

    def call(name, *a, **k):
        return instr.call("earth_orientation." + name, *a, **k)

    def near(name, got, want, tol, arg, angle=False):
        e = float(np.max(np.abs(np.asarray(got, float) - np.asarray(want, float)))) if not angle else wrap(float(got) - float(want))
        ctx.worst[name] = max(ctx.worst.get(name, 0.0), e / tol)
        ctx.distinct.add((name, str(arg)))
        if len(ctx.samples) < 6 and not any(s["function"] == name for s in ctx.samples):
            ctx.samples.append({"function": name, "argument": str(arg), "value": str(got)[:200], "expected": str(want)[:200]})
        ctx.stats["comparisons"] += 1
        ctx.ok(e <= tol, f"{name}({arg}) = {got}, expected {want}: differs by {e:.3g} > {tol:.3g}", {"function": name, "argument": str(arg), "observed": str(got)},
               key=name, fn="earth_orientation." + name, mode="scalar")

    ts = [0.0, 1.0, -1.0] + list(rng.uniform(-2, 2, n))
    for t in ts:
        t = float(t)
        d = t * 36525.0  # days from J2000
        near("mean_obliquity", call("mean_obliquity", t), erfa.obl80(2451545.0, d), 1e-14, t)
        p = call("precession_matrix", t)
        near("precession_matrix", p, erfa.pmat76(2451545.0, d), 1e-14, t)
        dp, de = call("nutation_short", t)
        w = erfa.nut80(2451545.0, d)
        near("nutation_short", [dp], [w[0]], .5 * ARCSEC, t)
        near("nutation_short", [de], [w[1]], .2 * ARCSEC, t)
        eps0 = erfa.obl80(2451545.0, d)
        near("nutation_matrix", call("nutation_matrix", t), erfa.numat(eps0, dp, de), 1e-15 * 20, t)
        near("equation_of_equinoxes", call("equation_of_equinoxes", t), dp * np.cos(eps0), 3e-9, t)
        near("julian_centuries", call("julian_centuries", 2451545.0 + d), d / 36525, 4e-14, t)
    # the four terms of the short series are those of the full one: nothing left of them on average over centuries
    m = ctx.n(6000, 60000)
    T = (np.arange(m) + rng.random(m)) / m * 2 - 1
    got = np.array([call("nutation_short", float(t)) for t in T]) / ARCSEC
    full = np.array([erfa.nut80(2451545.0, t * 36525) for t in T]) / ARCSEC
    fu = [np.array([f(float(t)) for t in T]) for f in (erfa.faom03, lambda t: erfa.faf03(t) + erfa.faom03(t) - erfa.fad03(t), lambda t: erfa.faf03(t) + erfa.faom03(t))]
    om, sun, moon = fu
    for col, g, label in ((0, np.sin, "longitude"), (1, np.cos, "obliquity")):
        A = np.c_[g(om), g(2 * sun), g(2 * moon), g(2 * om)]
        c = np.linalg.lstsq(A, (got - full)[:, col], rcond=None)[0]
        near(f"nutation_short in {label}", c, np.zeros(4), .012, "terms of node, Sun, Moon, twice the node")
    for _ in range(n):
        jd = float(2451545.0 + rng.uniform(-73050, 73050))
        if rng.random() < .2:
            jd = float(np.floor(jd) + .5)
        gm = call("greenwich_mean_sidereal_time", jd)
        near("greenwich_mean_sidereal_time", gm, erfa.gmst82(jd, 0.0), 5e-9, jd, True)
        ctx.ok(0 <= gm < TAU, f"greenwich_mean_sidereal_time({jd}) = {gm}", {}, key="gmst range", fn="earth_orientation.greenwich_mean_sidereal_time", mode="range")
        era = call("earth_rotation_angle", jd)
        near("earth_rotation_angle", era, erfa.era00(jd, 0.0), 1e-9, jd, True)
        ctx.ok(0 <= era < TAU, f"earth_rotation_angle({jd}) = {era}", {}, key="era range", fn="earth_orientation.earth_rotation_angle", mode="range")
        jt = jd + 69.184 / 86400
        near("greenwich_apparent_sidereal_time", call("greenwich_apparent_sidereal_time", jd, jt),
             erfa.gmst82(jd, 0.0) + erfa.eqeq94(jt, 0.0), .5 * ARCSEC, jd, True)
    for _ in range(n // 3):
        xp, yp = (float(v) for v in rng.normal(size=2) * rng.choice([0, .3, 1000]))
        near("polar_motion_matrix", call("polar_motion_matrix", xp, yp), erfa.pom00(xp * ARCSEC, yp * ARCSEC, 0.0), 1e-14, (xp, yp))
    ang = list(rng.uniform(-7, 7, n // 5)) + [0.0, np.pi / 2, -np.pi / 2, np.pi]
    for a in ang:
        a = float(a)
        for f, g in (("rotation_x", erfa.rx), ("rotation_y", erfa.ry), ("rotation_z", erfa.rz)):
            near(f, call(f, a), g(a, np.eye(3)), 1e-15, a)
    # leap seconds: everywhere, and at both sides of every change, asked in any zone
    when = [D.datetime(1972, 1, 1) + D.timedelta(seconds=float(rng.uniform(0, 1.9e9))) for _ in range(n)]
    for d in leap_epochs():
        b = D.datetime(d.year, d.month, d.day)
        when += [b + D.timedelta(seconds=s) for s in (0, -1e-6, 1, -1, 3600, -3600, 86400, -86400, 45000, -45000, 20 * 86400, -20 * 86400) if d.year > 1972 or s >= 0]
    for t in when:
        z = int(rng.integers(0, 3))
        if z:
            t = t.replace(tzinfo=UTC).astimezone(D.timezone(D.timedelta(minutes=int(rng.choice([-720, -300, 0, 345, 840])))))
        want = earth.tai_minus_utc(t)
        got = call("leap_seconds", t)
        near("leap_seconds", got, want, 1e-9, t)
        tt = call("utc_to_tt", t)
        s = (earth.utc(tt) - earth.utc(t)).total_seconds()
        near("utc_to_tt", s, want + 32.184, 1.1e-6, t)
        near("juliandate", (call("juliandate", t) - sum(earth.jd2(t))) * 86400, 0, 5e-5, t)
    # the whole: a rotation, from these parts, and its rate
    for t in earth.times(rng, n // 10, 1973, 2060):
        eop = (0.0, 0.0, 0.0) if rng.random() < .3 else (float(rng.uniform(-.9, .9)), float(rng.uniform(-.4, .4)), float(rng.uniform(-.4, .6)))
        k = dict(zip(("delta_ut1", "xp", "yp"), eop))
        m = np.array(call("eci_to_ecef_matrix", t, **k), float)
        near("eci_to_ecef_matrix orthonormal", m @ m.T, np.eye(3), 5e-15, t)
        near("eci_to_ecef_matrix determinant", np.linalg.det(m), 1.0, 5e-15, t)
        near("eci_to_ecef_matrix", m, earth.m80(t, *eop), .2 * ARCSEC, (t, eop))
        r = np.array(call("eci_to_ecef_matrix_rate", t, **k), float)
        w = r @ m.T
        near("eci_to_ecef_matrix_rate spin", w - w.T, 2 * w, 1e-9, t)  # antisymmetric
        near("eci_to_ecef_matrix_rate", r, earth.rate(lambda q, *a, shift: earth.m80(q, *a, shift=shift), t, *eop), 1.2e-8, (t, eop))
