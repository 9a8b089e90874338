"""C21 Times: Julian dates, sidereal time, conversion of strings and datetime64, time scales."""
import datetime as D
import warnings
from fractions import Fraction

import numpy as np

from .. import earth, gen, geo, instr
from ..geo import LD, PI
from ..workers import Worker

TAU = float(2 * PI)
ARC = earth.ARCSEC


def jd_exact(t):
    u = earth.utc(t)
    d = u - D.datetime(2000, 1, 1, 12, tzinfo=earth.UTC)
    return Fraction(2451545) + Fraction(d.days) + Fraction(d.seconds * 10**6 + d.microseconds, 86400 * 10**6)


def all_times(rng, n):
    """any year Python knows"""
    lo, hi = D.datetime(1, 1, 3), D.datetime(9999, 12, 29)
    out = []
    for t in earth.times(rng, n // 2, 1901, 2099):
        out.append(t)
    while len(out) < n:
        t = lo + D.timedelta(seconds=float(rng.uniform(0, (hi - lo).total_seconds())), microseconds=int(rng.integers(0, 10**6)))
        k = rng.integers(0, 5)
        if k == 0:
            t = t.replace(month=2, day=28, hour=23, minute=59, second=59, microsecond=999999) + D.timedelta(
                microseconds=int(rng.integers(0, 3)))
        elif k == 1:
            t = t.replace(year=int(rng.choice([1600, 1700, 1800, 1900, 2000, 2100, 400, 100, 4])))if t.day < 29 else t
        elif k == 2:
            t = t.replace(hour=12, minute=0, second=0, microsecond=0)
        if rng.integers(0, 3) == 0:
            t = t.replace(tzinfo=D.timezone(D.timedelta(minutes=int(rng.integers(-1439, 1440)))))
        else:
            t = t.replace(fold=int(rng.integers(0, 2)))
        out.append(t)
    return out


def run(ctx):
    ctx.rule = ("calendar times of all years 1-9999, biased to month/leap-year/midnight boundaries and to 1901-2099, naive and in "
                "random zones; Julian dates 0-5373484; longitudes over several turns; strings and datetime64 in all units; "
                "oracle: exact rational calendar arithmetic, the published GMST polynomial, SOFA apparent sidereal time")
    ctx.assumptions = ["a Julian date in one float64 resolves about 40 microseconds"]
    warnings.simplefilter("ignore")
    rng = ctx.rng

    # Julian date
    ts = all_times(rng, ctx.n(3000, 60000))
    want = [jd_exact(t) for t in ts]
    w = ctx.worker("stdlib").run([("sidereal.juliandate", [t], {}, {})
                                  for t in ts[: len(ts) // 4]])
    for mode, got in (("scalar", [("ok", instr.call("sidereal.juliandate", t)) for t in ts]), ("stdlib", w),
                      ("list", [("ok", g) for g in instr.call("sidereal.juliandate", list(ts))]),
                      ("tuple", [("ok", g) for g in instr.call("sidereal.juliandate", tuple(ts))])):
        ctx.ok(mode == "stdlib" or len(got) == len(ts), f"juliandate of a {mode} of {len(ts)} times has {len(got)} results",
               key="jd length")
        ctx.count("juliandate", mode, len(got), [("jd", t) for t in ts[:len(got)]])
        for t, e, (st, g) in zip(ts, want, got):
            bad = st != "ok" or not abs(Fraction(float(g)) - e) <= Fraction(6e-10) * (1 if e < 4194304 else 2)
            if bad:
                ctx.violation(f"juliandate({t!r}) [{mode}] = {g!r}, exactly {float(e)!r}",
                              {"function": "sidereal.juliandate", "time": str(t), "observed": str(g), "expected": float(e)},
                              key=f"jd {mode}")
                break
        ctx.stats["comparisons"] += len(got)
    ctx.samples.append({"function": "sidereal.juliandate", "args": [str(ts[-1])], "observed": instr.call("sidereal.juliandate", ts[-1]),
                        "expected": float(want[-1])})

    # Greenwich mean sidereal time of a Julian date
    jd = np.r_[rng.uniform(0, 5373484, ctx.n(3000, 50000)), 2451545.0 + rng.uniform(-40000, 40000, ctx.n(3000, 50000)),
               np.round(rng.uniform(2415020, 2488070, 200)) + 0.5]

    def gmst(j):
        t = (j - 2451545) / LD(36525)
        return (LD("67310.54841") + (LD(876600) * 3600 + LD("8640184.812866")) * t
                + LD("0.093104") * t**2 - LD("6.2e-6") * t**3)

    def j_gmst(a, o):
        s = gmst(a[0])
        return [("sidereal time", np.abs(geo.wrap(np.asarray(o[0], LD) - s * 2 * PI / 86400, False)),
                 LD(2) ** -50 * np.abs(s) * 2 * PI / 86400 + LD("1e-15")),
                ("range", np.abs(np.asarray(o[0], LD) - PI), PI * (1 + LD(2) ** -51))]
    ctx.observe("sidereal.greenwichsrt", [jd], {}, j_gmst, scalars=ctx.n(800, 5000), modes=("scalar", "npscalar", "stdlib"))
    got = instr.call("sidereal.greenwichsrt", [float(x) for x in jd[:200]])
    ctx.ok(isinstance(got, (list, tuple)) and len(got) == 200 and
           all(g == instr.call("sidereal.greenwichsrt", float(x)) for g, x in zip(got, jd)),
           "greenwichsrt of a list is not the list of the results", key="gmst list", fn="greenwichsrt", mode="list")

    # local apparent sidereal time
    import erfa
    lon = gen.rad(gen.lon(rng, ctx.n(12, 24), wide=True))
    for t in earth.times(rng, ctx.n(120, 2500), 1950, 2060):
        d = float(rng.choice([0.0, rng.uniform(-.9, .9), rng.uniform(-1000, 1000)]))
        tt, ut = earth._tt(t), earth._ut1(t, d)
        best = [float(erfa.gst94(*ut)), float(erfa.gst06a(*ut, *tt))]

        def judge(a, o, tol):
            e = np.minimum.reduce([np.abs(geo.wrap(np.asarray(o[0], LD) - (LD(b) + a[0]), False)) for b in best])
            return [("apparent sidereal time", e, LD(tol)),
                    ("range", np.abs(np.asarray(o[0], LD) - PI), PI * (1 + LD(2) ** -51))]
        k = rng.integers(0, 3)
        forms = {0: t, 1: earth.utc(t).replace(tzinfo=None).isoformat(), 2: t}[int(k)]
        kw = {} if d == 0.0 else {"delta_ut1": d}
        for mode, extra in (("array", {"force_non_astropy": True}), ("scalar", {"force_non_astropy": True}), ("stdlib", {}),
                            ("numpyonly", {})):
            # sidereal time first, so that the time is not an array argument
            observe_lst(ctx, forms, lon, {**kw, **extra}, judge, 0.45 * ARC, mode)
    for t in earth.times(rng, ctx.n(40, 600), 1973, 2022):
        d = earth.iers(t)[0]
        tt, ut = earth._tt(t), earth._ut1(t, d)
        best = [float(erfa.gst06a(*ut, *tt))]

        def judge(a, o, tol):
            e = np.abs(geo.wrap(np.asarray(o[0], LD) - (LD(best[0]) + a[0]), False))
            return [("apparent sidereal time", e, LD(tol))]
        for mode in ("array", "scalar"):
            observe_lst(ctx, t, lon, {}, judge, 3e-9, mode)
    # lists of times
    ts = earth.times(rng, 40, 1980, 2020)
    for force in (True, False):
        for box in (list, tuple):
            got = instr.call("sidereal.datetime2sidereal", box(ts), 0.5, force)
            one = [instr.call("sidereal.datetime2sidereal", t, 0.5, force) for t in ts]
            ctx.ok(len(got) == len(one) and all(float(a) == float(b) for a, b in zip(got, one)),
                   f"datetime2sidereal of a {box.__name__} of times differs from the single times (force={force})",
                   key="lst list", fn="datetime2sidereal", mode=box.__name__)
            dd = instr.call("sidereal.datetime2sidereal", box(ts), 0.5, True, delta_ut1=30.0)
            one = [instr.call("sidereal.datetime2sidereal", t, 0.5, True, delta_ut1=30.0) for t in ts]
            ctx.ok(all(float(a) == float(b) for a, b in zip(dd, one)), "datetime2sidereal of a list ignores delta_ut1",
                   key="lst list dut1", fn="datetime2sidereal", mode=box.__name__)

    # strings and datetime64
    ts = all_times(rng, ctx.n(1500, 20000))
    f = instr.api("timeconv.str2dt")
    for t in ts:
        for s in {t.isoformat(), str(t)}:
            ctx.ok(f(s) == t and f(s).tzinfo == t.tzinfo, f"str2dt({s!r}) = {f(s)!r}", {"function": "timeconv.str2dt", "time": s},
                   key="str2dt str", fn="str2dt", mode="str")
        ctx.ok(f(t) is t or f(t) == t, f"str2dt({t!r}) = {f(t)!r}", key="str2dt dt", fn="str2dt", mode="datetime")
        n = t.replace(tzinfo=None)
        for unit, cut in (("us", n), ("ms", n.replace(microsecond=n.microsecond // 1000 * 1000)), ("s", n.replace(microsecond=0)),
                          ("m", n.replace(microsecond=0, second=0)), ("h", n.replace(microsecond=0, second=0, minute=0)),
                          ("D", n.replace(microsecond=0, second=0, minute=0, hour=0)), ("ns", n), ("Y", D.datetime(n.year, 1, 1)),
                          ("M", D.datetime(n.year, n.month, 1))):
            if unit == "ns" and not 1700 < n.year < 2200:
                continue
            v = np.datetime64(n, unit) if unit != "ns" else np.datetime64(n, "us").astype("datetime64[ns]")
            g = f(v)
            ctx.ok(type(g) is D.datetime and g == cut, f"str2dt({v!r}) = {g!r}", {"function": "timeconv.str2dt", "time": str(v),
                   "unit": unit}, key=f"str2dt {unit}", fn="str2dt", mode=f"datetime64[{unit}]")
    for a in range(0, 200, 7):
        part = ts[a:a + 7]
        naive = [t.replace(tzinfo=None) for t in part]
        for box in (list, tuple):
            g = f(box(t.isoformat() for t in part))
            ctx.ok(list(g) == part, f"str2dt of a {box.__name__} of strings", key="str2dt list", fn="str2dt", mode=box.__name__)
            mixed = box([part[0], part[1].isoformat(), np.datetime64(naive[2]), [part[3].isoformat()]])
            g = f(mixed)
            ctx.ok(list(g) == [part[0], part[1], naive[2], [part[3]]], f"str2dt({mixed!r}) = {g!r}", key="str2dt mixed",
                   fn="str2dt", mode=box.__name__)
        g = f(np.array(naive, "datetime64[us]"))
        ctx.ok(list(g) == naive and all(type(x) is D.datetime for x in g), "str2dt of a datetime64 array", key="str2dt array",
               fn="str2dt", mode="array")
        g = f(np.array(naive, "datetime64[s]").reshape(-1, 1))
        ctx.ok(np.asarray(g).shape == (len(naive), 1) and [x for x in np.asarray(g).ravel()] ==
               [x.replace(microsecond=0) for x in naive], "str2dt of a two-dimensional datetime64 array", key="str2dt array2",
               fn="str2dt", mode="array")
    zones(ctx, rng)
    # time scales (helpers without underscore; not judged if a version of the package has none)
    try:
        leap, tt, off, utc = (instr.api("earth_orientation." + n) for n in ("leap_seconds", "utc_to_tt", "utc_with_offset", "ensure_utc"))
    except instr.MissingAPI:
        ctx.stats["time scale helpers absent"] += 1
        return
    cuts = [D.datetime(y, m, 1) for y in range(1972, 2023) for m in (1, 7)]
    probe = [c + D.timedelta(microseconds=k) for c in cuts for k in (-1, 0, 1)] + earth.times(rng, ctx.n(400, 5000), 1972, 2022)
    for t in probe:
        e = earth.tai_minus_utc(t)
        ctx.ok(leap(t) == e, f"leap_seconds({t!r}) = {leap(t)!r}, TAI-UTC was {e}", {"time": str(t)}, key="leap", fn="leap_seconds")
        x = (tt(t) - earth.utc(t)).total_seconds()
        ctx.ok(abs(x - e - 32.184) < 2e-6, f"utc_to_tt({t!r}) is {x} s later, not {e + 32.184}", {"time": str(t)}, key="tt",
               fn="utc_to_tt")
        s = float(rng.uniform(-1e5, 1e5))
        x = (off(t, s) - earth.utc(t)).total_seconds()
        ctx.ok(abs(x - s) < 2e-6 and utc(t) == earth.utc(t) and utc(t).utcoffset() == D.timedelta(0),
               f"utc_with_offset({t!r}, {s}) is {x} s later; ensure_utc -> {utc(t)!r}", {"time": str(t)}, key="utc", fn="ensure_utc")


def zones(ctx, rng):
    """the zone of the machine means nothing; zones with daylight saving, hours that come twice or never"""
    import zoneinfo
    names = ("America/New_York", "Europe/London", "Australia/Lord_Howe", "Asia/Kathmandu", "Africa/Monrovia")
    have = []
    for n in names:
        try:
            have.append(zoneinfo.ZoneInfo(n))
        except zoneinfo.ZoneInfoNotFoundError:
            ctx.stats["zone data absent"] += 1
    ts = []
    for _ in range(ctx.n(60, 1500)):
        y = int(rng.integers(1975, 2037))
        t = D.datetime(y, int(rng.choice([3, 4, 10, 11])), 1) + D.timedelta(minutes=30 * int(rng.integers(0, 30 * 48)), microseconds=int(rng.integers(0, 10**6)))
        ts.append(t.replace(fold=int(rng.integers(0, 2)), tzinfo=None if not have or rng.integers(0, 2) else have[int(rng.integers(0, len(have)))]))
    for z in have:  # the hours around a change of the clocks
        u = D.datetime(int(rng.integers(1975, 2037)), 1, 1, tzinfo=D.timezone.utc)
        for _ in range(366):
            v = u + D.timedelta(days=1)
            if u.astimezone(z).utcoffset() != v.astimezone(z).utcoffset():
                ts += [(u + D.timedelta(minutes=10 * k, seconds=3)).astimezone(z) for k in range(144)]
            u = v
    lo = [float(x) for x in rng.uniform(-3, 3, len(ts))]
    calls = [c for t, x in zip(ts, lo) for c in (("sidereal.juliandate", [t], {}, {}), ("sidereal.datetime2sidereal", [t, x], {"force_non_astropy": True}, {}))]
    for tz in (None, "America/New_York", "Australia/Lord_Howe", "XYZ+11:30"):
        if tz is None:
            got = [("ok", instr.call(c[0], *c[1], **c[2])) for c in calls]
            where = "here"
        else:
            w = Worker("fresh", {"TZ": tz})
            try:
                got = w.run(calls)
            finally:
                w.close()
            where = f"TZ={tz}"
        for (t, x), (s1, jd), (s2, st) in zip(zip(ts, lo), got[::2], got[1::2]):
            ctx.ok(s1 == "ok" and abs(Fraction(float(jd)) - jd_exact(t)) < Fraction(6e-10),
                   f"juliandate({t!r}) with {where} is {jd!r}, exactly {float(jd_exact(t))!r}", {"time": repr(t), "zone": where}, key="zone jd",
                   fn="juliandate", mode=where)
            u = instr.call("sidereal.datetime2sidereal", earth.utc(t).replace(tzinfo=None), x, True)
            ctx.ok(s2 == "ok" and abs(float(geo.wrap(LD(float(st)) - LD(float(u)), False))) < 1e-8,
                   f"datetime2sidereal({t!r}) with {where} is {st!r}, for the same instant in UTC {u!r}", {"time": repr(t), "zone": where},
                   key="zone lst", fn="datetime2sidereal", mode=where)
        ctx.distinct.update((where, repr(t)) for t in ts)


def observe_lst(ctx, t, lon, kw, judge, tol, mode):
    """datetime2sidereal(time, lon): the time comes first"""
    fn = "sidereal.datetime2sidereal"
    try:
        if mode == "array":
            out = [np.asarray(instr.call(fn, t, lon.copy(), **kw), float)]
            a = lon
        elif mode == "scalar":
            a = lon[:4]
            out = [np.array([float(instr.call(fn, t, float(x), **kw)) for x in a])]
        else:
            a = lon[:4]
            r = ctx.worker(mode).run([(fn, [t, float(x)], kw, {}) for x in a])
            bad = [v for s, v in r if s != "ok"]
            if bad:
                raise RuntimeError(bad[0])
            out = [np.array([float(v) for _, v in r])]
    except Exception as e:  # noqa: BLE001
        ctx.count(fn, mode)
        ctx.violation(f"datetime2sidereal({t!r}, ...) [{mode}] {kw} raised {type(e).__name__}: {e}", {"function": fn, "time": str(t)},
                      key=f"lst raise {mode}")
        return
    if out[0].shape != a.shape:
        ctx.violation(f"datetime2sidereal [{mode}]: shape {out[0].shape} for longitudes {a.shape}", {"function": fn}, key="lst shape")
        return
    ctx._tally(fn, mode, [a], out, judge([a.astype(LD)], out, tol), {"function": fn, "mode": mode, "time": str(t), "kwargs": kw},
               str(t), None, kw)
