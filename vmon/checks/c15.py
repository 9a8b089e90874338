"""C15 Area and perimeter of geodesic polygons."""
import numpy as np

from .. import gen, geo, geod, instr
from ..geo import LD
from .c14 import tolerance

FID = "C15-area-sum-of-azimuth-turns"


def star(rng, ell, n):
    """a simple polygon: vertices at increasing azimuth around a centre"""
    la, lo = float(gen.lat(rng, 1)[0]), float(gen.lon(rng, 1)[0])
    size = 10 ** rng.uniform(-7, 0.1) * ell.a
    az = np.sort(rng.uniform(0, 360, n))
    if n <= 8:
        az = (np.arange(n) + rng.uniform(-.3, .3, n)) * 360 / n
    la_, lo_, _ = geod.direct(np.full(n, la), np.full(n, lo), az, size * rng.uniform(.5, 1, n), ell)
    return la_, lo_


def true_area(la, lo, ell):
    area, per = geod._geod(ell.a, ell.b).polygon_area_perimeter(np.asarray(lo), np.asarray(la))
    return float(area), float(per)


def defect_area(la, lo, ell):
    """what the pinned implementation computes instead of the area (known finding)"""
    nxt = np.roll(np.arange(len(la)), -1)
    _, a1, a2 = geod.inverse(la, lo, la[nxt], lo[nxt], ell)
    turn = np.roll(a1, -1) - a2
    turn = turn - 360 * np.rint(turn / 360)
    c2 = _c2(ell)
    raw = c2 * np.radians(turn.sum())
    area0 = 4 * np.pi * c2
    return raw, area0, float(180 - np.abs(turn).max())


def _c2(ell):
    """authalic radius squared, half the square"""
    e2 = float(ell.e2)
    e = np.sqrt(e2)
    return ell.a**2 / 2 + ell.b**2 / 2 * (np.arctanh(e) / e if e > 0 else 1)


def relations(ctx, rng, form, La, Lo, ell, deg, area, per, ptol, dtol, area0, loose, rep):
    """the same polygon said in another way"""
    n = len(La)
    turn = 360.0 if deg else 2 * np.pi
    k = int(rng.integers(n))
    for how, l, o, sign in (("reversed", La[::-1], Lo[::-1], -1), ("other first vertex", np.roll(La, k), np.roll(Lo, k), 1),
                            ("whole turns", La, Lo + turn * rng.integers(-2, 3, n), 1)):
        l, o = (l.tolist(), o.tolist()) if form != "array" else (l.copy(), o.copy())
        A, P = instr.call("karney.geodesic_area", l, o, ell=ell.obj(), deg=deg)
        d = abs(A - sign * area)
        m = 40 * dtol
        ok = d <= m or abs(d - area0) <= m and abs(abs(A) - area0 / 2) <= m or loose
        rep2 = {**rep, "args": [list(map(float, l)), list(map(float, o))], "other": [float(A), float(P)]}
        ctx.ok(ok, f"geodesic_area {how}: area {A!r}, before {area!r} (tolerance {m:.3g}); {n}-gon ell={ell} deg={deg} {La.tolist()} {Lo.tolist()}",
               rep2, key=f"area {how}", fn="karney.geodesic_area", mode=how)
        ctx.ok(abs(P - per) <= 2 * ptol + 8e-16 * ell.a * n * 4, f"geodesic_area {how}: perimeter {P!r}, before {per!r}; ell={ell} deg={deg} {La.tolist()} {Lo.tolist()}",
               rep2, key=f"perimeter {how}", fn="karney.geodesic_area", mode=how)


def run(ctx):
    ctx.rule = ("triangles to 60-gons from decimetres to most of a hemisphere, around the poles, across the dateline, both "
                "orders, rotated starting vertex, lists/tuples/arrays; oracle: PROJ polygon area and geodesic lengths")
    ctx.assumptions = ["PROJ computes polygon areas to 0.1 m^2 on the Earth",
                       "only simple polygons are judged for area"]
    rng = ctx.rng
    cases = ctx.n(150, 3000)
    for ell in gen.ells(ctx, ctx.n(3, 10), ctx.n(3, 20), fmax=0.03):
        tol_len = tolerance(ell)
        for _ in range(cases):
            n = int(rng.choice([3, 3, 4, 5, 8, 20, 60]))
            la, lo = star(rng, ell, n)
            if rng.random() < .2:
                lo = np.where(lo < 0, lo + 360, lo)
            if n in (5, 20) and rng.random() < .3:  # a star that winds several times
                p = np.arange(n) * (2 if n == 5 else int(rng.choice([3, 7, 9]))) % n
                la, lo = la[p], lo[p]
            if rng.random() < .15:  # neighbours on one meridian, on opposite meridians, on whole degrees, coincident
                j = int(rng.integers(n - 1))
                what = int(rng.integers(0, 4))
                if what == 3:
                    la, lo = np.round(la, 1), np.round(lo, 1)
                    la[j + 1] = la[j] if rng.random() < .5 else la[j + 1]
                lo[j + 1] = lo[j] + (180 if what == 1 else 0)
            if rng.random() < .3:  # whole turns, which change nothing
                lo = lo + 360 * rng.integers(-1, 2, n)
            if rng.random() < .5:
                la, lo = la[::-1].copy(), lo[::-1].copy()
            k = int(rng.integers(n))
            la, lo = np.roll(la, k), np.roll(lo, k)
            deg = bool(rng.random() < .6)
            La, Lo = (la, lo) if deg else (np.radians(la), np.radians(lo))
            form = rng.choice(["list", "array", "tuple"])
            args = {"list": (La.tolist(), Lo.tolist()), "array": (La, Lo), "tuple": (tuple(La.tolist()), tuple(Lo.tolist()))}[form]
            mode = "stdlib" if rng.random() < .1 else str(form)
            rep = {"function": "karney.geodesic_area", "args": [La.tolist(), Lo.tolist()], "kwargs": {"deg": deg},
                   "ell": ell.spec()}
            try:
                if mode == "stdlib":
                    st, v = ctx.worker("stdlib").run([("karney.geodesic_area", [La.tolist(), Lo.tolist()], {"deg": deg},
                                                       {"ell": ell.spec()})])[0]
                    if st != "ok":
                        raise RuntimeError(v)
                    area, per = v
                else:
                    area, per = instr.call("karney.geodesic_area", *args, ell=ell.obj(), deg=deg)
                area, per = float(area), float(per)
            except Exception as ex:  # noqa: BLE001
                ctx.violation(f"geodesic_area({La.tolist()}, {Lo.tolist()}) ell={ell}: raised {ex!r}", rep, key="raise")
                continue
            rep["observed"] = [area, per]
            if not deg:
                la, lo = (geod.degs(v, False) for v in (La, Lo))
            t_area, _ = true_area(la, lo, ell)
            nxt = np.roll(np.arange(n), -1)
            t_per = float(np.sum(np.asarray(geod.inverse(la, lo, la[nxt], lo[nxt], ell)[0], LD)))
            ptol = float(n * tol_len + 1e-14 * t_per + 2e-15 * ell.a * n * (1 if deg else 4))
            one = [np.array([float(LD(la[0]) + n)]), np.array([lo[0]]), np.array([la[1]]), np.array([lo[1]])]
            ctx._tally("karney.geodesic_area", mode, one, [np.array([area]), np.array([per])],
                       [("perimeter", np.array([abs(per - t_per)]), np.array([ptol]))], rep, f"{n}-gon", ell, {"deg": deg})
            full = 4 * np.pi * _c2(ell)
            raw, area0, spike = defect_area(la, lo, ell)
            side = float(np.min(geod.inverse(la, lo, la[nxt], lo[nxt], ell)[0]))
            # azimuth noise: angles between sides scale with the size of the rounding over the side length
            dtol = _c2(ell) * n * (1e-12 + 8 * float(ptol) / max(side, 1e-9))
            loose = dtol > 0.01 * area0 or np.radians(spike) * _c2(ell) < dtol  # turns of exactly half a circle may fold either way
            relations(ctx, rng, form, La, Lo, ell, deg, area, per, ptol, dtol, area0, loose, rep)
            atol = 1e-9 * abs(t_area) + ell.a * float(tol_len) * 4 * n + 1e-12 * ell.a**2 * abs(ell.f) ** 6
            ctx.stats["areas compared"] += 1
            if abs(area - t_area) <= atol:
                continue
            cand = [raw] if abs(raw) <= area0 / 2 + dtol else []
            if abs(raw) > area0 / 2 - dtol:
                cand.append(raw - np.copysign(area0, raw))
            if loose:
                cand = [c + s * area0 / 2 * m for c in [raw, *cand] for s in (-1, 1) for m in (0, 1, 2)]
            if min(abs(area - c) for c in cand) <= dtol:
                ctx.finding(FID, f"geodesic_area of {list(zip(la.tolist(), lo.tolist()))[:4]}... = {area}, true {t_area}")
                continue
            ctx.violation(f"geodesic_area [{mode}] {n}-gon ell={ell} deg={deg}: area {area!r}, true {t_area!r} +- {atol:.3g} "
                          f"(known defect would give {raw!r} +- {dtol:.3g}, whole {full:.6g}); lats {la.tolist()} lons {lo.tolist()}",
                          rep, key="area")
    # invalid input
    for n in (0, 1, 2):
        try:
            r = instr.call("karney.geodesic_area", [1.0] * n, [2.0] * n)
            ctx.ok(False, f"geodesic_area accepted {n} vertices: {r}", {"n": n}, fn="karney.geodesic_area")
        except ValueError:
            ctx.ok(True, "", fn="karney.geodesic_area")
