"""setup: nothing is compiled; make sure that the oracles agree with each other and that the monitors can object."""
import numpy as np

from . import aux_lat, core, earth, geo, geod, instr  # noqa: F401
from .workers import Worker


def main():
    instr.load()
    failures = []

    def check(name, ok):
        print(("ok   " if ok else "FAIL ") + name)
        if not ok:
            failures.append(name)
    ell = core.Ell("wgs84")
    # closed-form forward oracle against pyproj
    import pyproj

    la, lo, h = np.array([0., 45, -89, 90]), np.array([0., 100, -170, 20]), np.array([0., 1e3, 1e6, -1e4])
    P = geo.fwd(la.astype(core.LD), lo.astype(core.LD), h.astype(core.LD), ell, True)
    Q = pyproj.Transformer.from_crs("EPSG:4979", "EPSG:4978", always_xy=True).transform(lo, la, h)
    check("geodetic to ECEF oracle = PROJ", all(np.allclose(np.asarray(p, float), q, atol=1e-6) for p, q in zip(P, Q)))
    for kind in ("stdlib",):
        w = Worker(kind)
        r = w.run([("ecef.geodetic2ecef", [45.0, 100.0, 1000.0], {}, {})])[0]
        check(f"{kind} worker executes", r[0] == "ok" and np.allclose(r[1], [v[1] for v in Q]))
        w.close()
    # a monitor that cannot object is no monitor
    ctx = core.Ctx("C01", "quick", 1)
    ctx.observe("ecef.geodetic2ecef", [la, lo, h], {}, lambda a, o: [("deliberately wrong", np.abs(np.asarray(o[0]) - a[2] - 1), 1e-9)], ell=ell,
                modes=("array", "scalar"))
    check("a wrong expectation is reported", len(ctx.violations) == 2)
    ctx.violations.clear()
    ctx.observe("ecef.geodetic2ecef", [la, lo, h], {}, lambda a, o: [("nan is not fine", np.full(4, np.nan), 1e-9)], ell=ell, modes=("array",))
    check("NaN in a judged comparison is reported", len(ctx.violations) == 1)
    ctx.violations.clear()
    ctx.observe("ecef.geodetic2ecef", [la], {}, lambda a, o: [], ell=ell, modes=("array",))
    check("an exception is reported", len(ctx.violations) == 1)
    return 1 if failures else 0
