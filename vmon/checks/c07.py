"""C07 Arrays: every element is the scalar result, shapes are kept, scalars broadcast."""
import warnings

import numpy as np

from .. import gen, instr, table
from ..core import Ell, flatten



def execute(f, args, kw, shape):
    """flat list of leaves, each checked to have the shape

    Constants of matrices may be scalar; where scalars are mixed with arrays a component that
    depends on none of the array arguments may be scalar too.
    """
    free = "mat" in f.outs or any(np.ndim(v) == 0 for v in args)
    with np.errstate(all="ignore"):
        res = instr.call(f.path, *args, **kw)
    leaves = flatten(res)
    out = []
    for v in leaves:
        v = np.asarray(v)
        if v.shape != shape and not (free and v.shape == ()):
            raise AssertionError(f"result of shape {v.shape} for arguments of shape {shape}")
        out.append(np.broadcast_to(np.asarray(v, float), shape).reshape(-1))
    return out


def run(ctx):
    warnings.simplefilter("ignore")
    ctx.rule = ("every public function that takes arrays: 1-D, 2-D, 3-D, Fortran-ordered, strided, one-element, read-only arrays; every "
                "pattern of scalars among the arguments; integer and single-precision arrays; no elements, no axes, thousands of elements, "
                "axes broadcast against axes; NaN in single elements; compared element by element with "
                "the same function called on Python floats")
    ctx.assumptions = ["element and scalar may differ by rounding"]
    rng = ctx.rng
    n = 24
    for rep in range(ctx.n(1, 30)):
        for f in table.build():
            if not f.arr:
                continue
            for ell in ([gen.ells(ctx, 1, 1)[int(rng.integers(0, 5))]] if f.ell else [Ell(none=True)]):
                for deg in ((True, False) if f.deg else (True,)):
                    one(ctx, f, ell, deg, rng, n)
    for rep in range(ctx.n(2, 40)):
        for f in table.build():
            if f.arr:
                specials(ctx, f, [gen.ells(ctx, 1, 1)[int(rng.integers(0, 5))], Ell(none=True)][rep % 2] if f.ell else Ell(none=True), rng)
    for rep in range(ctx.n(2, 30)):
        for f in table.build():
            if f.arr:
                sizes(ctx, f, [Ell(none=True), gen.ells(ctx, 1, 1)[int(rng.integers(0, 5))]][rep % 2] if f.ell else Ell(none=True),
                      bool(rep % 2 == 0 or rng.random() < .5), rng)
                single(ctx, f, [Ell(none=True), gen.ells(ctx, 1, 1)[int(rng.integers(0, 5))]][rep % 2] if f.ell else Ell(none=True),
                       bool(rng.random() < .5), rng)
    collections(ctx, rng)


def sizes(ctx, f, ell, deg, rng):
    """no elements, no axes, thousands of elements, and axes that broadcast against each other"""
    kw = {**f.kw, **table.time_kw(f)}
    if f.deg:
        kw["deg"] = deg
    if f.ell:
        kw["ell"] = ell.obj()
    n = 24
    args = f.generate(rng, n, ell, tame=True)
    if f.deg and not deg:
        args = f.to_rad(args)
    if not args:
        return
    api = instr.api(f.path)
    eci = any(t in ("eci",) for t in f.args) or f.path.endswith("eci") or "eci" in f.path
    rep = {"function": f.path, "args": [v.tolist() for v in args], "kwargs": str(kw), "ell": ell.spec()}

    def go(a, label):
        with np.errstate(all="ignore"):
            try:
                return [np.asarray(v, float) for v in flatten(api(*a, **kw))]
            except Exception as e:  # noqa: BLE001
                ctx.violation(f"{f} [{label}] deg={deg}: {type(e).__name__}: {str(e)[:160]}", rep, key=f"{f} {label}")
                return None
    base = go([v.copy() for v in args], "1-D")
    if base is None:
        return
    # no elements
    if not f.path.endswith("_state"):
        r = go([v[:0].copy() for v in args], "no elements")
        ctx.ok(r is not None and all(v.shape in ((0,), ()) for v in r), f"{f}: no elements in, shapes {r and [v.shape for v in r]} out", rep,
               key=f"{f} no elements", fn=f.path, mode="no elements")
    # a 0-d array is a scalar
    i = int(rng.integers(0, n))
    r = go([np.array(v[i]) for v in args], "0-d")
    one_ = go([float(v[i]) for v in args], "scalar")
    if r is not None and one_ is not None:
        ctx.ok(all(v.shape == () for v in r) and all(np.array_equal(x, y, equal_nan=True) or abs(x - y) <= 1e-9 * (1 + abs(y)) for x, y in zip(r, one_)),
               f"{f}: 0-d arrays give {r}, scalars {one_}", rep, key=f"{f} 0-d", fn=f.path, mode="0-d")
    # thousands of elements: the first ones over and over
    reps = int(rng.choice([43, 171, 683, 2731])) if not eci else 43
    r = go([np.tile(v, reps) for v in args], "thousands")
    if r is not None:
        it = f.path.startswith(("vincenty.", "rsphere.euler"))

        def alike(x, y):
            if x.shape == ():
                return True
            if x.shape != (n * reps,):
                return False
            y = np.broadcast_to(y, (n,))
            x = x.reshape(reps, n)
            with np.errstate(all="ignore"):
                return bool(((x == y) | (np.isnan(x) & np.isnan(y)) | (abs(x - y) <= 1e-9 * (1 + abs(y)) + (1e-5 if it else 0))
                             | (abs(abs(x - y) - 360) < 1e-6)).all())
        ctx.ok(all(alike(x, y) for x, y in zip(r, base)), f"{f} deg={deg} ell={ell}: {n * reps} elements, {n} of them repeated, differ from those {n} alone", rep,
               key=f"{f} thousands", fn=f.path, mode="thousands of elements")
    # axes against axes
    if len(args) > 1 and "near" not in f.args and "nvnear" not in f.args and "nv" not in f.args and not f.path.endswith("euler"):
        A, B = 4, 5
        col = rng.random(len(args)) < .5
        col[int(rng.integers(0, len(args)))] ^= True
        if col.all() or not col.any():
            col[0] ^= True
        rows, cols = rng.permutation(n)[:A], rng.permutation(n)[:B]
        shaped = [v[rows][:, None].copy() if c else v[cols].copy()[None if rng.random() < .5 else slice(None)] for v, c in zip(args, col)]
        flat = [np.broadcast_to(v, (A, B)).reshape(-1).copy() for v in shaped]
        if f.args[0] in ("ecef", "eci") and np.min(np.sqrt(sum(v**2 for v in flat[:3]))) < 0.3 * ell.a:
            return
        with np.errstate(all="ignore"):
            try:
                want = [np.broadcast_to(np.asarray(v, float), (A * B,)) for v in flatten(api(*[v.copy() for v in flat], **kw))]
            except ValueError:
                return
        r = go(shaped, "axes against axes")
        if r is not None:
            try:
                got = [np.broadcast_to(v, (A, B)).reshape(-1) for v in r]
            except ValueError:
                ctx.violation(f"{f} [axes against axes]: arguments {[v.shape for v in shaped]} give {[v.shape for v in r]}", rep, key=f"{f} axes")
                return
            ctx._tally(f.path, "axes against axes", flat, got, f.compare(flat, want, got, ell, deg), rep, "axes against axes", ell if f.ell else None, {**f.kw, "deg": deg})


def single(ctx, f, ell, deg, rng):
    """single precision: the result of the same numbers in double precision, to single precision"""
    if f.path in ("radec2azel", "azel2radec") and not f.kw.get("force_non_astropy"):
        return  # Astropy's own precision
    kw = {**f.kw, **table.time_kw(f)}
    if f.deg:
        kw["deg"] = deg
    if f.ell:
        kw["ell"] = ell.obj()
    n = 40
    args = f.generate(rng, n, ell, tame=True)
    if f.deg and not deg:
        args = f.to_rad(args)
    if not args:
        return
    small = [v.astype(np.float32) for v in args]
    exact = [v.astype(float) for v in small]
    if f.deg and not deg:  # the quarter turn in single precision is a little more than one
        exact = [np.where(abs(v) == np.float32(np.pi / 2), np.copysign(np.pi / 2, v.astype(float)), v.astype(float)) for v in small]
    rep = {"function": f.path, "args": [v.tolist() for v in small], "kwargs": str(kw), "ell": ell.spec(), "dtype": "float32"}
    api = instr.api(f.path)
    ok = np.ones(n, bool)
    if f.path == "geodetic2isometric":  # grows beyond all bounds within single precision of the pole
        ok = abs(exact[0]) < (89 if deg else np.radians(89))
        ok |= abs(exact[0]) == (90 if deg else np.pi / 2)
    if "near" in f.args:  # of points closer than the resolution there is no direction
        d = np.hypot(exact[2] - exact[0], np.cos(np.radians(exact[0]) if deg else exact[0]) * (exact[3] - exact[1])) if len(exact) >= 4 else np.ones(n)
        ok &= d > (1e-2 if deg else 2e-4)
    try:
        with np.errstate(all="ignore"):
            got = [np.broadcast_to(np.asarray(v, float), (n,))[ok] for v in flatten(api(*[v.copy() for v in small], **kw))]
            want = [np.broadcast_to(np.asarray(v, float), (n,))[ok] for v in flatten(api(*exact, **kw))]
    except Exception as e:  # noqa: BLE001
        ctx.violation(f"{f} [float32] deg={deg} ell={ell}: {type(e).__name__}: {str(e)[:160]}", rep, key=f"{f} float32")
        return
    a = [v[ok] for v in exact]
    v = [(name, e, np.asarray(t) * (5e9 if f.path.startswith("lox.loxodrome") else 1e9)) for name, e, t in f.compare(a, want, got, ell, deg)]
    ctx._tally(f.path, "single precision", a, got, v, rep, "single precision", ell if f.ell else None, {**f.kw, "deg": deg})


def specials(ctx, f, ell, rng):
    """arrays full of zeros, poles, axes, seams: every shape gives the same numbers, those of the scalar calls"""
    kw = {**f.kw, **table.time_kw(f)}
    if f.ell:
        kw["ell"] = ell.obj()
    n = 24
    a, b = ell.a, ell.b
    vals = {"A": [0.0, -0.0, 90.0, -90.0, 180.0, -180.0, 360.0, 45.0, -60.0, 30.0, 270.0, 1e-10],
            "L": [0.0, -0.0, a, b, -b, -a, 1.0, -1.0, 5.0], "N": [0.0, -0.0, 1.0, -1.0, 0.5]}
    args = f.generate(rng, n, ell)
    plain = [v.copy() for v in args]
    p = rng.uniform(.2, 1)
    for v, k in zip(args, f.kinds):
        hit = rng.random(n) < p
        v[hit] = rng.choice(vals[k], int(hit.sum()))
    api = instr.api(f.path)

    def go(shape, a):
        with np.errstate(all="ignore"):
            try:
                return [np.broadcast_to(np.asarray(v, float), shape).reshape(-1) for v in flatten(api(*[v.reshape(shape).copy() for v in a], **kw))]
            except Exception as e:  # noqa: BLE001
                return f"{type(e).__name__}: {e}"
    scal = []
    with np.errstate(all="ignore"):
        for i in range(n):
            try:
                scal.append([float(x) for x in flatten(api(*[float(v[i]) for v in args], **kw))])
            except Exception as e:  # noqa: BLE001  out of the domain (or singular, for the standard library's arithmetic)
                one_ = go((1,), [v[i:i + 1] for v in args])
                if isinstance(one_, str):
                    for v, w in zip(args, plain):
                        v[i] = w[i]
                scal.append(None)
    if all(s is None for s in scal):
        return
    r = go((n,), args)
    rep = {"function": f.path, "args": [v.tolist() for v in args], "kwargs": str(kw), "ell": ell.spec()}
    what = f"{f} with special values, ell={ell}"
    if not ctx.ok(not isinstance(r, str), f"{what}: {r}", rep, key=f"{f} special raise", fn=f.path, mode="special values"):
        return
    # iterations that stop for the whole array leave what their tolerance allows; no azimuth between points that coincide
    it = f.path.startswith("vincenty.")
    skip = np.abs(r[0]) < 10 if f.path == "vincenty.vdist" else np.zeros(n, bool)

    def near(x, y):
        d = abs(x - y)
        return x == y or (np.isnan(x) and np.isnan(y)) or d <= (1e-6 if it else 1e-7) * (1 + abs(x)) or (f.deg or f.degonly) and abs(d - 360) < 1e-6

    def same(i, x, y):
        """of one element: as numbers, or as the points and directions they mean"""
        if all(near(u, v) for u, v in zip(x, y)):
            return True
        try:
            with np.errstate(all="ignore"):
                vs = f.compare([v[i:i + 1] for v in args], [np.array([u]) for u in x], [np.array([u]) for u in y], ell, True)
            return all(bool((~np.isfinite(np.asarray(t, float)) | (np.asarray(e, float) <= np.asarray(t, float))).all()) for _, e, t in vs)
        except (ValueError, TypeError):
            return False

    perm = rng.permutation(n)
    for shape in ((4, 6), (2, 3, 4), "order", "one"):
        if shape == "one":
            parts = [go((1,), [v[i:i + 1] for v in args]) for i in range(n)]
            bad = [x for x in parts if isinstance(x, str)]
            q = bad[0] if bad else [np.concatenate(c) for c in zip(*parts)]
        elif shape == "order":
            q = go((n,), [v[perm] for v in args])
            q = q if isinstance(q, str) else [c[np.argsort(perm)] for c in q]
        else:
            q = go(shape, args)
        d = None if isinstance(q, str) else ~np.array([skip[i] or same(i, [c[i] for c in q], [c[i] for c in r]) for i in range(n)])
        ctx.ok(d is not None and not d.any(),
               f"{what}: as {shape} " + (q if d is None else f"{[c[d.argmax()] for c in q]} instead of {[c[d.argmax()] for c in r]} for {[v[d.argmax()] for v in args]}"),
               rep, key=f"{f} special {shape}", fn=f.path, mode="special values, shapes")
    for i, s in enumerate(scal):
        if s is None:
            continue
        ctx.ok(bool(skip[i] or same(i, s, [c[i] for c in r])), f"{what}: element {[c[i] for c in r]}, scalar {s} for {[v[i] for v in args]}", rep,
               key=f"{f} special scalar", fn=f.path, mode="special values, scalar")


def one(ctx, f, ell, deg, rng, n):
    kw = {**f.kw, **table.time_kw(f)}
    if f.deg:
        kw["deg"] = deg
    if f.ell:
        kw["ell"] = ell.obj()
    args = f.generate(rng, n, ell)
    if not deg:
        args = f.to_rad(args)
    na = len(args)
    # reference: one call per element with Python floats
    ref, okidx = [], []
    api = instr.api(f.path)
    for i in range(n):
        with np.errstate(all="ignore"):
            try:
                r = flatten(api(*[float(v[i]) for v in args], **kw))
            except Exception as e:  # noqa: BLE001
                ctx.violation(f"{f} raised {type(e).__name__}: {e} for {[float(v[i]) for v in args]} deg={deg} ell={ell}",
                              {"function": f.path, "args": [float(v[i]) for v in args], "kwargs": str(kw)}, key=f"{f} raise")
                return
        for x in r:
            if np.ndim(x) != 0:
                ctx.violation(f"{f}: scalar arguments give a result of shape {np.shape(x)}: {r}",
                              {"function": f.path, "args": [float(v[i]) for v in args], "kwargs": str(kw)}, key=f"{f} scalar shape")
                return
        ref.append([float(x) for x in r])
    ref = [np.array(c) for c in zip(*ref)]
    ctx.count(f.path, "scalar", n)

    def judge(label, got, a, want, idx=None):
        v = f.compare(a, want, got, ell, deg)
        rep = {"function": f.path, "mode": label, "kwargs": str(kw), "ell": ell.spec()}
        ctx._tally(f.path, label, a, got, v, rep, label, ell if f.ell else None, {**f.kw, "deg": deg})

    def attempt(label, shaped, shape, flat, want):
        before = [v.copy() if isinstance(v, np.ndarray) else v for v in shaped]
        try:
            got = execute(f, shaped, kw, shape)
        except Exception as e:  # noqa: BLE001
            ctx.count(f.path, label)
            ctx.violation(f"{f} [{label}] deg={deg}: {type(e).__name__}: {str(e)[:160]} (argument shapes {[np.shape(v) for v in shaped]})",
                          {"function": f.path, "mode": label, "args": [np.asarray(v).tolist() for v in before], "kwargs": str(kw)},
                          key=f"{f} {label.split(' ')[0]}")
            return
        judge(label, got, flat, want)

    A = lambda: [v.copy() for v in args]  # noqa: E731
    attempt("1-D", A(), (n,), args, ref)
    attempt("2-D", [v.reshape(4, 6) for v in A()], (4, 6), args, ref)
    attempt("2-D strided Fortran", [np.repeat(np.asfortranarray(v.reshape(4, 6)), 2, axis=1)[:, ::2] for v in A()], (4, 6), args, ref)
    attempt("2-D Fortran", [np.asfortranarray(v.reshape(4, 6)) for v in A()], (4, 6), args, ref)
    if na > 1:
        attempt("2-D Fortran among others", [np.asfortranarray(v.reshape(4, 6)) if k % 2 else v.reshape(4, 6) for k, v in enumerate(A())], (4, 6), args, ref)
    attempt("backwards", [v[::-1].copy()[::-1] for v in A()], (n,), args, ref)
    if rng.random() < .3:
        attempt("3-D permuted", [v.reshape(2, 3, 4).transpose(2, 0, 1).copy().transpose(1, 2, 0) for v in A()], (2, 3, 4), args, ref)
        attempt("3-D", [v.reshape(2, 3, 4) for v in A()], (2, 3, 4), args, ref)
    attempt("one element", [v[:1].copy() for v in args], (1,), [v[:1] for v in args], [c[:1] for c in ref])
    attempt("1x1", [v[:1].copy().reshape(1, 1) for v in args], (1, 1), [v[:1] for v in args], [c[:1] for c in ref])
    for shape in ((1, n), (n, 1), (1, 4, 6), (4, 1, 6)):
        if rng.random() < .5:
            attempt(f"axes of length one {shape}", [v.reshape(shape) for v in A()], shape, args, ref)
    r = A()
    for v in r:
        v.setflags(write=False)
    attempt("read-only", r, (n,), args, ref)
    attempt("other byte order", [v.astype(">f8") for v in args], (n,), args, ref)
    # scalars among arrays
    if na > 1:
        masks = [1 << int(rng.integers(0, na)), (1 << na) - 1 - (1 << int(rng.integers(0, na))), int(rng.integers(1, (1 << na) - 1))]
        for m in masks:
            i = int(rng.integers(0, n))
            flat = [np.full(n, v[i]) if m >> k & 1 else v for k, v in enumerate(args)]
            if "near" in f.args or "nvnear" in f.args or "nv" in f.args or f.path.endswith("euler"):
                # mixing the arguments of different elements may leave the domain: coincident or antipodal points
                continue
            if f.args[0] in ("ecef", "eci") and np.min(np.sqrt(sum(v**2 for v in flat[:3]))) < 0.1 * ell.a:
                continue  # near the centre directions are undefined
            shaped = [float(v[i]) if m >> k & 1 else v.copy() for k, v in enumerate(args)]
            want = []
            try:
                for j in range(n):
                    with np.errstate(all="ignore"):
                        want.append([float(x) for x in flatten(api(*[float(v[j]) for v in flat], **kw))])
            except ValueError:
                continue
            want = [np.array(c) for c in zip(*want)]
            attempt(f"mixed with scalars {m:0{na}b}", shaped, (n,), flat, want)
    # NaN in some elements leaves the others alone
    k = int(rng.integers(0, na)) if na else 0
    if na:
        bad = A()
        hit = rng.random(n) < .3
        hit[0], hit[1] = True, False
        bad[k][hit] = np.nan
        try:
            got = execute(f, bad, kw, (n,))
        except Exception as e:  # noqa: BLE001
            ctx.count(f.path, "NaN among")
            ctx.violation(f"{f} [NaN in argument {k}]: {type(e).__name__}: {e}", {"function": f.path, "args": [v.tolist() for v in bad],
                          "kwargs": str(kw)}, key=f"{f} nan")
        else:
            keep = ~hit
            judge("NaN among", [g[keep] for g in got], [v[keep] for v in args], [c[keep] for c in ref])
    # integers
    if deg and not any(t in ("nv", "nvnear", "frac", "num1", "near") for t in f.args) and na:
        whole = [np.round(np.clip(v, -2**31 + 1, 2**31 - 1)) for v in args]
        want = []
        try:
            for j in range(n):
                with np.errstate(all="ignore"):
                    want.append([float(x) for x in flatten(api(*[float(v[j]) for v in whole], **kw))])
        except ValueError:
            want = None
        if want:
            want = [np.array(c) for c in zip(*want)]
            attempt("int64", [v.astype(np.int64) for v in whole], (n,), whole, want)
            attempt("int32", [v.astype(np.int32) for v in whole], (n,), whole, want)
            attempt("int among floats", [v.astype(np.int64) if q % 2 else v.copy() for q, v in enumerate(whole)], (n,), whole, want)
        # unsigned: nothing may wrap around below zero
        whole = [np.abs(v) for v in whole]
        want = []
        try:
            for j in range(n):
                with np.errstate(all="ignore"):
                    want.append([float(x) for x in flatten(api(*[float(v[j]) for v in whole], **kw))])
        except ValueError:
            want = None
        if want:
            want = [np.array(c) for c in zip(*want)]
            attempt("uint64", [v.astype(np.uint64) for v in whole], (n,), whole, want)
            attempt("uint32", [v.astype(np.uint32) for v in whole], (n,), whole, want)
            q = int(rng.integers(0, na))
            attempt("unsigned among floats", [v.astype(np.uint64) if p == q else v.copy() for p, v in enumerate(whole)], (n,), whole, want)


def collections(ctx, rng):
    """functions of a collection: the same elements in another container"""
    for _ in range(ctx.n(20, 300)):
        n = int(rng.integers(2, 12))
        v = rng.normal(size=(3, n))
        v /= np.sqrt((v**2).sum(0))
        if np.linalg.norm(v.mean(1)) > 1e-3:
            r1 = instr.call("nvector_mean", *[c.copy() for c in v])
            r2 = instr.call("nvector_mean", *[list(map(float, c)) for c in v])
            ctx.ok(np.allclose(r1, r2, rtol=0, atol=1e-14), f"nvector_mean of arrays {r1} and of lists {r2}", {"args": v.tolist()},
                   key="nvector_mean", fn="nvector_mean", mode="list")
            p = rng.permutation(n)
            r3 = instr.call("nvector_mean", *[c[p].copy() for c in v])
            ctx.ok(np.allclose(r1, r3, rtol=0, atol=1e-13), f"nvector_mean depends on the order: {r1} {r3}", {"args": v.tolist()},
                   key="nvector_mean order", fn="nvector_mean", mode="order")
