"""C26 The command line gives what the library gives."""
import contextlib
import datetime as D
import importlib
import inspect
import io
import json
import math
import os
import subprocess
import sys
import warnings
from concurrent.futures import ThreadPoolExecutor

import numpy as np

from .. import gen, instr, table
from ..catalogue import AXES
from ..core import Ell
from ..workers import PY


def text_of(rng, x):
    """a number the way people type it -> (text, value)"""
    x = float(x)
    k = int(rng.integers(0, 6))
    if k == 0:
        s = f"{x:.0f}"
    elif k == 1:
        s = f"{x:.3f}"
    elif k == 2:
        s = f"{x:.12f}"
    elif k == 3 and math.copysign(1, x) > 0:
        s = f"{x:.5e}"
    elif k == 4 and math.copysign(1, x) > 0:
        s = f"+{x:.4f}"
    else:
        s = repr(x)
    if s.startswith("-") and ("e" in s or "." not in s):
        s = f"{x:.10f}"
    return s, float(s)


def jsonable(v):
    if isinstance(v, (tuple, list)):
        return [jsonable(x) for x in v]
    if isinstance(v, D.datetime):
        return v.isoformat()
    if hasattr(v, "tolist"):
        return jsonable(v.tolist()) if isinstance(v.tolist(), list) else v.tolist()
    return v


def equal(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    a, b = float(a), float(b)
    return a == b or (math.isnan(a) and math.isnan(b))


def run_main(argv):
    """main() with this command line -> (exit code, stdout, exception text)"""
    main = importlib.import_module("pymap3d.__main__").main
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv
    sys.argv = ["pymap3d", *argv]
    code, exc = 0, ""
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), np.errstate(all="ignore"):
            r = main()
            code = 0 if r is None else r
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        exc = "SystemExit"
    except Exception as e:  # noqa: BLE001 - a traceback: exit 1
        code, exc = 1, f"{type(e).__name__}: {e}"
    finally:
        sys.argv = old
    return code, out.getvalue(), exc or err.getvalue()


class Case:
    def __init__(self, name, argv, expect, ell, output, precision):
        self.name, self.argv, self.expect, self.ell, self.output, self.precision = name, argv, expect, ell, output, precision


def commands(pm):
    out = []
    for n in sorted(pm.__all__):
        o = getattr(pm, n, None)
        if callable(o) and not inspect.isclass(o):
            out.append(n)
    return out


def make_case(ctx, rng, name, fns, arrays=False, output=None):
    """(argv, call) for one command; call is (args, kwargs) of the library"""
    names = list(AXES)
    ellname = None if rng.random() < .3 else str(rng.choice(names))
    output = output or str(rng.choice(["json", "text", "default"]))
    precision = int(rng.integers(0, 13)) if output != "json" and rng.random() < .6 else None
    head = []
    if ellname:
        head += ["--ellipsoid", ellname] if rng.random() < .7 else [f"--ellipsoid={ellname}"]
    if output != "default":
        head += ["--output", output]
    if precision is not None:
        head += ["--precision", str(precision)]
    if rng.random() < .5 and len(head) == 6:
        head = head[4:] + head[:4]
    e = Ell(name=ellname or "wgs84")
    t = D.datetime(1995, 1, 1) + D.timedelta(seconds=int(rng.integers(0, 9e8)), microseconds=int(rng.choice([0, 0, 250000, 123457])))
    ttext = t.isoformat() if rng.random() < .7 else t.isoformat(sep=" ")
    opts, kw = [], {}
    if name == "str2dt":
        return head + [name, ttext], ([t], {}), ellname, output, precision, False
    if name == "datetime2sidereal":
        s, v = text_of(rng, rng.uniform(-6, 6))
        pos, args = [ttext, s], [t, v]
        flags = {"force_non_astropy": bool, "delta_ut1": float}
        hasell = False
    elif name == "nvector_mean":
        # reading order decides: lists of components; the first must not look like an option
        a = np.abs(np.round(rng.uniform(-1, 1, (3, 4)), 6))
        pos, args = [",".join(repr(float(x)) for x in r) for r in a], [[float(x) for x in r] for r in a]
        flags, hasell = {}, False
    else:
        f = fns[int(rng.integers(0, len(fns)))]
        n = 1 if not arrays else 3
        vals = f.generate(rng, n, e, tame=True)
        deg = True
        if f.deg and rng.random() < .4:
            deg = False
            vals = f.to_rad(vals)
        pos, args = [], []
        for v in vals:
            if arrays:
                tv = [text_of(rng, abs(x)) for x in v]
                pos.append(("," if rng.random() < .5 else ", ").join(s for s, _ in tv))
                args.append([q for _, q in tv])
            else:
                s, q = text_of(rng, v[0])
                pos.append(s)
                args.append(q)
        if name == "nvector2ecef":  # the height has a default, so it is an option
            opts.append("--alt=" + pos.pop())
            kw["alt"] = args.pop()
        if f.time:
            pos.append(ttext)
            args.append(t)
            # the time goes where the signature has it: after the coordinates
        hasell = f.ell
        flags = {}
        if f.deg:
            if not deg:
                opts.append("--no-deg")
                kw["deg"] = False
            elif rng.random() < .2:
                opts.append("--deg")
        for key, v in f.kw.items():
            flags[key] = v
        if f.path in ("geodetic2eci", "eci2geodetic", "aer.aer2eci", "aer.eci2aer"):
            flags.update(delta_ut1=float, xp=float, yp=float)
        if name in ("azel2radec", "radec2azel"):
            flags = {"force_non_astropy": bool, "delta_ut1": float}
        elif name in ("eci2ecef", "ecef2eci", "eci2ecef_state", "ecef2eci_state"):
            flags = {"force_non_astropy": bool, "delta_ut1": float, "xp": float, "yp": float}
        if "att" in f.args:
            flags = {**flags, "sequence": "seq"}
        if name in ("ecef2body", "body2ecef", "geodetic2body", "body2geodetic", "ecef2bodyv", "body2ecefv"):
            flags["frame"] = "frame"
    for key, kind in flags.items():
        o = "--" + key.replace("_", "-")
        if kind is bool:
            c = int(rng.integers(0, 3))
            if c == 0:
                opts.append(o)
                kw[key] = True
            elif c == 1:
                opts.append("--no-" + o[2:])
        elif kind is float:
            if rng.random() < .6:
                s, v = text_of(rng, round(float(rng.uniform(-.6, .6)), 4))
                opts += [f"{o}={s}"] if rng.random() < .5 else [o, s]
                kw[key] = v
        elif kind == "seq":
            v = str(rng.choice(["zyx"] * 9 + ["xyz"]))
            if rng.random() < .5:
                opts += [o, v]
                kw[key] = v
        elif kind == "frame":
            v = str(rng.choice(["enu", "ned", "nwu", "sez"]))
            if rng.random() < .6:
                opts += [o, v]
                kw[key] = v
        elif isinstance(kind, bool):
            if kind:
                opts.append(o)
                kw[key] = True
        elif isinstance(kind, float):
            opts += [o, repr(kind)]
            kw[key] = kind
        else:
            opts += [o, str(kind)]
            kw[key] = kind
    tail = opts + pos if rng.random() < .4 else pos + opts
    return head + [name] + tail, (args, kw), ellname, output, precision, hasell


def judge(ctx, argv, name, out, want, output, precision, mode):
    """stdout against the library's value"""
    rep = {"argv": argv, "stdout": out[:500], "library": str(want)[:500]}
    j = jsonable(want)
    if output == "json":
        try:
            got = json.loads(out)
        except ValueError:
            ctx.violation(f"[{mode}] {' '.join(argv)}: output is not JSON: {out[:200]!r}", rep, key=f"{name} json")
            return
        good = equal(got, j)
    else:
        flat = j if isinstance(j, list) else [j]
        if any(isinstance(v, list) for v in flat) or np.ndim(want) and hasattr(want, "tolist"):
            ctx.stats["text of nested results not judged"] += 1
            return
        if isinstance(j, str):
            try:
                good = D.datetime.fromisoformat(out.strip()) == D.datetime.fromisoformat(j)
            except ValueError:
                good = False
        else:
            tok = out.split()
            good = len(tok) == len(flat)
            for s, v in zip(tok, flat):
                try:
                    if precision is None:
                        good = good and equal(float(s), v)
                    elif isinstance(v, float):
                        good = good and s == f"{v:.{precision}f}"
                    else:
                        good = good and float(s) == v
                except ValueError:
                    good = False
    ctx.ok(good, f"[{mode}] pymap3d {' '.join(argv)} prints {out.strip()[:300]!r}, the library gives {str(want)[:300]}", rep, key=f"{name} {output}",
           fn=name, mode=mode)


def library(name, args, kw, ellname, hasell):
    k = dict(kw)
    if hasell:
        k["ell"] = instr.api("ellipsoid.Ellipsoid").from_name(ellname or "wgs84")
    with np.errstate(all="ignore"):
        return instr.call(name, *args, **k)


def run(ctx):
    warnings.simplefilter("ignore")
    ctx.rule = ("every command, its options, every ellipsoid, text/JSON/precision, numbers typed in several forms, comma lists; main() in process and "
                "'python -m pymap3d' in both installations; standard output parsed and compared with the library's result for the same float arguments; "
                "mistakes must end with a non-zero status and nothing on standard output")
    rng = ctx.rng
    pm = instr.load(instrument=False)
    table_fns = {}
    for f in table.build():
        table_fns.setdefault(f.path.split(".")[-1], []).append(f)
    cmds = commands(pm)
    ctx.stats["commands"] = len(cmds)
    todo = []
    for rep in range(ctx.n(2, 25)):
        for name in cmds:
            fns = table_fns.get(name)
            if fns is None and name not in ("str2dt", "datetime2sidereal", "nvector_mean"):
                ctx.stats["commands without a workload"] += 1
                continue
            arrays = bool(rng.random() < .15) and fns is not None and not any(f.time for f in fns) and fns[0].arr
            c = make_case(ctx, rng, name, fns, arrays)
            one(ctx, c, name, arrays)
            if rep == 0:
                todo.append((name, make_case(ctx, rng, name, fns)))
    subprocesses(ctx, rng, todo)
    mistakes(ctx, rng, cmds)


def one(ctx, c, name, arrays):
    argv, (args, kw), ellname, output, precision, hasell = c
    ctx.distinct.add(tuple(argv))
    try:
        want = library(name, args, kw, ellname, hasell)
    except Exception as e:  # noqa: BLE001
        want = e
    code, out, err = run_main(argv)
    mode = "main" if not arrays else "main lists"
    if isinstance(want, Exception):
        ctx.ok(code != 0 and not out.strip(), f"pymap3d {' '.join(argv)}: the library raises {want!r}, the command prints {out!r} with status {code}", {"argv": argv},
               key=f"{name} error", fn=name, mode=mode)
        return
    if code != 0:
        ctx.count(name, mode)
        ctx.violation(f"pymap3d {' '.join(argv)} fails with {code} {err[-300:]}; the library gives {str(want)[:200]}", {"argv": argv}, key=f"{name} fails")
        return
    if len(ctx.samples) < 6:
        ctx.samples.append({"argv": argv, "stdout": out[:200]})
    judge(ctx, argv, name, out, want, "text" if output == "default" else output, precision, mode)


def launch(py, argv):
    env = dict(os.environ, PYTHONPATH=instr.REPO_SRC, PYTHONWARNINGS="ignore")
    p = subprocess.run([py, "-m", "pymap3d", *argv], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=120,
                       cwd=os.environ.get("VMON_SCRATCH", "/tmp"))
    return p.returncode, p.stdout.decode(), p.stderr.decode(errors="replace")


def subprocesses(ctx, rng, todo):
    k = min(len(todo), ctx.n(24, 123))
    pick = [todo[i] for i in rng.permutation(len(todo))[:k]]
    jobs = [("full", n, c) for n, c in pick[: k // 2 if ctx.tier == "quick" else k]] + [("stdlib", n, c) for n, c in pick]
    jobs = [j for j in jobs if not (j[0] == "stdlib" and j[1] == "meanm")]
    with ThreadPoolExecutor(6) as ex:
        res = list(ex.map(lambda j: launch(PY["stdlib" if j[0] == "stdlib" else "fresh"], j[2][0]), jobs))
    for (mode, name, c), (code, out, err) in zip(jobs, res):
        argv, (args, kw), ellname, output, precision, hasell = c
        if mode == "stdlib":
            ek = {"ell": {"ell": "name", "name": ellname or "wgs84"}} if hasell else {}
            path = next((f.path for f in table.build() if f.path.split(".")[-1] == name), name)
            if name in ("str2dt", "datetime2sidereal"):
                path = ("timeconv." if name == "str2dt" else "sidereal.") + name
            st, want = ctx.worker("stdlib").run([(path, args, kw, ek)])[0]
            if st != "ok":
                ctx.ok(code != 0 and not out.strip(), f"[{mode}] pymap3d {' '.join(argv)}: library {want}, the command prints {out!r} with status {code}",
                       {"argv": argv}, key=f"{name} error", fn=name, mode="process " + mode)
                continue
        else:
            try:
                want = library(name, args, kw, ellname, hasell)
            except Exception as e:  # noqa: BLE001
                ctx.ok(code != 0 and not out.strip(), f"[{mode}] pymap3d {' '.join(argv)}: library {e!r}, the command prints {out!r} with status {code}",
                       {"argv": argv}, key=f"{name} error", fn=name, mode="process " + mode)
                continue
        if code != 0:
            ctx.count(name, "process " + mode)
            ctx.violation(f"[{mode}] python -m pymap3d {' '.join(argv)} ends with {code}: {err[-400:]}", {"argv": argv}, key=f"{name} process")
            continue
        judge(ctx, argv, name, out, want, "text" if output == "default" else output, precision, "process " + mode)


def mistakes(ctx, rng, cmds):
    bad = [[], ["nosuchcommand"], ["Ellipsoid", "1", "1"], ["geodetic2ecef"], ["geodetic2ecef", "1", "2"], ["geodetic2ecef", "1", "2", "3", "4"],
           ["--ellipsoid", "flat", "geodetic2ecef", "1", "2", "3"], ["--output", "xml", "geodetic2ecef", "1", "2", "3"],
           ["--precision", "many", "geodetic2ecef", "1", "2", "3"], ["geodetic2ecef", "one", "2", "3"], ["geodetic2ecef", "1", "2", "3", "--no-such"],
           ["geodetic2eci", "1", "2", "3", "yesterday"], ["ned2body", "1", "2", "3", "4", "5", "6", "--sequence", "abc"],
           ["body2ecef", "1", "2", "3", "4", "5", "6", "7", "8", "9", "--frame", "abc"], ["lookAtSpheroid", "1", "2", "-5", "3", "4"]]
    for argv in bad:
        if len(argv) > 1 and argv[0] == "lookAtSpheroid" and "lookAtSpheroid" not in cmds:
            continue
        code, out, err = run_main(argv)
        ctx.ok(code != 0 and not out.strip(), f"pymap3d {' '.join(argv)}: status {code}, output {out[:200]!r}", {"argv": argv}, key="mistake", fn="mistake",
               mode="main")
    # usage is a success
    code, out, err = run_main(["-h"])
    ctx.ok(code == 0 and all(c in out for c in ("geodetic2ecef", "ecef2geodetic")), f"-h: status {code}", key="help", fn="help", mode="main")
    for name in cmds:
        code, out, err = run_main([name, "--help"])
        ctx.ok(code == 0 and name in out, f"{name} --help: status {code} {err[-200:]}", {"argv": [name, "--help"]}, key="help", fn="help", mode="main")
