"""Development aid: build planted bugs from a description file and try the checks on them.

plant.py make SPEC.py [id...]   write seeded/<id>/, confirm tests pass, demo 0 on clean, nonzero with the patch
plant.py try [id...] [-t thorough] [-a]   run the check of the bug's property (-a: all checks) on a patched scratch copy
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(V, "seeded")


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ, **(env or {}))
    try:
        return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, "", "timeout")


def scratch(tag):
    d = tempfile.mkdtemp(prefix=f"plant-{tag}-", dir="/tmp")
    sh(f"git -C /repo archive HEAD | tar x -C {d} && cd {d} && git init -q && git add -A && git -c user.email=a@b -c user.name=x commit -qm base")
    return d


def tests(d):
    bad = []
    for py in ("/opt/venv/bin/python", "/opt/venv-stdlib/bin/python"):
        r = sh(f"{py} -m pytest -q -p no:cacheprovider -x --timeout=300 -rN", cwd=d,
               env={"PYTHONPATH": d + "/src", "PYTHONDONTWRITEBYTECODE": "1", "TZ": "UTC", "XDG_CONFIG_HOME": "/opt/vp/xdg/config", "XDG_CACHE_HOME": "/opt/vp/xdg/cache"})
        if r.returncode:
            bad.append(r.stdout[-1500:] + r.stderr[-500:])
    return bad


DEMO_SH = """#!/bin/bash
# exit 0 if the property holds for the case shown in demo.py
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" XDG_CONFIG_HOME=/opt/vp/xdg/config XDG_CACHE_HOME=/opt/vp/xdg/cache exec %s "$here/demo.py"
"""


def make(s):
    d = scratch(s["id"])
    try:
        for fn, old, new in s["edits"]:
            p = os.path.join(d, "src/pymap3d", fn)
            t = open(p).read()
            if t.count(old) != 1:
                return f"{s['id']}: {fn}: {t.count(old)} matches of {old[:80]!r}"
            open(p, "w").write(t.replace(old, new))
        out = os.path.join(SEEDED, s["id"])
        os.makedirs(out, exist_ok=True)
        diff = sh("git diff", cwd=d).stdout
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(s["demo"].lstrip())
        with open(os.path.join(out, "demo.sh"), "w") as f:
            f.write(DEMO_SH % s.get("py", "/opt/venv/bin/python"))
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        with open(os.path.join(out, "meta.json"), "w") as f:
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, f, indent=1)
            f.write("\n")
        msg = []
        bad = tests(d)
        if bad:
            msg.append("TESTS FAIL: " + bad[0][-1200:])
        r = sh(f"bash {out}/demo.sh", cwd=d, timeout=300)
        if r.returncode == 0:
            msg.append("demo does not fail with the patch: " + r.stdout[-300:])
        elif "AssertionError" not in r.stderr and "SystemExit" not in r.stderr:
            msg.append("demo fails oddly: " + r.stderr[-400:])
        r = sh(f"bash {out}/demo.sh", cwd="/repo", timeout=300)
        if r.returncode:
            msg.append("demo fails on clean: " + r.stderr[-500:])
        # blame: changed lines must be original ones
        removed = []
        cur, ln = None, 0
        for line in diff.splitlines():
            if line.startswith("--- a/"):
                cur = line[6:]
            elif line.startswith("@@"):
                ln = int(re.match(r"@@ -(\d+)", line).group(1))
            elif line.startswith("-"):
                removed.append((cur, ln))
                ln += 1
            elif line.startswith(" "):
                ln += 1
        for fn, ln in removed:
            b = sh(f"git -C /repo blame -s -L {ln},{ln} HEAD -- {fn}").stdout
            if not b.startswith("^"):
                msg.append(f"changes a line of mine: {b.strip()[:100]}")
        if not removed:
            msg.append("note: only adds lines")
        if msg:
            shutil.rmtree(out)  # only plants that count are kept
        return f"{s['id']}: " + ("; ".join(msg) if msg else "ok")
    finally:
        shutil.rmtree(d)


def attempt(sid, pids, tier):
    d = scratch("try" + sid)
    try:
        r = sh(f"git apply {SEEDED}/{sid}/patch.diff", cwd=d)
        if r.returncode:
            return f"{sid}: does not apply {r.stderr[:200]}"
        res = []
        own = json.load(open(f"{SEEDED}/{sid}/meta.json"))["property"]
        for pid in pids or [own]:
            w = tempfile.mkdtemp(prefix="plantv-", dir="/tmp")
            sh(f"cp -r {V}/vmon {V}/run.sh {V}/known_findings.jsonl {w}/")
            r = sh(f"./run.sh {pid} {tier}", cwd=w, env={"VMON_SRC": d + "/src", "VERIF_SEED": os.environ.get("VERIF_SEED", "1")}, timeout=1800)
            shutil.rmtree(w)
            if r.returncode == 1 and f"VIOLATION property={pid}" in r.stdout:
                res.append(pid + (" CAUGHT " if not pids else "") + ("" if pids else "".join(r.stdout.splitlines()[:1])[:160]))
            elif r.returncode:
                res.append(f"{pid} exit {r.returncode} {r.stderr[-300:]}")
            elif not pids:
                res.append(f"{pid} MISSED")
        return f"{sid} ({own}): " + "; ".join(res)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "make":
        ns = {}
        exec(open(a[1]).read(), ns)
        specs = [s for s in ns["BUGS"] if not a[2:] or s["id"] in a[2:]]
        with ThreadPoolExecutor(6) as ex:
            for m in ex.map(make, specs):
                print(m, flush=True)
    else:
        tier = "thorough" if "-t" in a else "quick"
        ids = [x for x in a[1:] if not x.startswith("-")] or sorted(os.listdir(SEEDED))
        pids = [f"C{i:02d}" for i in range(1, 29)] if "-a" in a else None
        with ThreadPoolExecutor(7) as ex:
            for m in ex.map(lambda i: attempt(i, pids, tier), ids):
                print(m, flush=True)
