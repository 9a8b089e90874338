"""Repeat what a replay file records: first the single call, if it is one, then the whole check."""
import json
import os
import subprocess

import numpy as np

from . import instr


def main(argv):
    d = json.load(open(argv[0]))
    print(d.get("what"))
    if isinstance(d.get("args"), list) and isinstance(d.get("kwargs", {}), dict) and "function" in d:
        instr.load()
        kw = dict(d.get("kwargs", {}))
        if isinstance(d.get("ell"), dict):
            kw["ell"] = instr.make_ell(d["ell"])
        try:
            with np.errstate(all="ignore"):
                a = [np.asarray(v) if isinstance(v, list) else v for v in d["args"]]
                print("this call now:", d["function"], d["args"], "->", instr.call(d["function"], *a, **kw))
        except Exception as e:  # noqa: BLE001
            print("this call now:", d["function"], d["args"], "->", type(e).__name__, e)
    env = {**os.environ, "VERIF_SEED": str(d["seed"]), "VERIF_TIER": d["tier"]}
    return subprocess.run(["/bin/bash", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "run.sh"),
                           d["property"], d["tier"]], env=env).returncode
