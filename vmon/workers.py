"""Processes that execute pymap3d calls in another configuration.

stdlib:    the venv without NumPy, astropy, pyproj
numpyonly: NumPy present, astropy hidden by an import hook
fresh:     full venv, a new process (used for history independence)
"""

from __future__ import annotations

import os
import pickle
import struct
import subprocess

PY = {"stdlib": "/opt/venv-stdlib/bin/python", "numpyonly": "/opt/venv/bin/python",
      "fresh": "/opt/venv/bin/python"}
HERE = os.path.dirname(os.path.abspath(__file__))


class WorkerDied(Exception):
    pass


class Worker:
    def __init__(self, kind, extra_env=None):
        self.kind = kind
        env = dict(os.environ)
        env.pop("PYTHONPATH", None)
        env.update(extra_env or {})
        self.p = subprocess.Popen([PY[kind], "-u", os.path.join(HERE, "worker_main.py"), kind],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)

    def _rpc(self, msg):
        data = pickle.dumps(msg, protocol=4)
        try:
            self.p.stdin.write(struct.pack(">Q", len(data)) + data)
            self.p.stdin.flush()
            head = self.p.stdout.read(8)
            if len(head) < 8:
                raise WorkerDied(f"{self.kind}: exit {self.p.wait()}")
            return pickle.loads(self.p.stdout.read(struct.unpack(">Q", head)[0]))
        except (BrokenPipeError, EOFError, pickle.UnpicklingError) as e:
            raise WorkerDied(f"{self.kind}: {e!r}")

    def run(self, calls):
        """calls: list of (path, args, kwargs, ellkw) -> list of ('ok', value) | ('exc', text)."""
        return self._rpc(("run", calls))

    def info(self):
        return self._rpc(("info", None))

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=5)
        except Exception:
            self.p.kill()
