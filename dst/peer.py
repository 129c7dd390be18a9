"""A second process under another hash seed that executes the same case from its choice stream.

`Peer(seed).call("dst.checks.c07", "job", choices)` -> result of job(Ctx(choices)), or the exception text.
"""

from __future__ import annotations

import importlib
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Peer:
    def __init__(self, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        self.p = subprocess.Popen([sys.executable, "-m", "dst.peer"], cwd=HERE, env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, bufsize=1)

    def call(self, module, func, choices):
        self.p.stdin.write(json.dumps([module, func, choices]) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("peer process died")
        return json.loads(line)


def main():
    out = os.fdopen(os.dup(1), "w", buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    from dst.core import Ctx

    for line in sys.stdin:
        module, func, choices = json.loads(line)
        ctx = Ctx(choices=choices)
        try:
            res = getattr(importlib.import_module(module), func)(ctx)
        except BaseException as e:  # noqa: BLE001
            res = ["peer-exception", f"{type(e).__name__}: {e}"]
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
