#!/opt/venv/bin/python
"""Entry point: check.py C01 --tier quick|thorough   |   check.py --replay FILE   |   check.py --digests C01 N WORKERS"""

import argparse
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def jit_wanted(prop):
    # These checks need the compiled kernels; the others run the same kernel source as plain Python
    # (numba start-up costs about 15 s per process and buys nothing on small states).
    return prop in {"C10", "C04"}


def environment(prop, tier):
    env = dict(os.environ)
    env.update(
        LANG="C.UTF-8", LC_ALL="C.UTF-8", SETUPTOOLS_SCM_PRETEND_VERSION="0.3.5",
        PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent-pycache",
        MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
        NUMBA_NUM_THREADS="4" if prop == "C10" else "1",
        PYTHONPATH=HERE + os.pathsep + "/repo",
    )
    env.setdefault("PYTHONHASHSEED_FORCED", "0")
    env["PYTHONHASHSEED"] = env["PYTHONHASHSEED_FORCED"]
    if os.path.isdir("/opt/venv/mplconfig"):
        env["MPLCONFIGDIR"] = "/opt/venv/mplconfig"
    if not jit_wanted(prop) and tier != "jit":
        env["NUMBA_DISABLE_JIT"] = "1"
    else:
        env.pop("NUMBA_DISABLE_JIT", None)
    env["DST_CHILD"] = "1"
    return env


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--cap", type=float)
    ap.add_argument("--digests", nargs=2, type=int, metavar=("N", "WORKERS"))
    args = ap.parse_args()
    prop = args.prop
    if args.replay:
        prop = json.load(open(args.replay))["property"]
        args.replay = os.path.abspath(args.replay)
    if os.environ.get("DST_CHILD") != "1":
        if not os.path.exists("/repo/graphix/_version.py"):
            import subprocess
            subprocess.run([PY, "-m", "setuptools_scm", "--force-write-version-files"], cwd="/repo",
                           env=environment(prop, args.tier), stdout=subprocess.DEVNULL, check=False)
        os.chdir(HERE)
        os.execve(PY, [PY, os.path.join(HERE, "check.py"), *sys.argv[1:]], environment(prop, args.tier))
    sys.path.insert(0, HERE)
    sys.setswitchinterval(1000.0)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    import warnings
    warnings.simplefilter("ignore")
    from dst import runner

    if args.replay:
        return runner.replay_file(args.replay)
    if args.digests:
        n, w = args.digests
        d = runner.digests(prop, args.seed, list(range(n)), w)
        print(json.dumps({str(k): d[k] for k in sorted(d)}))
        return 0
    return runner.run_property(prop, args.tier, args.seed, workers=args.workers, runs=args.runs, cap_s=args.cap)


if __name__ == "__main__":
    sys.exit(main())
