#!/usr/bin/env python3
"""Run one check:  python3 check.py C01 [quick|thorough] [--replay FILE]

Builds the native extensions from /repo's current tree, then runs the check
module under glum's own interpreter with the Python sources of /repo/src."""
import importlib.util
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vlib import build  # noqa: E402


def main():
    args = sys.argv[1:]
    if not args:
        print(__doc__)
        return 2
    prop = args.pop(0).upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if args and args[0] in ("quick", "thorough"):
        tier = args.pop(0)
    seed = os.environ.get("VERIF_SEED", "1")
    mod = os.path.join(HERE, "checks", prop.lower() + ".py")
    if not os.path.exists(mod):
        print("no such check", prop)
        return 2
    env = dict(os.environ)
    for k in ("PYTHONPATH", "LD_PRELOAD"):
        env.pop(k, None)
    env.update(
        VERIF_TIER=tier, VERIF_SEED=seed, VERIF_DIR=HERE, VERIF_REPO=build.REPO,
        PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONWARNINGS="ignore",
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
        NUMEXPR_MAX_THREADS="1", NUMEXPR_NUM_THREADS="1", POLARS_MAX_THREADS="1",
        PYTHONPATH=":".join([os.path.join(HERE, "vlib/site"), HERE,
                             os.path.join(build.REPO, "src"), build.REPO]),
    )
    tmp_so = None
    try:
        variants = _variants(mod)
        if len(variants) > 2:       # compile the instrumented variants side by side
            from concurrent.futures import ThreadPoolExecutor
            with ThreadPoolExecutor(4) as ex:
                list(ex.map(build.build, [v for v in variants if v != "normal"]))
        for v in variants:
            if v == "normal":
                d = tmp_so = build.repo_so_dir()
                if d is None:
                    d = build.build("normal")
                env["GLUM_SO_DIR"] = d
            else:
                env["GLUM_SO_" + v.upper()] = build.build(v)
    except build.BuildError as e:
        print("BUILD FAILED (inconclusive):\n" + str(e))
        return 2
    try:
        p = subprocess.run([build.PY, "-m", "checks." + prop.lower(), *args],
                           cwd=HERE, env=env)
        rc = p.returncode
        return rc if rc in (0, 1) else (rc if rc > 0 else 2)
    finally:
        if tmp_so:
            shutil.rmtree(tmp_so, ignore_errors=True)


def _variants(path):
    """VARIANTS = [...] line of the check module (default: the normal build)."""
    for line in open(path):
        if line.startswith("VARIANTS"):
            ns = {}
            exec(line, ns)
            return ns["VARIANTS"]
    return ["normal"]


if __name__ == "__main__":
    sys.exit(main())
