"""Plant a bug: tools/plant.py ID PROPERTY SPEC.py

SPEC.py defines EDITS = [(file, old, new)], NEEDS, BREAKS and DEMO (python text
of demo.py, exits non-zero when the property is broken). The change is made in a
scratch copy of /repo, which is tested and removed; the result is seeded/ID/.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SH = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
export NUMBA_CACHE_DIR="$scratch/numba" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export MPLCONFIGDIR="$scratch/mpl" SCRATCH="$scratch" PYTHONPATH="$PWD" OMP_NUM_THREADS=1
timeout 250 /opt/venv/bin/python "$here/demo.py"
"""


def demo(repo, d):
    return subprocess.run(
        ["bash", os.path.join(d, "demo.sh")], cwd=repo, capture_output=True, text=True
    )


def main():
    ident, prop, spec = sys.argv[1:4]
    ns = {}
    exec(open(spec).read(), ns)
    work = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    repo = os.path.join(work, "repo")
    try:
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=repo, check=True)
        d = os.path.join(work, ident)
        os.mkdir(d)
        with open(os.path.join(d, "demo.py"), "w") as f:
            f.write(ns["DEMO"])
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write(SH)
        r = demo(repo, d)
        print("unchanged: exit", r.returncode, r.stdout[-300:], r.stderr[-600:] if r.returncode else "")
        if r.returncode:
            sys.exit("demo fails on the unchanged tree")
        for fn, old, new in ns["EDITS"]:
            p = os.path.join(repo, fn)
            t = open(p).read()
            if t.count(old) != 1:
                sys.exit("%s: %d matches of %r" % (fn, t.count(old), old))
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True).stdout
        with open(os.path.join(d, "patch.diff"), "w") as f:
            f.write(diff)
        r = demo(repo, d)
        print("changed: exit", r.returncode, r.stdout[-400:], r.stderr[-300:])
        if r.returncode == 0:
            sys.exit("demo passes with the change")
        env = dict(os.environ, NUMBA_CACHE_DIR=os.path.join(work, "nb"), MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        r = subprocess.run(
            ["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider",
             "pydsge/tests/test_estimation.py", "pydsge/tests/test_parser.py"],
            cwd=repo, env=dict(env, PYTHONPATH=repo), capture_output=True, text=True)
        print("tests:", r.stdout.strip().splitlines()[-1])
        if r.returncode:
            sys.exit("tests fail with the change")
        json.dump({"property": prop, "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        out = os.path.join(HERE, "seeded", ident)
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        print("kept as", out)
    finally:
        shutil.rmtree(work, ignore_errors=True)


main()
