"""Writes and validates the planted changes in /verif/seeded.
usage: seeds.py [id...]      (development tool only; no check uses it)"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SRC = "src/megatron/energon/"
BASE = "868cd7d"
SEEDS = {}


def S(id, prop, edits, demo, needs, breaks, lib=True):
    SEEDS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, lib=lib)


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def build(id, tests=True):
    s = SEEDS[id]
    d = f"{ROOT}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        os.remove(f"{d}/{f}")
    w = f"/tmp/seed-{id}"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    try:
        for f, old, new in s["edits"]:
            p = f"{w}/{SRC}{f}"
            t = open(p).read()
            if t.count(old) != 1:
                return f"edit matches {t.count(old)} times in {f}"
            # changed lines must be the original ones
            orig = sh(f"git -C {w} show {BASE}:{SRC}{f}").stdout
            import difflib

            for op, a0, a1, b0, b1 in difflib.SequenceMatcher(None, old.split("\n"), new.split("\n"), autojunk=False).get_opcodes():
                if op in ("replace", "delete"):
                    for l in old.split("\n")[a0:a1]:
                        if l.strip() and l not in orig.split("\n"):
                            print(f"  warning {id}: not an original line: {l!r}")
            open(p, "w").write(t.replace(old, new))
        open(f"{d}/patch.diff", "w").write(sh(f"git -C {w} diff").stdout)
        demo = s["demo"].strip() + "\n"
        if s["lib"]:
            shutil.copy(f"{HERE}/demo_lib.py", f"{d}/demo_lib.py")
            demo = "from demo_lib import *  # noqa\n\n" + demo
        open(f"{d}/demo.py", "w").write(demo)
        open(f"{d}/demo.sh", "w").write('#!/bin/bash\n# run with cwd /repo\nD=$(cd "$(dirname "$0")" && pwd)\nexport HOME=${HOME:-/root} LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src:$D" OMP_NUM_THREADS=1\nexec timeout 250 /opt/venv/bin/python "$D/demo.py"\n')
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
        a = sh(f"bash {d}/demo.sh", cwd="/repo")
        b = sh(f"bash {d}/demo.sh", cwd=w)
        if a.returncode != 0:
            return f"demo fails on the unchanged tree: {a.stdout[-500:]} {a.stderr[-1500:]}"
        if b.returncode == 0:
            return "demo passes with the patch"
        if "FAIL:" not in b.stdout:
            print(f"  note {id}: fails with {b.stderr[-300:]}")
        if tests:
            t = sh("PYTHONPATH=src timeout 600 /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests/test_crudedataset.py tests/test_epathlib.py tests/test_transforms.py", cwd=w)
            if t.returncode != 0:
                return "tests: " + t.stdout[-800:]
        for p in os.listdir(d):
            if p.startswith("__py"):
                shutil.rmtree(f"{d}/{p}")
        return "ok"
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    import glob

    for f in sorted(glob.glob(f"{HERE}/seeds_*.py")):
        exec(open(f).read(), dict(S=S))
    ids = sys.argv[1:] or list(SEEDS)
    from concurrent.futures import ThreadPoolExecutor

    with ThreadPoolExecutor(4) as ex:
        for i, r in zip(ids, ex.map(build, ids)):
            print(i, r, flush=True)


if __name__ == "__main__":
    main()
