"""Builds seeded/<id>/ from the entries of tools/seeds.py and confirms each.

usage: make_seeds.py [ID ...]      confirm in a scratch copy, write the folder
An entry is kept only if: the removed lines exist at the base commit, the patch
applies, the 56 stable tests pass with it, and the demonstration exits 0
without and nonzero with it.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import textwrap
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
BASE = "08bf098"
BASELINE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) \
    if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None
DEMO_SH = """#!/bin/bash
# run with cwd = the repository; exit 0: the property holds
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$d"' EXIT
mkdir "$d/home"
cd "$d" || exit 3
HOME=$d/home TMPDIR=$d PYTHONPATH=$here/shim:$repo PYTHONDONTWRITEBYTECODE=1 \\
CUDA_VISIBLE_DEVICES= PYTHONWARNINGS=ignore PYTHONHASHSEED=0 \\
    timeout 250 /opt/venv/bin/python "$here/demo.py" "$d"
"""
PRE = '''import os, sys
work = sys.argv[1]
import pythagoras as pth


def portal(name, **kw):
    return pth.SwarmingPortal(root_dict=os.path.join(work, name)
        , n_background_workers=0, **kw)


def check(cond, text):
    if not cond:
        print("BROKEN:", text)
        os._exit(1)


'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def stable(copy):
    t = copy + "/pythagoras/_000_tests"
    w = tempfile.mkdtemp(dir=os.path.dirname(copy))
    env = dict(os.environ, HOME=w, TMPDIR=w, PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0", PYTHONPATH=copy + ":/opt/vp/plugins",
               CUDA_VISIBLE_DEVICES="", OMP_NUM_THREADS="2")
    r = sh(f"cd {copy} && /opt/venv/bin/python -m pytest -q -p pth_warmup -p "
           f"no:cacheprovider -p no:xdist --timeout=120 --rootdir={t} "
           f"--confcutdir={t} --continue-on-collection-errors "
           f"--ignore={t}/_050_safe_functions/test_package_manager.py "
           f"--ignore={t}/_070_pure_functions/guards/"
           f"test_package_dependency_guards.py {t}", env=env)
    last = r.stdout.strip().splitlines()[-1]
    return last


def build(s, out):
    tmp = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        copy = tmp + "/repo"
        sh(f"git clone -q /repo {copy}")
        for f, old, new in s["edits"]:
            p = f"{copy}/pythagoras/{f}"
            text = open(p).read()
            if text.count(old) != 1:
                return f"old text occurs {text.count(old)} times in {f}"
            open(p, "w").write(text.replace(old, new))
        diff = sh(f"git -C {copy} diff").stdout
        # removed lines must stem from the original repository
        for f in {e[0] for e in s["edits"]}:
            bl = sh(f"git -C {copy} blame -s -l HEAD -- pythagoras/{f}"
                    ).stdout.splitlines()
            base = {l[l.index(")") + 1:].strip() for l in bl
                    if l.startswith("^")}
        removed = [l[1:].strip() for l in diff.splitlines()
                   if l.startswith("-") and not l.startswith("---")]
        alien = [l for l in removed if l and l not in base]
        if alien:
            return f"not original: {alien}"
        d = f"{out}/{s['id']}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO_SH)
        open(d + "/demo.py", "w").write(PRE + textwrap.dedent(s["demo"]
                                                              ).lstrip())
        shutil.copytree(HERE + "/shim", d + "/shim",
                        ignore=shutil.ignore_patterns("__pycache__"))
        json.dump(dict(property=s["property"], needs=s["needs"],
                       what_it_breaks=s["breaks"]),
                  open(d + "/meta.json", "w"), indent=1)
        bad = sh(f"cd {copy} && bash {d}/demo.sh")
        tests = stable(copy)
        sh(f"git -C {copy} checkout -q -- .")
        r = sh(f"git -C {copy} apply --check {d}/patch.diff")
        if r.returncode:
            return "does not apply: " + r.stderr
        good = sh(f"cd {copy} && bash {d}/demo.sh")
        if good.returncode:
            return "demo fails on the clean tree: " + good.stdout[-500:] \
                + good.stderr[-1500:]
        if not bad.returncode:
            return "demo passes with the patch"
        if not ("56 passed" in tests):
            return "tests: " + tests
        return ("ok  " + bad.stdout.strip()[-150:]
                + (" STDERR " + bad.stderr.strip()[-200:]
                   if "BROKEN" not in bad.stdout else "") + "  " + tests)
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    from seeds import SEEDS
    want = sys.argv[1:]
    todo = [s for s in SEEDS if not want or s["id"] in want]
    assert len({s["id"] for s in SEEDS}) == len(SEEDS)
    out = HERE + "/seeded"
    with ThreadPoolExecutor(6) as ex:
        for s, r in zip(todo, ex.map(lambda s: build(s, out), todo)):
            print(s["id"], ":", r, flush=True)
            if not r.startswith("ok"):
                shutil.rmtree(f"{out}/{s['id']}", ignore_errors=True)
