"""development aid: write /verif/seeded/<id>/ from an edit description and confirm it in a
scratch copy (the demo passes on the unchanged tree and fails on the changed one).
   seed.py make SPEC.py     SPEC.py defines SEEDS = [dict(id, property, edits, demo, needs, breaks)]
   seed.py tests [ids]      apply every listed change to one scratch copy each and run the tests
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")

DEMO_SH = """#!/bin/bash
# run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES=-1
exec /opt/venv/bin/python "$here/demo.py"
"""


def scratch():
    d = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    r = os.path.join(d, "repo")
    subprocess.run(["cp", "-a", "/repo", r], check=True)
    return d, r


def edit(repo, edits):
    for f, old, new in edits:
        p = os.path.join(repo, "smote_variants", f)
        s = open(p, newline="").read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, "w", newline="").write(s.replace(old, new))


def demo(d, repo):
    return subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=repo, capture_output=True,
                          text=True, timeout=300)


def make(spec):
    sp = importlib.util.spec_from_file_location("spec", spec)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    for s in m.SEEDS:
        out = os.path.join(SEEDED, s["id"])
        tmp, repo = scratch()
        try:
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
            open(os.path.join(out, "demo.py"), "w").write(s["demo"].lstrip("\n"))
            a = demo(out, repo)
            edit(repo, s["edits"])
            diff = subprocess.run(["git", "diff", "--binary"], cwd=repo, capture_output=True).stdout
            open(os.path.join(out, "patch.diff"), "wb").write(diff)
            json.dump({"property": s["property"], "needs": s["needs"],
                       "what_it_breaks": s["breaks"]},
                      open(os.path.join(out, "meta.json"), "w"), indent=1)
            b = demo(out, repo)
            good = a.returncode == 0 and b.returncode != 0
            print(s["id"], "ok" if good else "NOT CONFIRMED", a.returncode, b.returncode,
                  b.stderr.strip().splitlines()[-1:] if good else a.stderr[-800:] + b.stdout[-300:])
            if not good:
                shutil.rmtree(out)
        finally:
            shutil.rmtree(tmp)


def tests(ids):
    """one scratch copy with all the listed changes that apply together"""
    base = set(json.load(open("/opt/vp/BASELINE.json"))["passed"]) \
        if "passed" in json.load(open("/opt/vp/BASELINE.json")) else None
    tmp, repo = scratch()
    try:
        done = []
        for i in ids:
            r = subprocess.run(["git", "apply", os.path.join(SEEDED, i, "patch.diff")], cwd=repo,
                               capture_output=True, text=True)
            if r.returncode == 0:
                done.append(i)
            else:
                print("skipped", i, r.stderr[:100])
        sh = open("/opt/vp/test.sh").read().replace("/repo", repo).replace(
            "/opt/vp/work", tmp + "/work")
        open(tmp + "/test.sh", "w").write(sh)
        env = {**os.environ, "PYTHONPATH": repo}
        r = subprocess.run(["bash", tmp + "/test.sh", tmp + "/out.json"], env=env,
                           capture_output=True, text=True)
        print(r.stdout[-1500:])
        o = json.load(open(tmp + "/out.json"))
        print({k: (len(v) if hasattr(v, "__len__") else v) for k, v in o.items()})
        print("failed", o.get("failed"))
        print("applied", done)
    finally:
        shutil.rmtree(tmp)


def caught(ids):
    """runs the property's check on a scratch copy of every seeded change"""
    from concurrent.futures import ThreadPoolExecutor

    def one(i):
        pid = json.load(open(os.path.join(SEEDED, i, "meta.json")))["property"]
        d = tempfile.mkdtemp(prefix="seed", dir="/tmp")
        try:
            shutil.copytree("/repo/smote_variants", d + "/smote_variants",
                            ignore=shutil.ignore_patterns("__pycache__"))
            r0 = subprocess.run(["git", "apply", "--unsafe-paths", "--directory", d,
                                 os.path.join(SEEDED, i, "patch.diff")], cwd="/",
                                capture_output=True, text=True)
            if r0.returncode:
                return i, pid, "apply " + r0.stderr[:200], ""
            r = subprocess.run([sys.executable, os.path.join(VERIF, "run.py"), pid],
                               env={**os.environ, "VERIF_REPO": d, "VERIF_SCRATCH": d},
                               capture_output=True, text=True)
            ls = [x for x in r.stdout.splitlines() if x.startswith("  ")]
            return i, pid, r.returncode, (ls or [""])[0].strip()[:200] + r.stderr[-200:]
        finally:
            shutil.rmtree(d)
    with ThreadPoolExecutor(2) as ex:
        for r in ex.map(one, ids):
            print(*r, flush=True)


if __name__ == "__main__":
    c = sys.argv[1]
    ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
    if c == "make":
        make(sys.argv[2])
    elif c == "tests":
        tests(ids)
    elif c == "caught":
        caught(ids)
