#!/usr/bin/env python3
"""
plant.py ID... [--tests] [--checks P,P] [--tier quick]

Build /verif/seeded/ID from tools/bugs/ID.py (EDITS, META, DEMO), in a scratch
copy of /repo, and confirm it: demo passes without and fails with the change,
patch applies, stable tests pass (--tests), and which checks catch it.
"""
import json, os, shutil, subprocess, sys, tempfile, textwrap, argparse

V = "/verif"
PY = "/opt/venv/bin/python"
PRELUDE = '''\
import os, sys, shutil, tempfile, warnings
warnings.filterwarnings("ignore")
sys.path.insert(0, os.getcwd())
import numpy as np
import pandas as pd
from pandas import DataFrame, Timestamp, Timedelta
import oups
assert os.path.realpath(oups.__file__).startswith(os.path.realpath(os.getcwd())), oups.__file__
from oups import ParquetSet, toplevel


@toplevel
class Indexer:
    name: str


TMP = tempfile.mkdtemp()


def T(m):
    return Timestamp("2020-01-01 08:00") + Timedelta(minutes=m)


def fail(*a):
    print("BROKEN:", *a)
    shutil.rmtree(TMP, ignore_errors=True)
    sys.exit(1)


'''
EPILOGUE = '''
shutil.rmtree(TMP, ignore_errors=True)
print("ok")
'''
SH = '''#!/bin/bash
# cwd is the repository; exit 0 when the property holds on this scenario.
here="$(cd "$(dirname "$0")" && pwd)"
export NUMBA_CACHE_DIR="$(mktemp -d)" PYTHONDONTWRITEBYTECODE=1
PYTHONPATH="$PWD" timeout 250 /opt/venv/bin/python "$here/demo.py"
rc=$?
rm -rf "$NUMBA_CACHE_DIR"
exit $rc
'''


def edit(p, pairs):
    b = open(p, newline="").read()
    crlf = "\r\n" in b
    s = b.replace("\r\n", "\n")
    for old, new in pairs:
        assert s.count(old) == 1, (p, s.count(old), old)
        s = s.replace(old, new)
    open(p, "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def stable_missing(repo):
    w = tempfile.mkdtemp()
    env = dict(os.environ, HOME="/root", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC",
               NUMBA_CACHE_DIR=w + "/numba", NUMBA_NUM_THREADS="2", PYTHONPATH=repo)
    r = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "4", "--timeout=300",
         f"--basetemp={w}/pytest", "-o", "junit_family=xunit2", f"--junitxml={w}/junit.xml", "tests"],
        cwd=repo, env=env)
    run(["python3", "/opt/vp/results.py", f"{w}/o.json", f"junit:{w}/junit.xml"])
    o = json.load(open(f"{w}/o.json"))
    b = json.load(open("/opt/vp/BASELINE.json"))
    shutil.rmtree(w)
    return [t for t in b["stable"] if t not in set(o["passed"])]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="+")
    ap.add_argument("--tests", action="store_true")
    ap.add_argument("--checks", default="")
    ap.add_argument("--seed", default="1")
    a = ap.parse_args()
    for i in a.ids:
        ns = {}
        exec(open(f"{V}/tools/bugs/{i}.py").read(), ns)
        d = f"{V}/seeded/{i}"
        os.makedirs(d, exist_ok=True)
        open(f"{d}/demo.py", "w").write(PRELUDE + ns["DEMO"].lstrip("\n") + EPILOGUE)
        open(f"{d}/demo.sh", "w").write(SH)
        os.chmod(f"{d}/demo.sh", 0o755)
        meta = dict(ns["META"])
        mf = f"{d}/meta.json"
        if os.path.exists(mf):
            old = json.load(open(mf))
            if "caught" in old:
                meta["caught"] = old["caught"]
        copy = f"/tmp/plant-{i}"
        shutil.rmtree(copy, ignore_errors=True)
        run(["cp", "-a", "/repo", copy], check=True)
        run(["git", "checkout", "-q", "--", "."], cwd=copy, check=True)
        msg = [i]
        r = run(["bash", f"{d}/demo.sh"], cwd=copy)
        msg.append("demo clean rc=%d" % r.returncode)
        if r.returncode:
            print(i, r.stdout[-1500:])
        for f, pairs in ns["EDITS"].items():
            edit(f"{copy}/{f}", pairs)
        p = subprocess.run(["git", "diff", "--no-color"], cwd=copy, stdout=subprocess.PIPE, check=True).stdout
        open(f"{d}/patch.diff", "wb").write(p)
        chk = run(["git", "-C", "/repo", "apply", "--check", f"{d}/patch.diff"])
        msg.append("apply rc=%d" % chk.returncode)
        r2 = run(["bash", f"{d}/demo.sh"], cwd=copy)
        msg.append("demo patched rc=%d" % r2.returncode + " " + (r2.stdout.strip().splitlines() or [""])[-1][:150])
        if a.tests:
            m = stable_missing(copy)
            msg.append("tests missing %d %s" % (len(m), m[:3]))
        caught = dict(meta.get("caught", {})) if isinstance(meta.get("caught"), dict) else {}
        for c in [x for x in a.checks.split(",") if x]:
            c = meta["property"] if c == "own" else c
            env = dict(os.environ, OUPS_SIM_REPO=copy, VERIF_SEED=a.seed)
            r3 = run(["python3", f"{V}/check.py", c, "--no-evidence"], cwd=V, env=env)
            v = [l for l in r3.stdout.splitlines() if l.startswith("VIOLATION") or "run=" in l or "seed" in l]
            msg.append(f"{c} rc={r3.returncode}")
            caught[c] = r3.returncode
            open(f"/tmp/plant-{i}.{c}.log", "w").write(r3.stdout)
        meta["caught"] = caught
        json.dump(meta, open(mf, "w"), indent=1)
        print(" | ".join(msg), flush=True)
        shutil.rmtree(copy, ignore_errors=True)


main()
