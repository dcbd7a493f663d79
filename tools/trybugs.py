#!/usr/bin/env python3
"""trybugs.py FILE [ID...]: for each candidate {id: (props, {file: [(old, new)]})} of FILE, run the stable tests and the checks on a scratch copy of /repo with the change."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

ns = {}
exec(open(sys.argv[1]).read(), ns)
C = {k: v for k, v in ns["C"].items() if not sys.argv[2:] or k in sys.argv[2:]}
BASE = json.load(open("/opt/vp/BASELINE.json"))


def one(item):
    i, (props, edits) = item
    d = f"/tmp/trybugs/{i}"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    for f, es in edits.items():
        s = open(f"{d}/{f}", newline="").read()
        crlf = "\r\n" in s
        s = s.replace("\r\n", "\n")
        for old, new in es:
            if s.count(old) != 1:
                print(i, "edit matches", s.count(old), "times:", old[:60])
                return
            s = s.replace(old, new)
        open(f"{d}/{f}", "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)
    env = {k: v for k, v in os.environ.items() if not k.startswith("VERIF")}
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--deselect", ns.get("DESELECT", "tests/test_store/test_indexer.py"), "tests"], cwd=d, env=dict(env, PYTHONPATH=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    bad = [l for l in r.stdout.splitlines() if l.startswith(("FAILED", "ERROR"))]
    bad = [l for l in bad if "test_toplevel_nested_dataclass_attributes" not in l]
    if bad:
        print(i, "TESTS", bad[0][:140], flush=True)
    else:
        for p in props.split():
            r = subprocess.run(["python3", "/verif/check.py", p, "--no-evidence", "--workers", "4", "--cap", "60"], env=dict(os.environ, OUPS_SIM_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print(i, "tests ok;", p, "rc", r.returncode, r.stdout.strip().splitlines()[-1][:120], flush=True)
            if r.returncode:
                break
    shutil.rmtree(d, ignore_errors=True)


os.makedirs("/tmp/trybugs", exist_ok=True)
with ThreadPoolExecutor(3) as ex:
    list(ex.map(one, C.items()))
