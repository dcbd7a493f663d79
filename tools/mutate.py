#!/usr/bin/env python3
"""
mutate.py list|tests|checks: mutants of /repo/oups, which of them the tests let through,
and which of these the checks catch. Working files are kept in /tmp/mut.
"""
import ast, hashlib, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

OUT = "/tmp/mut"
BASE = f"{OUT}/base"  # Copy of /repo.
PY = "/opt/venv/bin/python"
FILES = ["oups/store/collection.py", "oups/store/router.py", "oups/store/utils.py", "oups/store/writer.py", "oups/store/indexer.py",
         "oups/aggstream/aggstream.py", "oups/aggstream/cumsegagg.py", "oups/aggstream/segmentby.py", "oups/aggstream/jcumsegagg.py",
         "oups/aggstream/utils.py"]
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.FloorDiv: "*"}
SWAP = {"min": "max", "max": "min", "left": "right", "right": "left", "first": "last", "last": "first", "append": "insert0"}


def mutants(path, src):
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln) + 1)

    def pos(n):
        def p(l, c):
            return offs[l - 1] + len(lines[l - 1].encode()[:c].decode())
        return p(n.lineno, n.col_offset), p(n.end_lineno, n.end_col_offset)

    def seg(n):
        a, z = pos(n)
        return src[a:z]

    out = []

    def rep(n, new, kind):
        a, z = pos(n)
        if src[a:z] != new:
            out.append({"file": path, "line": n.lineno, "a": a, "z": z, "old": src[a:z], "new": new, "kind": kind})

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                skip.update(id(x) for x in ast.walk(n.body[0]))
            for d in getattr(n, "decorator_list", []):
                skip.update(id(x) for x in ast.walk(d))
            if isinstance(n, ast.FunctionDef):
                for x in [n.returns] + [a.annotation for a in n.args.args]:
                    if x is not None:
                        skip.update(id(y) for y in ast.walk(x))
        if isinstance(n, ast.If) and all(isinstance(x, ast.Raise) for x in n.body) and not n.orelse:
            # Validation of parameters.
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, (ast.Raise, ast.JoinedStr, ast.Import, ast.ImportFrom)):
            skip.update(id(x) for x in ast.walk(n))
    in_func = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            in_func.update(id(x) for x in ast.walk(n))
    for n in ast.walk(tree):
        if id(n) in skip or id(n) not in in_func:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            rep(n, f"{seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])}", "cmp")
        if isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, "(" + op.join(f"({seg(v)})" for v in n.values) + ")", "bool")
            for i in range(len(n.values)):
                o = " and " if isinstance(n.op, ast.And) else " or "
                rest = [v for j, v in enumerate(n.values) if j != i]
                rep(n, "(" + o.join(f"({seg(v)})" for v in rest) + ")", "drop-operand")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, f"({seg(n.operand)})", "not")
        if isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                rep(n, str(not n.value), "const")
            elif isinstance(n.value, int):
                rep(n, str(n.value + 1), "const")
                if n.value:
                    rep(n, str(n.value - 1), "const")
            elif isinstance(n.value, str) and n.value in SWAP:
                rep(n, repr(SWAP[n.value]), "str")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            rep(n, f"{seg(n.left)} {BIN[type(n.op)]} {seg(n.right)}", "binop")
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            rep(n.test, "False", "cond")
            if not isinstance(n, ast.While):
                rep(n.test, "True", "cond")
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in SWAP:
                rep(n.func, SWAP[n.func.id], "call")
            if isinstance(n.func, ast.Name) and n.func.id in ("list", "dict", "sorted", "deepcopy", "copy") and len(n.args) == 1 and not n.keywords:
                rep(n, f"({seg(n.args[0])})", "uncopy")
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy",):
                rep(n, seg(n.func.value), "uncopy")
            if len(n.keywords) > 0 and all(k.arg for k in n.keywords):
                for k in n.keywords:
                    parts = [seg(x) for x in n.args] + [seg(x) for x in n.keywords if x is not k]
                    rep(n, f"{seg(n.func)}({', '.join(parts)})", "drop-kw")
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)):
            rep(n, "pass", "del-stmt")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            s = n.slice
            lo, hi = (seg(s.lower) if s.lower else ""), (seg(s.upper) if s.upper else "")
            if lo:
                rep(s, f":{hi}", "slice")
            if hi:
                rep(s, f"{lo}:", "slice")
        if isinstance(n, ast.With):
            pass
    res = []
    for m in out:
        new = src[:m["a"]] + m["new"] + src[m["z"]:]
        try:
            compile(new, path, "exec")
        except Exception:
            continue
        m["id"] = hashlib.sha1(f"{path}{m['a']}{m['z']}{m['new']}".encode()).hexdigest()[:8]
        res.append(m)
    return res


def read(p):
    b = open(p, newline="").read()
    return b.replace("\r\n", "\n"), "\r\n" in b


def apply(m, repo):
    src, crlf = read(f"{BASE}/{m['file']}")
    assert src[m["a"]:m["z"]] == m["old"], m
    new = src[:m["a"]] + m["new"] + src[m["z"]:]
    open(f"{repo}/{m['file']}", "w", newline="").write(new.replace("\n", "\r\n") if crlf else new)


def restore(m, repo):
    shutil.copyfile(f"{BASE}/{m['file']}", f"{repo}/{m['file']}")


def load(name):
    p = f"{OUT}/{name}.jsonl"
    return [json.loads(x) for x in open(p)] if os.path.exists(p) else []


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return b


def run_tests(m, repo):
    w = tempfile.mkdtemp(dir=OUT)
    env = dict(os.environ, HOME="/root", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC", NUMBA_NUM_THREADS="2", PYTHONPATH=repo)
    t = "tests/test_aggstream/test_"
    sub = ["tests/test_store", "--deselect", "tests/test_store/test_indexer.py::test_toplevel_nested_dataclass_attributes"] if "/store/" in m["file"] else {
        "aggstream.py": [t + "aggstream_simple.py", t + "aggstream_init.py", t + "aggstream_advanced.py"],
        "cumsegagg.py": [t + "cumsegagg.py", t + "cumsegagg_restart.py", t + "aggstream_simple.py", t + "aggstream_advanced.py"],
        "segmentby.py": [t + "segmentby.py", t + "segmentby_restart.py", t + "cumsegagg.py", t + "cumsegagg_restart.py", t + "aggstream_simple.py", t + "aggstream_advanced.py"],
        "jcumsegagg.py": [t + "jcumsegagg.py", t + "cumsegagg.py", t + "cumsegagg_restart.py", t + "aggstream_simple.py"],
        "utils.py": [t + "aggstream_advanced.py", t + "aggstream_init.py"]}[os.path.basename(m["file"])]
    try:
        r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "no:xdist", "--timeout=120", f"--basetemp={w}/pytest", *sub],
                           cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        return r.returncode, r.stdout[-300:]
    except subprocess.TimeoutExpired:
        return 99, "timeout"
    finally:
        shutil.rmtree(w, ignore_errors=True)


def pool_run(todo, fn, n, name):
    import queue
    repos = queue.Queue()
    for i in range(n):
        r = f"{OUT}/repo{name}{i}"
        shutil.rmtree(r, ignore_errors=True)
        subprocess.run(["cp", "-a", BASE, r], check=True)
        repos.put(r)

    def one(m):
        r = repos.get()
        try:
            apply(m, r)
            res = dict(m, **fn(m, r))
            with open(f"{OUT}/{name}.jsonl", "a") as f:
                f.write(json.dumps(res) + "\n")
        finally:
            restore(m, r)
            repos.put(r)

    with ThreadPoolExecutor(n) as ex:
        list(ex.map(one, todo))


CHECKS = {"oups/store/collection.py": "S05 S04 S07 A05 S03", "oups/store/router.py": "S06 S07 S01", "oups/store/utils.py": "S05", "oups/store/indexer.py": "S05",
          "oups/store/writer.py": "S01 S02 S08 S06 S07 S09 S03 S04 A08",
          "oups/aggstream/aggstream.py": "A01 A02 A07 A06 A04 A08 A03 A05", "oups/aggstream/cumsegagg.py": "C01 A01 A02", "oups/aggstream/segmentby.py": "C01 A02 A01",
          "oups/aggstream/jcumsegagg.py": "C01 A01", "oups/aggstream/utils.py": "A06 A01"}


def dull(m):
    """Pure functions out of scope, parameters that only tune."""
    return (m["file"].endswith("store/utils.py") and m["line"] > 95) or (m["kind"] == "drop-kw" and "write(" in m["old"].split("\n")[0]) or (m["old"] == "False" and "write_fmd" in m.get("ctx", ""))


def run_checks(m, repo):
    got = {}
    checks = CHECKS[m["file"]]
    if m["file"].endswith("writer.py"):
        checks = next(c for top, c in ((110, "S01"), (230, "S02 S08"), (310, "S01"), (385, "S07 S03"), (611, "S01 S02 S08"), (683, "S01 S02 S06 S03"), (999, "S01 S06 S03 S04")) if m["line"] < top)
    for p in checks.split():
        env = dict(os.environ, OUPS_SIM_REPO=repo)
        try:
            r = subprocess.run(["python3", "/verif/check.py", p, "--tier", "quick", "--workers", "4", "--cap", os.environ.get("CAP", "40"), "--no-evidence"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1200)
            rc, tail = r.returncode, r.stdout[-300:]
        except subprocess.TimeoutExpired:
            rc, tail = 99, ""
        got[p] = rc
        if rc:
            return {"checks": got, "tail": tail}
    return {"checks": got}


if __name__ == "__main__":
    os.makedirs(OUT, exist_ok=True)
    if sys.argv[1] == "list":
        ms = []
        for f in FILES:
            x = mutants(f, read(f"{BASE}/{f}")[0])
            print(f, len(x))
            ms += x
        random.Random(1).shuffle(ms)
        ms.sort(key=lambda m: ("/store/" not in m["file"], "indexer" in m["file"]))
        with open(f"{OUT}/list.jsonl", "w") as fh:
            for m in ms:
                fh.write(json.dumps(m) + "\n")
    elif sys.argv[1] == "tests":
        done = {m["id"] for m in load("tests")}
        ms = [m for m in load("list") if m["id"] not in done]
        pool_run(ms, lambda m, r: dict(zip(("rc", "out"), run_tests(m, r))), int(sys.argv[2]), "tests")
    elif sys.argv[1] == "checks":
        done = {m["id"] for m in load("checks")}
        ms = [m for m in load("tests") if m["rc"] == 0 and m["id"] not in done and not dull(m)]
        pool_run(ms, run_checks, int(sys.argv[2]), "checks")
