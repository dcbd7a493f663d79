"""
Seeded search: scenario execution, worker processes, minimisation, replay
files, known findings and evidence.  One plan (a JSON document) is one exactly
repeatable execution; one seed gives one plan.
"""
import collections
import copy
import hashlib
import importlib
import json
import os
import random
import select
import shutil
import signal
import subprocess
import sys
import time
import traceback

from sim import boot

HERE = boot.HERE
SCENARIO_TIMEOUT = 150  # real seconds; a scenario takes well under 5


class Violation(Exception):
    def __init__(self, kind, msg, **info):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg
        self.info = info


class HarnessError(Exception):
    pass


class _Stuck(BaseException):
    pass


class Ctx:
    def __init__(self, wdir, tier="quick", keep_log=False):
        self.dir = wdir
        self.tier = tier
        self.stats = collections.Counter()
        self.distinct = set()
        self.sites = set()
        self.log = []
        self.sample = None
        self.nontrivial = False

    def note(self, line):
        self.log.append(line)

    def digest(self):
        h = hashlib.sha256()
        for line in self.log:
            h.update(line.encode("utf-8", "replace"))
            h.update(b"\n")
        return h.hexdigest()[:16]

    def seen(self, *parts):
        self.distinct.add(hashlib.sha1(repr(parts).encode()).hexdigest()[:12])

    def fault_fired(self, fired):
        for f in fired:
            self.stats[f"fault:{f['kind']}"] += 1
            p = f["path"].rsplit("/", 1)[-1]
            site = "part" if p.startswith("part.") else ("dir" if f["op"] in ("mkdir", "rmdir", "scandir", "listdir") else p)
            self.sites.add(f"{f['kind']}@{f['op']}:{site}")


def module(prop):
    return importlib.import_module(PROPS[prop])


PROPS = {}


def _load_props():
    for fn in sorted(os.listdir(os.path.join(HERE, "sim"))):
        if fn.startswith("p_") and fn.endswith(".py"):
            pid = fn[2:-3].upper()
            PROPS[pid] = f"sim.{fn[:-3]}"


_load_props()


def seed_int(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big")


def make_plan(prop, base_seed, i, tier):
    rng = random.Random(seed_int(prop, base_seed, i))
    plan = module(prop).gen(rng, i, tier)
    plan["prop"] = prop
    plan["seed"] = [base_seed, i]
    return json.loads(json.dumps(plan))


_uid = 0


def execute(prop, plan, tier="quick"):
    """
    Run one plan. Returns dict(status= ok|violation|harness, ...).
    """
    global _uid
    from sim import fsim, sched

    _uid += 1
    wdir = os.path.join(boot.scratch_root(), f"r{os.getpid()}-{_uid}")
    os.makedirs(wdir)
    ctx = Ctx(wdir, tier)
    fsim.reset(wdir)
    sched.reset(None)
    boot.reboot()

    def on_alarm(_s, _f):
        raise _Stuck()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(SCENARIO_TIMEOUT)
    res = {"status": "ok"}
    try:
        module(prop).run(plan, ctx)
    except Violation as v:
        res = {"status": "violation", "kind": v.kind, "msg": v.msg, "info": v.info}
    except _Stuck:
        res = {"status": "violation", "kind": "no-progress", "msg": f"scenario did not end within {SCENARIO_TIMEOUT} s", "info": {}}
    except (Exception, fsim.SimCrash):
        res = {"status": "harness", "kind": "harness-error", "msg": traceback.format_exc(), "info": {}}
    finally:
        signal.alarm(0)
        fsim.reset(None)
        sched.reset(None)
        boot.reboot()
        shutil.rmtree(wdir, ignore_errors=True)
    if res["status"] == "violation":
        ctx.note(f"VIOLATION {res['kind']}")
    res["digest"] = ctx.digest()
    res["ctx"] = ctx
    return res


# --------------------------------------------------------------------------- #
# Minimisation.
# --------------------------------------------------------------------------- #
def minimise(prop, plan, kind, budget_s=75.0, tier="quick"):
    mod = module(prop)
    shrink = getattr(mod, "shrink", None)
    t0 = time.time()
    best = plan
    tried = 0
    if shrink is None:
        return best, tried
    progress = True
    while progress and time.time() - t0 < budget_s:
        progress = False
        for cand in shrink(copy.deepcopy(best)):
            if time.time() - t0 > budget_s:
                break
            cand = json.loads(json.dumps(cand))
            if cand == best:
                continue
            tried += 1
            try:
                r = execute(prop, cand, tier)
            except Exception:
                continue
            if r["status"] == "violation" and r["kind"] == kind:
                best = cand
                progress = True
                break
    return best, tried


def shrink_list(lst, min_len=0):
    """Smaller versions of a list: drop halves, quarters, ..., single items."""
    n = len(lst)
    size = n // 2
    while size >= 1:
        for s in range(0, n, size):
            cand = lst[:s] + lst[s + size:]
            if len(cand) >= min_len and len(cand) < n:
                yield cand
        size //= 2


# --------------------------------------------------------------------------- #
# Known findings.
# --------------------------------------------------------------------------- #
def known_file():
    return os.path.join(HERE, "known_findings.json")


def load_known(prop):
    try:
        with open(known_file()) as f:
            d = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in d.get("findings", []) if k["property"] == prop]


def match_known(prop, res, known):
    for k in known:
        if k["kind"] == res["kind"] and all(res["info"].get(a) == b for a, b in k.get("match", {}).items()):
            return k
    return None


# --------------------------------------------------------------------------- #
# Workers.
# --------------------------------------------------------------------------- #
def _worker(prop, base_seed, tier, w, n_workers, n_runs, deadline, wfd, stop_r, known):
    out = os.fdopen(wfd, "w", buffering=1)
    stats = collections.Counter()
    distinct = set()
    sites = set()
    samples = []
    digests = {}
    nontrivial = 0
    done = 0
    limit = n_runs
    t0 = time.time()
    known_hits = {}
    for i in range(w, n_runs, n_workers):
        r, _, _ = select.select([stop_r], [], [], 0)
        if r or i > limit or time.time() > deadline:
            break
        out.write(json.dumps({"t": "start", "i": i}) + "\n")
        try:
            plan = make_plan(prop, base_seed, i, tier)
        except Exception:
            out.write(json.dumps({"t": "harness", "i": i, "msg": traceback.format_exc()}) + "\n")
            break
        res = execute(prop, plan, tier)
        ctx = res["ctx"]
        done += 1
        stats.update(ctx.stats)
        distinct |= ctx.distinct
        sites |= ctx.sites
        nontrivial += bool(ctx.nontrivial)
        digests[i] = res["digest"]
        if ctx.sample is not None and len(samples) < 1:
            samples.append({"seed": [base_seed, i], "scenario": ctx.sample})
        if res["status"] == "harness":
            out.write(json.dumps({"t": "harness", "i": i, "msg": res["msg"]}) + "\n")
            break
        if res["status"] == "violation":
            k = match_known(prop, res, known)
            if k is not None:
                known_hits[k["id"]] = known_hits.get(k["id"], 0) + 1
                continue
            out.write(json.dumps({"t": "violation", "i": i, "plan": plan, "kind": res["kind"], "msg": res["msg"][:4000], "digest": res["digest"]}) + "\n")
            break
    out.write(json.dumps({
        "t": "end", "w": w, "done": done, "stats": stats, "distinct": sorted(distinct), "sites": sorted(sites),
        "samples": samples, "digests": digests, "nontrivial": nontrivial, "wall": time.time() - t0, "known": known_hits,
    }) + "\n")
    out.close()


def search(prop, base_seed, tier, n_runs, n_workers, time_cap):
    boot.load()
    module(prop)
    known = load_known(prop)
    # Readers for the stop signal: closing 'stop_w' makes 'stop_r' readable.
    stop_r, stop_w = os.pipe()
    deadline = time.time() + time_cap
    procs = {}
    for w in range(n_workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(stop_w)
                os.close(r)
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 2)
                _worker(prop, base_seed, tier, w, n_workers, n_runs, deadline, wr, stop_r, known)
            except BaseException:
                code = 70
                try:
                    os.write(wr, (json.dumps({"t": "harness", "i": -1, "msg": traceback.format_exc()}) + "\n").encode())
                except OSError:
                    pass
            finally:
                os._exit(code)
        os.close(wr)
        procs[r] = {"pid": pid, "buf": b"", "w": w, "last": None, "ended": False, "since": None, "stuck": False}
    agg = {"done": 0, "stats": collections.Counter(), "distinct": set(), "sites": set(), "samples": [],
           "digests": {}, "nontrivial": 0, "violations": [], "harness": [], "known": collections.Counter()}
    live = set(procs)
    stopped = False
    while live:
        rs, _, _ = select.select(list(live), [], [], 1.0)
        for p in procs.values():
            if not p["ended"] and p["since"] and time.time() - p["since"] > SCENARIO_TIMEOUT + 30:
                # Stuck where no signal handler is run.
                p["stuck"], p["since"] = True, None
                os.kill(p["pid"], signal.SIGKILL)
        for r in rs:
            p = procs[r]
            data = os.read(r, 1 << 16)
            if not data:
                live.discard(r)
                os.close(r)
                p["since"] = None
                _, status = os.waitpid(p["pid"], 0)
                if not p["ended"] and status != 0:
                    sig = os.waitstatus_to_exitcode(status)
                    if p["stuck"]:
                        agg["violations"].append({"i": p["last"], "plan": make_plan(prop, base_seed, p["last"], tier), "kind": "no-progress",
                                                  "msg": f"scenario did not end within {SCENARIO_TIMEOUT} s", "digest": None})
                    elif p["last"] is not None and sig < 0:
                        agg["violations"].append({"i": p["last"], "plan": make_plan(prop, base_seed, p["last"], tier),
                                                  "kind": "process-died", "msg": f"the process running the scenario was ended by signal {-sig}", "digest": None})
                    else:
                        agg["harness"].append({"i": p["last"], "msg": f"worker ended with {sig}"})
                continue
            p["buf"] += data
            *lines, p["buf"] = p["buf"].split(b"\n")
            for line in lines:
                m = json.loads(line)
                if m["t"] == "start":
                    p["last"], p["since"] = m["i"], time.time()
                elif m["t"] == "violation":
                    agg["violations"].append(m)
                elif m["t"] == "harness":
                    agg["harness"].append(m)
                elif m["t"] == "end":
                    p["ended"] = True
                    agg["done"] += m["done"]
                    agg["stats"].update(m["stats"])
                    agg["distinct"] |= set(m["distinct"])
                    agg["sites"] |= set(m["sites"])
                    agg["samples"] += m["samples"]
                    agg["digests"].update({int(k): v for k, v in m["digests"].items()})
                    agg["nontrivial"] += m["nontrivial"]
                    agg["known"].update(m["known"])
        if (agg["violations"] or agg["harness"]) and not stopped:
            stopped = True
            os.close(stop_w)
    if not stopped:
        os.close(stop_w)
    os.close(stop_r)
    return agg


def in_child(fn, timeout):
    """Run fn() in a forked child; returns its JSON-able result or None."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 2)
            out = json.dumps(fn()).encode()
            with os.fdopen(w, "wb") as f:
                f.write(out)
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    t0 = time.time()
    while True:
        rs, _, _ = select.select([r], [], [], max(0.1, timeout - (time.time() - t0)))
        if not rs:
            os.kill(pid, signal.SIGKILL)
            break
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf += d
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return json.loads(buf)
    except ValueError:
        return None


def replay(path):
    """Re-run a replay file in this (fresh) process. Returns the result."""
    with open(path) as f:
        rep = json.load(f)
    boot.load()
    res = execute(rep["property"], rep["plan"], rep.get("tier", "quick"))
    return rep, res


def report_violation(prop, base_seed, tier, agg):
    v = min(agg["violations"], key=lambda m: m["i"])
    plan, kind, msg = v["plan"], v["kind"], v["msg"]
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f"{prop}-{base_seed}-{v['i']}.json")

    def write(plan, msg, digest, tried, minimised):
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": [base_seed, v["i"]], "kind": kind, "message": msg,
                       "digest": digest, "minimised": minimised, "candidates_tried": tried, "plan": plan,
                       "replay_with": f"cd /verif && python3 check.py {prop} --replay {path}"}, f, indent=1)

    def confirm():
        cmd = [sys.executable, os.path.join(HERE, "check.py"), prop, "--replay", path]
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=200)
        except subprocess.TimeoutExpired:
            return kind in ("no-progress", "process-died")
        if kind == "process-died":
            return p.returncode < 0 or p.returncode > 2
        return f"REPRODUCED property={prop} kind={kind}" in p.stdout

    if kind not in ("process-died", "no-progress"):
        def job():
            start = plan
            r0 = execute(prop, plan, tier)
            if r0["status"] == "violation" and r0["info"].get("patch"):
                cand = json.loads(json.dumps({**plan, **r0["info"]["patch"]}))
                r1 = execute(prop, cand, tier)
                if r1["status"] == "violation" and r1["kind"] == kind:
                    start = cand
            best, tried = minimise(prop, start, kind, tier=tier)
            r = execute(prop, best, tier)
            return {"plan": best, "tried": tried, "msg": r.get("msg", ""), "digest": r["digest"], "ok": r["status"] == "violation" and r["kind"] == kind}

        m = in_child(job, 200)
        if m and m["ok"]:
            write(m["plan"], m["msg"][:4000], m["digest"], m["tried"], True)
            if confirm():
                return path, m["msg"]
    write(plan, msg, v["digest"], 0, False)
    if confirm():
        return path, msg
    return None, msg
