#!/usr/bin/env python3
"""
check.py <property> [--tier quick|thorough] [--runs N] [--seed S] [--workers W]
check.py <property> --replay FILE
check.py <property> --digests          (determinism: prints seed -> event-log digest)
"""
import argparse
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import boot  # noqa: E402

T0 = time.time()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--runs", type=int, default=None)
    ap.add_argument("--workers", type=int, default=None)
    ap.add_argument("--cap", type=float, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--digests", action="store_true")
    ap.add_argument("--one", type=int, default=None, help="run one seed in the foreground, verbose")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    boot.reexec()
    from sim import core

    prop = a.prop.upper()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)

    if a.replay:
        rep, res = core.replay(a.replay)
        if res["status"] == "harness":
            print("HARNESS-ERROR\n" + res["msg"])
            return 3
        if res["status"] == "violation":
            print(res["kind"] + ": " + res["msg"][:6000])
            same = "" if rep.get("digest") in (None, res["digest"]) else " (event log differs)"
            tag = "REPRODUCED" if res["kind"] == rep["kind"] else "DIFFERENT"
            print(f"{tag} property={prop} kind={res['kind']} digest={res['digest']}{same}")
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        print("NOT REPRODUCED")
        return 0

    if a.one is not None:
        boot.load()
        plan = core.make_plan(prop, seed, a.one, tier)
        print(json.dumps(plan)[:20000])
        res = core.execute(prop, plan, tier)
        print("\n".join(res["ctx"].log[-400:]))
        print(res["status"], res.get("kind"), res.get("msg"), res["digest"], dict(res["ctx"].stats))
        return 0

    boot.load()
    mod = core.module(prop)
    n_runs = a.runs or mod.RUNS[tier]
    workers = a.workers or min(8, os.cpu_count() or 1)
    cap = a.cap or {"quick": 420.0, "thorough": 3300.0}[tier]
    t_load = time.time() - T0
    agg = core.search(prop, seed, tier, n_runs, workers, cap)
    if a.digests:
        print(json.dumps({"digests": agg["digests"], "harness": agg["harness"], "violations": len(agg["violations"])}))
        return 0
    rc = 0
    replay_path = None
    if agg["violations"]:
        replay_path, msg = core.report_violation(prop, seed, tier, agg)
        if replay_path:
            print(msg[:3000])
            print(f"VIOLATION property={prop} replay={replay_path}")
            rc = 1
        else:
            print("HARNESS-ERROR: violation did not reproduce in a fresh process: " + msg[:3000])
            rc = 3
    elif agg["harness"]:
        print("HARNESS-ERROR " + json.dumps(agg["harness"][0])[:6000].replace("\\n", "\n"))
        rc = 3
    # Known findings: replay each listed history.
    for k in core.load_known(prop):
        res = core.in_child(lambda k=k: {x: core.execute(prop, k["plan"], "quick").get(x) for x in ("status", "kind")}, 200)
        if res and res["status"] == "violation" and res["kind"] == k["kind"]:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    wall = time.time() - T0
    search_s = max(wall - t_load, 1e-6)
    st = agg["stats"]
    faults = {k[6:]: v for k, v in sorted(st.items()) if k.startswith("fault:")}
    cov = {
        "evaluations": int(agg["done"]),
        "distinct_nontrivial": len(agg["distinct"]),
        "rule": mod.RULE,
        "samples": agg["samples"][:3] or [{"note": "no sample"}],
        "simulated_runs": int(agg["done"]),
        "runs_nontrivial": int(agg["nontrivial"]),
        "seeds_per_hour": round(agg["done"] / search_s * 3600),
        "faults_injected": faults,
        "fault_sites_reached": sorted(agg["sites"]),
        "counters": {k: v for k, v in sorted(st.items()) if not k.startswith("fault:")},
        "simulated_time": getattr(mod, "TIME_NOTE", "the code under test reads no clock and sets no timer; histories are measured in operations (see counters)"),
        "real_components": "oups (from /repo), fastparquet, pandas, numba, vaex, pyarrow, real files on a scratch directory",
        "stubbed_components": getattr(mod, "STUBS", "builtins.open / os.* file calls (event counting, fault injection, listing order); joblib.Parallel (simulated thread pool)"),
        "workers": workers,
        "import_s": round(t_load, 1),
        "known_findings_hit": dict(agg["known"]),
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(boot.HERE, "evidence"), exist_ok=True)
        ev = {"property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
              "assumptions": mod.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": 1 if rc == 1 else 0}
        tmp = os.path.join(boot.HERE, "evidence", f".{prop}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(boot.HERE, "evidence", f"{prop}.json"))
    print(f"{prop} {tier}: {agg['done']} runs, {len(agg['distinct'])} distinct, {sum(faults.values())} faults, {wall:.1f} s, rc={rc}")
    return rc


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
