"""A03 A crash while aggregating leads to an exact resume or an explicit refusal."""
import os

from sim import aggs, boot, fsim, sched, storef
from sim import aggw as a
from sim import storew as w
from sim.core import Violation, shrink_list

LEVEL = "exploration"
RUNS = {"quick": 170, "thorough": 9000}
RULE = ("one run = an aggregation history of 1-3 keys (bins, snapshots or both, filters, intermediate flushes); its last process life is re-run from "
        "the same store once per injected fault: crashes before/after/within seeded file operations (evenly spread over the whole life, plus "
        "torn writes and I/O errors at seeded positions), some with worker threads interleaved, some followed by a second fault while resuming or "
        "by a retry in the same process; after each, the stream is re-created and fed the whole seed with trim_start: it has to refuse with an "
        "exception or to end with the reference results for every key. Distinct = (history class, fault kind, file operation and file class hit, "
        "outcome); non-trivial = at least one fault fired")
ASSUMPTIONS = ["crash = process kill: completed system calls survive, user-space buffers are lost (no power loss, no fsync model)",
               "the seed is fed again from its first row after a crash", "faults inside C++ readers (vaex/pyarrow mmap) are not injected"]


def gen(rng, i, tier):
    plan = aggs.gen_plan(rng, snaps=False, filters=rng.random() < 0.25, mode="T", post=[None, None, "row"], sizes=(6, 10, 16, 24))
    for j, k in enumerate(plan["keys"]):
        if plan["on"] == "ts" and rng.random() < 0.45:
            f = k["f"]
            plan["keys"][j] = dict(aggs.gen_key(rng, j, True, "ts", False, k["post"]), f=f)
        if rng.random() < 0.5:
            plan["keys"][j]["mem"] = rng.choice([0, 0.0001, 0.0005])
    plan.pop("jit", 0)
    plan["parallel"] = 0
    plan["lives"] = plan["lives"][-rng.choice([1, 1, 2, 2, 3]):]
    plan["lives"][-1][-1]["to"] = len(plan["rows"])
    aggs.bound_size(plan, rows=80, files=15)
    plan["faults"] = [storef.gen_fault(rng) for _ in range(rng.choice([3, 4, 6]))]
    plan["sweep"] = rng.choice([4, 6, 8]) if tier == "quick" else 40
    plan["sweep_phase"] = round(rng.random(), 3)
    for f in plan["faults"]:
        x = rng.random()
        if x < 0.25:
            f["then"] = dict(storef.gen_fault(rng), frac=0.5)
        if not f["kind"].startswith("crash") and rng.random() < 0.5:
            f["same"] = 1
            if "then" not in f and rng.random() < 0.6:
                f["then"] = dict(storef.gen_fault(rng), frac=0.5)
    if rng.random() < 0.25:
        plan["sched"] = {"seed": rng.randrange(1 << 30), "p": rng.choice([0.0, 0.01, 0.2]), "p_end": 0.8}
        plan["parallel"] = 1
    plan["resume_cuts"] = sorted(rng.sample(range(1, len(plan["rows"])), min(len(plan["rows"]) - 1, rng.choice([0, 1, 3, 6]))))
    plan["order_seed"] = rng.randrange(1 << 30)
    return plan


def run(plan, ctx):
    a.set_jit(False)
    fsim.set_order(plan.get("order_seed"))
    df = a.seed_frame(plan["rows"], plan["unit"], plan["on"], plan.get("nulls"))
    n = len(plan["rows"])
    feed = aggs.Feed(plan)
    base0 = ctx.dir + "/base"
    os.makedirs(base0, exist_ok=True)
    for li, calls in enumerate(plan["lives"][:-1]):
        boot.reboot()
        store = w.open_store(base0, "flat")
        stream = w.call(f"life {li}: create", lambda: aggs.make(plan, store), "create-failed")
        for call in calls:
            b = feed.bounds(call)
            w.call(f"life {li}", lambda: aggs.agg(stream, plan, df, call, b), "agg-failed")
            feed.advance(b)
    # Victim life: calls and chunks do not depend on the fault.
    steps = []
    f2 = feed.copy()
    for call in plan["lives"][-1]:
        b = f2.bounds(call)
        steps.append((call, b))
        f2.advance(b)
    end = {"to": n, "cuts": plan["resume_cuts"], "back": n, "final": 1, "form": "gen"}
    edges = [0, *plan["resume_cuts"], n]
    end_b = list(zip(edges, edges[1:]))
    t = [r[0] for r in plan["rows"]]
    upto = next(j for j in range(n) if t[j] == t[-1])

    def victim(base):
        store = w.open_store(base, "flat")
        stream = aggs.make(plan, store)
        for call, b in steps:
            aggs.agg(stream, plan, df, call, b)

    def resume(base):
        store = w.open_store(base, "flat")
        stream = aggs.make(plan, store)
        aggs.agg(stream, plan, df, end, end_b)

    def guarded(fn, faults):
        sched.reset(plan.get("sched"))
        fsim.S.on_event = sched.io_point if plan.get("sched") else None
        try:
            return storef.attempt(fn, faults, ctx)
        finally:
            fsim.S.on_event = None
            sched.reset(None)

    boot.reboot()
    base = ctx.dir + "/dry"
    storef.fresh_copy(base0, base)
    out, n_all, n_mut, _ = guarded(lambda: w.call("victim life", lambda: victim(base), "agg-failed"), [])
    if out != "ok":
        # Fault-free: report what it raised.
        storef.fresh_copy(base0, base)
        boot.reboot()
        w.call("victim life", lambda: victim(base), "agg-failed")
        raise Violation("agg-failed", f"fault-free life ended with {out}")
    aggs.check(w.open_store(base, "flat"), plan, df, f2.agg_to, "fault-free life")
    faults = [dict(f) for f in plan["faults"]]
    ctx.stats["file_operations"] += n_all
    for s in range(min(plan["sweep"], n_mut)):
        pos = (s + plan["sweep_phase"]) / min(plan["sweep"], n_mut)
        faults.append({"on": "mut", "pos": pos, "kind": "crash_before", "frac": 0.0})
    for j, f in enumerate(faults):
        then, same = f.pop("then", None), f.pop("same", 0)
        base = ctx.dir + "/f"
        storef.fresh_copy(base0, base)
        boot.reboot()
        pf = storef.place(f, n_all, n_mut)
        out, _, _, fired = guarded(lambda: victim(base), [pf])
        if not fired:
            ctx.stats["fault_not_reached"] += 1
            continue
        ctx.nontrivial = True
        what = f"fault {j} {pf['kind']} at {fired[0]['op']} {fired[0]['path'].rsplit('/', 2)[-2:]} (event {pf['at']} of {pf['on']}), life ended with {out}"
        if not (same and out != "crash"):
            boot.reboot()
        if then:
            # Count events of a resume on a copy to position the second fault.
            storef.fresh_copy(base, ctx.dir + "/g")
            with boot.isolated():
                o2, a2, m2, _ = guarded(lambda: resume(ctx.dir + "/g"), [])
            pt = storef.place(then, a2, m2)
            o2, _, _, fired2 = guarded(lambda: resume(base), [pt])
            boot.reboot()
            what += f"; then {pt['kind']} at {[x['op'] + ' ' + x['path'].rsplit('/', 1)[-1] for x in fired2]} while resuming: {o2}"
        try:
            resume(base)
            res = "resumed"
        except Violation:
            raise
        except Exception as e:
            res = f"refused:{type(e).__name__}"
        ctx.note(f"{what}; then {res}")
        ctx.stats["resume:" + res.split(":")[0]] += 1
        ctx.seen(len(plan["keys"]), [(bool(k["snap"]), k.get("both"), k["f"] is None) for k in plan["keys"]], len(plan["lives"]) > 1, pf["kind"], fired[0]["op"],
                 fired[0]["path"].rsplit("/", 1)[-1], bool(then), same, out, res)
        if res == "resumed":
            boot.reboot()
            aggs.check(w.open_store(base, "flat"), plan, df, upto, what + "; resumed without error", kind="resume")
    ctx.sample = {k: plan[k] for k in ("keys", "lives", "faults", "sweep")}


def shrink(plan):
    if plan["sweep"]:
        yield dict(plan, sweep=0)
    if plan["faults"]:
        yield dict(plan, faults=[])
        for f in shrink_list(plan["faults"], 0):
            yield dict(plan, faults=f)
        for j, f in enumerate(plan["faults"]):
            for x in ("then", "same"):
                if x in f:
                    yield dict(plan, faults=plan["faults"][:j] + [{p: q for p, q in f.items() if p != x}] + plan["faults"][j + 1:])
    if plan.get("sched"):
        yield dict({k: v for k, v in plan.items() if k != "sched"}, parallel=0)
    if plan["resume_cuts"]:
        yield dict(plan, resume_cuts=[])
    for p in aggs.shrink(plan):
        if len(p["rows"]) > 1:
            yield dict(p, resume_cuts=[c for c in p["resume_cuts"] if 0 < c < len(p["rows"])])
