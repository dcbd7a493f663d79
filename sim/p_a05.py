"""A05 Parallel equals sequential aggregation under every thread interleaving."""
from sim import aggs, boot, fsim, sched
from sim import aggw as a
from sim import storew as w
from sim.core import Violation, shrink_list

LEVEL = "exploration"
RUNS = {"quick": 110, "thorough": 10000}
RULE = ("one run = one aggregation history of 2-5 keys (bins, snapshots or both, filters, intermediate flushes, 1-2 process lives) executed "
        "sequentially, then 2-4 times with its worker threads interleaved by a seeded scheduler that pre-empts at source lines of oups and "
        "sortedcontainers, at fastparquet calls and at file operations; results, restart metadata, the store's catalogue in the running process "
        "and rebuilt from disk are compared after every final write. Distinct = digest of the sequence of thread switches; non-trivial = at "
        "least one pre-emption while several workers were runnable")
ASSUMPTIONS = ["numba, numpy, pandas, pyarrow and vaex code is atomic between two scheduling points",
               "no 0 in aggregated columns ('cumsegagg' refuses results equal to 0)"]
TIME_NOTE = "virtual time is the count of scheduling points"


def gen(rng, i, tier):
    plan = aggs.gen_plan(rng, snaps=False, n_keys=rng.choice([2, 3, 3, 5]), filters=rng.random() < 0.25, post=[None, None, "row"], sizes=(3, 6, 10, 16, 24))
    for j, k in enumerate(plan["keys"]):
        if plan["on"] == "ts" and rng.random() < 0.3:
            f = k["f"]
            plan["keys"][j] = dict(aggs.gen_key(rng, j, True, "ts", False, k["post"]), f=f)
    if plan.pop("jit", 0):
        pass
    plan["lives"] = plan["lives"][:2]
    plan["lives"][-1][-1]["to"] = len(plan["rows"])
    aggs.bound_size(plan, rows=60, files=12)
    scheds = []
    for _ in range(rng.choice([2, 3, 4])):
        style = rng.choice(["fine", "coarse", "burst", "end"])
        s = {"seed": rng.randrange(1 << 30), "p_end": rng.choice([0.3, 0.8, 1.0])}
        if style == "fine":
            s["p"] = rng.choice([0.05, 0.2, 0.5])
        elif style == "coarse":
            s["p"] = rng.choice([0.002, 0.01])
        elif style == "burst":
            s.update(p=rng.choice([0.4, 0.8]), burst=[rng.choice([5, 20, 60]), rng.choice([3, 10, 30])], p_low=0.001)
        else:
            s["p"] = 0.0
        scheds.append(s)
    plan["scheds"] = scheds
    plan["parallel"] = 1
    return plan


def execute(plan, ctx, name):
    df = a.seed_frame(plan["rows"], plan["unit"], plan["on"], plan.get("nulls"))
    feed = aggs.Feed(plan)
    base = f"{ctx.dir}/{name}"
    states = []
    for li, calls in enumerate(plan["lives"]):
        boot.reboot()
        store = w.open_store(base, "flat")
        stream = w.call(f"{name}: life {li}: create", lambda: aggs.make(plan, store), "create-failed")
        for ci, call in enumerate(calls):
            b = feed.bounds(call)
            what = f"{name}: life {li} call {ci}"
            try:
                w.call(what, lambda: aggs.agg(stream, plan, df, call, b), "agg-failed")
            except Violation as v:
                if v.info.get("exc") == "SchedDeadlock":
                    raise Violation("deadlock", v.msg)
                raise
            feed.advance(b)
            if not call["final"]:
                continue
            disk = w.open_store(base, "flat")
            aggs.check(disk, plan, df, feed.agg_to, what)
            cat = w.call(f"{what}: catalogue", lambda: catalogue(store), "catalogue-failed")
            cat2 = w.call(f"{what}: catalogue from disk", lambda: catalogue(disk), "catalogue-failed")
            if cat["paths"] != cat2["paths"]:
                raise Violation("catalogue", f"{what}: store has keys {cat['paths']} in the running process, {cat2['paths']} when opened again")
            # Reading and iterating with the running process' catalogue.
            for k in plan["keys"]:
                if w.call(f"{what}: read", lambda: aggs.read(store, k), "read-failed") != aggs.read(disk, k):
                    raise Violation("catalogue", f"{what}: key {k['n']} read differently in the running process")
            states.append({"cat": cat, "res": [aggs.read(disk, k) for k in plan["keys"]], "md": [aggs.canon_md(aggs.restart_md(disk, k)) for k in plan["keys"]]})
    return states


def catalogue(store):
    keys = list(store.keys)
    out = {"paths": [k.to_path for k in keys], "len": len(store), "repr": str(store)}
    if len(keys) != out["len"]:
        raise RuntimeError(f"{len(keys)} keys listed, but length is {out['len']}")
    for k in keys:
        if k not in store:
            raise RuntimeError(f"{k} is listed but is not in store")
    out["sorted"] = keys == sorted(keys)
    return out


def run(plan, ctx):
    a.set_jit(False)
    ref = execute(dict(plan, parallel=0), ctx, "sequential")
    for j, s in enumerate(plan["scheds"]):
        sched.reset(s)
        fsim.arm([], None)
        fsim.S.on_event = sched.io_point
        try:
            got = execute(plan, ctx, f"parallel{j}")
            for n, (x, y) in enumerate(zip(ref, got)):
                for part, kind in (("cat", "catalogue"), ("res", "results"), ("md", "restart-metadata")):
                    if x[part] != y[part]:
                        raise Violation(kind, f"schedule {j}: after final write {n}: {part}: {y[part]} instead of {x[part]} when keys are processed one by one")
        except Violation as v:
            v.info["patch"] = {"scheds": [{"switch": dict(sched.S.taken)}]}
            raise
        finally:
            fsim.S.on_event = None
            fsim.disarm()
            trace, points, switches, pools = sched.S.trace, sched.S.points, sched.S.switches, sched.S.pools
            sched.reset(None)
        ctx.note(repr(trace[-2000:]))
        ctx.note(repr(got))
        ctx.stats["schedules"] += 1
        ctx.stats["thread_switches"] += switches
        ctx.stats["scheduling_points"] += points
        ctx.stats["pools"] += pools
        ctx.seen([(x, y) for _, x, y in trace[:5000]], points)
        ctx.nontrivial = ctx.nontrivial or switches > 0
    ctx.sample = {k: plan[k] for k in ("mode", "keys", "scheds", "lives")}


def shrink(plan):
    if len(plan["scheds"]) > 1:
        for s in shrink_list(plan["scheds"], 1):
            yield dict(plan, scheds=s)
    s = plan["scheds"][0]
    if len(plan["scheds"]) == 1 and "switch" in s:
        ks = sorted(s["switch"], key=int)
        for cand in shrink_list(ks, 0):
            yield dict(plan, scheds=[{"switch": {k: s["switch"][k] for k in cand}}])
    yield from aggs.shrink(plan)
