"""A08 Memory limits and write partitioning do not change results."""
from sim import aggs, boot
from sim import aggw as a
from sim import storew as w
from sim.core import Violation, shrink_list

LEVEL = "exploration"
RUNS = {"quick": 240, "thorough": 12000}
RULE = ("one run = one aggregation history (1-3 keys, bins, snapshots or both, optional row-wise post, 1-3 process lives) executed 3-4 times from "
        "scratch: with default settings, and with seeded 'max_in_memory_size' (0 to 20 kB, per key or for the stream), 'max_row_group_size' and "
        "'max_nirgs'; results and restart metadata are compared between the executions, and with a brute-force reference, after every final write. "
        "Distinct = (key configurations, settings, call structure); non-trivial = at least one execution flushed results before a final write")
ASSUMPTIONS = ["no 0 in aggregated columns ('cumsegagg' refuses results equal to 0)",
               "post is a row-wise function (a stateful one may legitimately depend on how often it is called)"]
TIME_NOTE = "seed timestamps span minutes to days per run; no clock is read"


def gen(rng, i, tier):
    plan = aggs.gen_plan(rng, snaps=rng.random() < 0.5, post=[None, None, "row"], sizes=(8, 14, 22, 34, 55))
    if len(plan["lives"]) > 3:
        plan["lives"] = plan["lives"][:3]
        plan["lives"][-1][-1]["to"] = len(plan["rows"])
    for k in plan["keys"]:
        for f in ("mem", "mrg", "mrg2", "nirgs"):
            k.pop(f, None)
    big = any(k["snap"] for k in plan["keys"])
    variants = []
    for _ in range(rng.choice([2, 2, 3])):
        v = {"keys": [], "all": rng.choice([None, None, 0, 0.0005])}
        for k in plan["keys"]:
            s = {"mem": rng.choice([0, 0.0001, 0.0005, 0.001, 0.004, 0.02, None]), "mrg": rng.choice([1, 2, 3, 7, 20] if not big else [4, 7, 20, 100]),
                 "nirgs": rng.choice(["unset", None, 1, 2, 5])}
            if k.get("both") and rng.random() < 0.3:
                s["mrg2"] = rng.choice([4, 9, 30])
            v["keys"].append({x: y for x, y in s.items() if y != "unset" and not (x == "mem" and y is None)})
        variants.append(v)
    plan["variants"] = variants
    # Bounds the number of files.
    n = 0
    for k in plan["keys"]:
        k["mrg"] = 4
    aggs.bound_size(plan, rows=500)
    for j, k in enumerate(plan["keys"]):
        if k.pop("mrg") != 4:
            for v in variants:
                v["keys"][j]["mrg"] = max(100, v["keys"][j]["mrg"])
                v["keys"][j].pop("mrg2", None)
    return plan


def execute(plan, ctx, name):
    """One execution of a plan: states of the store after each final write."""
    df = a.seed_frame(plan["rows"], plan["unit"], plan["on"], plan.get("nulls"))
    feed = aggs.Feed(plan)
    base = f"{ctx.dir}/{name}"
    states = []
    kw = {} if plan.get("all") is None else {"max_in_memory_size": plan["all"]}
    for li, calls in enumerate(plan["lives"]):
        boot.reboot()
        store = w.open_store(base, "flat")
        stream = w.call(f"{name}: life {li}: create", lambda: aggs.make(plan, store, **kw), "create-failed")
        for ci, call in enumerate(calls):
            b = feed.bounds(call)
            w.call(f"{name}: life {li} call {ci}", lambda: aggs.agg(stream, plan, df, call, b), "agg-failed")
            feed.advance(b)
            if call["final"]:
                st = w.open_store(base, "flat")
                aggs.check(st, plan, df, feed.agg_to, f"{name}: life {li} call {ci}")
                states.append([aggs.canon_md(aggs.restart_md(st, k)) for k in plan["keys"]])
                ctx.stats["states_compared"] += 1
    return states


def run(plan, ctx):
    a.set_jit(plan.get("jit"))
    flushed = count_flushes(ctx)
    with flushed:
        ref = execute(plan, ctx, "default")
        for j, v in enumerate(plan["variants"]):
            p = dict(plan, keys=[dict(k, **s) for k, s in zip(plan["keys"], v["keys"])], all=v["all"])
            got = execute(p, ctx, f"variant{j}")
            ctx.note(repr(got))
            for n, (x, y) in enumerate(zip(ref, got)):
                for k, mx, my in zip(plan["keys"], x, y):
                    if mx != my:
                        raise Violation("restart-metadata", f"variant {j} {v}: restart metadata of key {k['n']} after final write {n}: {my} instead of {mx}")
    ctx.nontrivial = flushed.n > 0
    ctx.stats["intermediate_flushes"] += flushed.n
    ctx.seen([(sorted(k["bin"].items()), bool(k["snap"]), k.get("both")) for k in plan["keys"]], plan["variants"], [[(c["to"], c["final"]) for c in li] for li in plan["lives"]])
    ctx.sample = {k: plan[k] for k in ("mode", "keys", "variants", "lives")}


class count_flushes:
    """Counts writes to the store made outside of final writes (statistics only)."""

    def __init__(self, ctx):
        self.n = 0

    def __enter__(self):
        import oups.store.collection as c

        self.c, self.old = c.ParquetSet, c.ParquetSet.__setitem__
        me = self

        def setitem(ps, key, data):
            from oups.store.writer import OUPS_METADATA

            if not OUPS_METADATA.get(key):
                me.n += 1
            return me.old(ps, key, data)

        self.c.__setitem__ = setitem
        return self

    def __exit__(self, *exc):
        self.c.__setitem__ = self.old


def shrink(plan):
    if len(plan["variants"]) > 1:
        for v in shrink_list(plan["variants"], 1):
            yield dict(plan, variants=v)
    for i, v in enumerate(plan["variants"]):
        if v["all"] is not None:
            yield dict(plan, variants=plan["variants"][:i] + [dict(v, all=None)] + plan["variants"][i + 1:])
        for j, s in enumerate(v["keys"]):
            for f in s:
                nk = v["keys"][:j] + [{x: y for x, y in s.items() if x != f}] + v["keys"][j + 1:]
                yield dict(plan, variants=plan["variants"][:i] + [dict(v, keys=nk)] + plan["variants"][i + 1:])
    for p in aggs.shrink(plan):
        if len(p["keys"]) != len(plan["keys"]):
            keep = [j for j, k in enumerate(plan["keys"]) if k["n"] in {x["n"] for x in p["keys"]}]
            p = dict(p, variants=[dict(v, keys=[v["keys"][j] for j in keep]) for v in p["variants"]])
        yield p
