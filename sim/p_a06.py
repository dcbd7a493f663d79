"""A06 Each key only sees its own filter and configuration."""
import copy

from sim import aggs, boot
from sim import aggw as a
from sim import storew as w
from sim.p_s08 import CODECS
from sim.core import Violation, shrink_list

LEVEL = "exploration"
RUNS = {"quick": 420, "thorough": 20000}
RULE = ("one run = 2-4 keys with seeded filters (accepting much, little or nothing), binnings, snapshots, aggregations, write settings, user "
        "metadata and post, over the same seed and 1-4 process lives; configuration objects (lists, dicts, one key's whole configuration) are "
        "shared between keys and reused over lives as a user script does; each dataset is compared with a reference of the rows its filter "
        "accepts, and one key's restart buffers and metadata with those of a stream made of that key alone. Distinct = (filters, key "
        "configurations, what is shared); non-trivial = at least two filters accept different rows")
ASSUMPTIONS = ["no 0 in aggregated columns ('cumsegagg' refuses results equal to 0)"]
TIME_NOTE = "seed timestamps span minutes to days per run; no clock is read"


def gen(rng, i, tier):
    n_keys = rng.choice([2, 2, 3, 4])
    plan = aggs.gen_plan(rng, snaps=False, n_keys=n_keys, filters=False, post=[None, None, "row"])
    fids = [rng.choice(["f1", "f2", "f3", "f4", "f5", "f6", "f7", None]) for _ in range(n_keys)]
    for j, (k, fid) in enumerate(zip(plan["keys"], fids)):
        if plan["on"] == "ts" and rng.random() < 0.35:
            k = plan["keys"][j] = dict(aggs.gen_key(rng, j, True, "ts", False, k["post"]))
        k["f"] = fid
        if rng.random() < 0.3:
            k["md"] = {"who": k["n"]}
        if rng.random() < 0.3:
            k["comp"] = rng.choice(["GZIP", "ZSTD", "UNCOMPRESSED"])
    if plan.get("jit"):
        for k in plan["keys"]:
            k["aggs"] = dict(rng.choice(a.JIT))
    aggs.bound_size(plan)
    share = rng.choice([None, None, "config", "dup"])
    if share == "config":
        # A second key with the very same configuration object, other filter.
        src = plan["keys"][0]
        src.pop("md", None)
        plan["keys"][1] = dict(copy.deepcopy(src), n="k1", f=rng.choice([f for f in ("f1", "f3", "f5", None) if f != src["f"]]), same=0)
    elif share == "dup":
        # One list for 'duplicates_on' of all keys, whatever they are ordered on.
        for k in plan["keys"]:
            k.pop("out", None)
            if "freq" in k["bin"] and not k["snap"] and k["post"] is None:
                k["aggs"] = {**k["aggs"], "b": ["b", "first"]}
                k["dup"] = 1
            elif "by" in k["bin"]:
                k["dup"] = 1
        plan["keys"].sort(key=lambda k: rng.random())
    plan["share_md"] = int(rng.random() < 0.3)
    plan["alone"] = rng.randrange(n_keys)
    plan["reuse"] = int(rng.random() < 0.5)
    return plan


def configs(plan):
    """Configuration objects, as a user script holds them."""
    dup = ["b"]
    common = {"origin": "shared"}
    by, objs = {}, {}
    for k in plan["keys"]:
        if "same" in k and k["same"] in objs:
            c = objs[k["same"]]
        else:
            c = aggs.config(k)
            if k.get("dup"):
                c["duplicates_on"] = dup
            if k.get("md"):
                c["metadata"] = dict(k["md"])
            elif plan["share_md"]:
                c["metadata"] = common
            objs[plan["keys"].index(k)] = c
        by.setdefault(k["f"] or "_", {})[aggs.key_of(k)] = c
    return by, {f: aggs.filter_spec(f) for f in by if f != "_"}


def user_md(plan, k):
    if k.get("md"):
        return k["md"]
    return {"origin": "shared"} if plan["share_md"] else {}


def lives(plan, ctx, base, keys=None):
    from oups import AggStream

    df = a.seed_frame(plan["rows"], plan["unit"], plan["on"], plan.get("nulls"))
    feed = aggs.Feed(plan)
    by, filters = configs(plan)
    for li, calls in enumerate(plan["lives"]):
        boot.reboot()
        store = w.open_store(base, "flat")
        if not plan["reuse"]:
            by, filters = configs(plan)
        args = aggs.stream_args(plan, by, filters)
        stream = w.call(f"life {li}: create", lambda: AggStream(**{**dict(ordered_on="ts", store=store, parallel=bool(plan.get("parallel"))), **args}), "create-failed")
        for ci, call in enumerate(calls):
            b = feed.bounds(call)
            w.call(f"life {li} call {ci}", lambda: aggs.agg(stream, plan, df, call, b), "agg-failed")
            feed.advance(b)
            ctx.stats["calls"] += 1
            if call["final"]:
                aggs.check(w.open_store(base, "flat"), plan, df, feed.agg_to, f"life {li} call {ci}")
    return w.open_store(base, "flat")


def check_layout(pf, k, snap):
    """Write settings of the key are those its files are written with."""
    codecs = {CODECS.get(c.meta_data.codec, c.meta_data.codec) for rg in pf.row_groups for c in rg.columns}
    if codecs != {k.get("comp") or "SNAPPY"}:
        raise Violation("write-settings", f"key {k['n']} is written with codecs {codecs} instead of {k.get('comp') or 'SNAPPY (default)'}")
    mrg = k.get("mrg2" if snap and "mrg2" in k else "mrg")
    if mrg:
        ties = pf.to_pandas(columns=[aggs.label_of(k)]).iloc[:, 0].value_counts().max()
        sizes = [rg.num_rows for rg in pf.row_groups]
        if max(sizes) > mrg + ties - 1:
            raise Violation("write-settings", f"{'snapshots' if snap else 'results'} of key {k['n']} are in row groups of {sizes} rows, while its max_row_group_size is {mrg}")


def run(plan, ctx):
    a.set_jit(plan.get("jit"))
    store = lives(plan, ctx, ctx.dir + "/store")
    for k in plan["keys"]:
        key = aggs.key_of(k)
        for x in key if isinstance(key, tuple) else (key,):
            if x in store and aggs.read(store, k).get("bins" if key != x and x == key[0] else "snaps" if k["snap"] else "bins"):
                md = w.user_md(store[x])
                if md != user_md(plan, k):
                    raise Violation("user-metadata", f"key {k['n']} has user metadata {md} instead of {user_md(plan, k)}")
                check_layout(store[x].pf, k, snap=x != key and x == key[1])
    k = plan["keys"][plan["alone"]]
    alone = dict(plan, keys=[{x: y for x, y in k.items() if x != "same"}])
    st2 = lives(alone, ctx, ctx.dir + "/alone")
    m1, m2 = (aggs.canon_md(aggs.restart_md(s, k)) for s in (store, st2))
    ctx.note(repr(m1))
    if m2 is not None:
        if m1 is None:
            raise Violation("restart-metadata", f"key {k['n']} has no restart metadata, while it has when aggregated alone")
        for part in ("segagg_buffer", "post_buffer"):
            if m1.get(part) != m2.get(part):
                raise Violation("restart-metadata", f"{part} of key {k['n']}: {m1.get(part)} instead of {m2.get(part)} when aggregated alone")
    acc = {tuple(aggs.accepts(x["f"], r) for r in plan["rows"]) for x in plan["keys"]}
    ctx.nontrivial = len(acc) > 1
    ctx.stats["keys"] += len(plan["keys"])
    ctx.stats["filters_accepting_nothing"] += sum(not any(t) for t in acc)
    ctx.seen([(k["f"], sorted(k["bin"].items()), bool(k["snap"]), k.get("same"), k.get("dup")) for k in plan["keys"]], plan["reuse"], plan["share_md"])
    ctx.sample = {k: plan[k] for k in ("mode", "keys", "lives", "share_md", "reuse")}


def shrink(plan):
    for f in ("share_md", "reuse"):
        if plan[f]:
            yield dict(plan, **{f: 0})
    for p in aggs.shrink(plan):
        if len(p["keys"]) != len(plan["keys"]):
            names = [k["n"] for k in p["keys"]]
            name = plan["keys"][plan["alone"]]["n"]
            p = dict(p, alone=names.index(name) if name in names else 0)
            if any("same" in k for k in p["keys"]):
                continue
        yield p
