"""
Streamed aggregations: plans, running them over several process lives, references.

A plan has "rows", "unit", "on"; "mode": "T" (each call re-feeds from any point
not after the restart index, with trim_start=True & discard_last=True) or "C"
(each call feeds only what is new, both False); "filters"; "keys": list of key
configurations; "lives": list of processes, each a list of calls
{"to", "cuts", "back", "final", "form"}.
"""
import bisect
from functools import partial

import pandas as pd

from sim import aggw as a
from sim import boot
from sim import storew as w
from sim.core import Violation, shrink_list

FILTERS = {
    "f1": [["c", "==", 1]],
    "f2": [[["c", ">", 0], ["c", "<", 3]], [["v", ">=", 30]]],
    "f3": [["c", "in", [0, 3]]],
    "f4": [["v", ">", 37]],
    "f5": [["c", "!=", 2]],
    "f6": [["v", ">", 1000]],
    "f7": [[["c", "not in", [1, 2]], ["v", "<=", 30]], [["c", "=", 2], ["v", "<", 10]]],
}
OPS = {"==": lambda x, y: x == y, "!=": lambda x, y: x != y, ">": lambda x, y: x > y, "<": lambda x, y: x < y, ">=": lambda x, y: x >= y, "in": lambda x, y: x in y, "not in": lambda x, y: x not in y, "=": lambda x, y: x == y, "<=": lambda x, y: x <= y}


def accepts(fid, row):
    """If a filter accepts a row [t, v, c, b]."""
    if fid is None:
        return True
    spec = FILTERS[fid]
    ors = spec if isinstance(spec[0][0], list) else [spec]
    vals = {"v": row[1], "c": row[2]}
    return any(all(OPS[op](vals[c], x) for c, op, x in ands) for ands in ors)


# --------------------------------------------------------------------------- #
# Generation.
# --------------------------------------------------------------------------- #
def gen_key(rng, n, snaps=False, on="ts", strict=False, post=None, fid=None, mem=True):
    """A key configuration."""
    forms = ["rows"] if strict else []
    if on == "ts":
        forms += ["freq"] * 4
    if not snaps or strict:
        forms += ["by"]
    form = rng.choice(forms)
    if form == "freq":
        bin_ = a.pick_grouper(rng)
    elif form == "rows":
        bin_ = {"rows": rng.choice([1, 2, 3, 4, 7]), "closed": rng.choice(["left", "right"])}
    else:
        bin_ = {"by": "b", "closed": rng.choice(["left", "right"])}
    k = {"n": f"k{n}", "f": fid, "bin": bin_, "snap": None, "aggs": a.pick_aggs(rng), "post": post}
    if snaps:
        k["snap"] = {"freq": rng.choice(a.FREQS[:8]), "label": rng.choice(["left", "right"])}
        if rng.random() < 0.2:
            k["snap"]["origin"] = rng.choice(["epoch", "start_day", "start"])
        k["both"] = rng.random() < 0.55
    if rng.random() < 0.2:
        # Column with labels of bins is renamed.
        k["out"] = "lab"
    if mem and rng.random() < 0.6:
        k["mem"] = rng.choice([0, 0.0001, 0.0005, 0.001, 0.004, 0.02])
    if rng.random() < 0.6:
        k["mrg"] = rng.choice([1, 2, 3, 5, 20, 1000])
        if k.get("both") and rng.random() < 0.5:
            # One for bins, one for snapshots.
            k["mrg2"] = rng.choice([1, 2, 4, 10, 1000])
    if rng.random() < 0.25:
        k["nirgs"] = rng.choice([None, 1, 2, 4])
    return k


def gen_lives(rng, n, mode, max_lives=4, max_calls=3, always_final=False):
    """Calls over several processes that end with having fed all n rows."""
    n_lives = rng.randint(1, max_lives)
    lives = [[{} for _ in range(rng.randint(1, max_calls))] for _ in range(n_lives)]
    total = sum(map(len, lives))
    ends = sorted(rng.randint(0, n) for _ in range(total - 1)) + [n]
    it = iter(ends)
    last = 0
    for li in lives:
        for j, c in enumerate(li):
            to = next(it)
            c["to"] = to
            m = to - last
            c["cuts"] = sorted({rng.randint(0, n) for _ in range(rng.choice([0, 1, 2, 4, 8]))}) if m or mode == "T" else []
            c["back"] = rng.choice([0, 0, 0, 1, 3, 10, n]) if mode == "T" else 0
            c["final"] = 1 if j == len(li) - 1 or always_final else int(rng.random() < 0.5)
            c["form"] = rng.choice(["df", "list", "gen", "gen"])
            if rng.random() < 0.15:
                c["index"] = 1
            if rng.random() < 0.08:
                c["empty"] = rng.randint(0, 4)
            last = to
    return lives


def gen_plan(rng, snaps, n_keys=None, filters=None, mode=None, mem=True, post=None, sizes=(3, 8, 14, 22, 34, 55)):
    n = rng.choice(sizes)
    on = "ts" if snaps or rng.random() < 0.75 else rng.choice(["int", "float"])
    strict = rng.random() < 0.3
    mode = mode or rng.choice(["T", "T", "C"])
    n_keys = n_keys or rng.choice([1, 1, 2, 3])
    if filters is None:
        filters = rng.random() < 0.3
    fids = [None] * n_keys
    if filters:
        fids = [rng.choice(["f1", "f2", "f3", "f4", "f5", "f7", None]) for _ in range(n_keys)]
    keys = [gen_key(rng, j, snaps, on, strict, rng.choice(post) if post else None, fids[j], mem) for j in range(n_keys)]
    plan = {"rows": a.gen_rows(rng, n, strict, rng.random() < 0.25), "unit": rng.choice([1, 7, 10, 20, 30, 60, 60, 60, 150]), "on": on, "mode": mode,
            "keys": keys, "lives": gen_lives(rng, n, mode), "parallel": int(rng.random() < 0.2)}
    if rng.random() < 0.1:
        a.to_calendar(rng, plan, [g for k in keys for g in (k["bin"], k["snap"] or {})])
    if on != "ts" and rng.random() < 0.7:
        # Have 0 among the values.
        t = rng.choice(plan["rows"])[0]
        plan["rows"] = [[r[0] - t, *r[1:]] for r in plan["rows"]]
    bound_size(plan)
    if rng.random() < 0.2:
        # A kernel compiled rather than interpreted.
        for k in keys:
            k["aggs"] = dict(rng.choice(a.JIT))
        plan["jit"] = 1
    if rng.random() < 0.3:
        gen_shape(rng, plan)
    if rng.random() < 0.1:
        plan["nulls"] = rng.choice([2, 3, 5, 9])
    return plan


LIFTED = {"agg": None, "snap_by": None, "post": None, "max_in_memory_size": 100, "max_row_group_size": None, "max_nirgs": None}


def gen_shape(rng, plan):
    """How the configuration is given: options of a key as defaults of the stream, a key on its own."""
    plan["shape"] = {"lift": {o: rng.randrange(4) for o in LIFTED if rng.random() < 0.4},
                     "dup": rng.choice([None, None, "none", "none-wrong", "explicit", "list"]), "alone": int(rng.random() < 0.5), "nofilter": int(rng.random() < 0.5)}


def stream_args(plan, by, filters):
    """
    Arguments of AggStream for configurations of keys by filter id, depending
    on the shape the plan asks for.
    """
    shape = plan.get("shape") or {}
    args = {}
    if shape:
        by = {f: {key: dict(c) for key, c in cs.items()} for f, cs in by.items()}
        all_ = [(key, c) for cs in by.values() for key, c in cs.items()]
        cs = [c for _, c in all_]
        for o, j in shape["lift"].items():
            donor = cs[j % len(cs)]
            if o not in donor:
                continue
            args[o] = donor[o]
            for c in cs:
                if c is not donor and o not in c:
                    c[o] = LIFTED[o]
            del donor[o]
        dup = shape["dup"]
        for key, c in all_:
            if dup and "duplicates_on" not in c:
                # Label of bins, or of snapshots, which is the default.
                lab = next(label_of(k) for k in plan["keys"] if key_of(k) == key)
                c["duplicates_on"] = {"none": None, "none-wrong": None, "explicit": lab, "list": [lab]}[dup]
        if dup == "none-wrong":
            args["duplicates_on"] = "not-a-column"
    if set(by) == {"_"}:
        keys = by["_"]
        if shape.get("alone") and len(keys) == 1 and "ordered_on" not in next(iter(keys.values())):
            (key, c), = keys.items()
            return {**args, **c, "keys": key}
        return dict(args, keys=keys)
    if "_" in by and shape.get("nofilter"):
        filters = dict(filters, _=None)
    return dict(args, keys=by, filters=filters)


def bound_size(plan, rows=1500, files=100):
    """Keep the number of results, and of files they are in, reasonable."""
    freqs = [g["freq"] for k in plan["keys"] for g in (k["bin"], k["snap"] or {}) if "freq" in g]
    if not freqs:
        return
    span = plan["rows"][-1][0] - plan["rows"][0][0]
    low = min(map(a.seconds, freqs))
    while plan["unit"] > 1 and span * plan["unit"] / low > rows:
        plan["unit"] = max(1, plan["unit"] // 3)
    for k in plan["keys"]:
        n = max(span * plan["unit"] / a.seconds(g["freq"]) for g in (k["bin"], k["snap"] or {}, {"freq": "1D"}) if "freq" in g)
        if k.get("mrg") and n / min(k["mrg"], k.get("mrg2") or 1000) > files:
            k["mrg"] = 1000
            if "mrg2" in k:
                k["mrg2"] = 900


# --------------------------------------------------------------------------- #
# The stream under test.
# --------------------------------------------------------------------------- #
def key_of(k):
    """The store key (or keys) of a key configuration."""
    if k["snap"] and k.get("both"):
        return (w.mk_key("flat", [k["n"] + "b"]), w.mk_key("flat", [k["n"] + "s"]))
    return w.mk_key("flat", [k["n"]])


def label_of(k):
    return k["out"] if k.get("out") else "b" if "by" in k["bin"] else "ts"


def post_row(buffer, bin_res, snap_res=None, both=False):
    """Row-wise post-processing."""
    def one(r):
        r = r.copy()
        r["x"] = r[r.columns[1]]
        return r

    if snap_res is None:
        return one(bin_res)
    return (one(bin_res), one(snap_res)) if both else one(snap_res)


def by_change(on, buffer, closed):
    from sim.p_c01 import by_change as f

    return f(on, buffer, closed)


def config(k, post=None, bin_hook=None):
    """Key configuration as given to AggStream."""
    c = {"agg": {x: tuple(y) for x, y in k["aggs"].items()}}
    b = k["bin"]
    if "freq" in b:
        c["bin_by"] = a.grouper(b)
    elif "rows" in b:
        from oups.aggstream.segmentby import by_x_rows

        c["bin_by"] = partial(by_x_rows, by=b["rows"], closed=b["closed"])
    else:
        c["bin_by"] = partial(bin_hook or by_change, closed=b["closed"])
        c["bin_on"] = "b"
        c["ordered_on"] = "b"
    if k.get("out"):
        c["bin_on"] = (c.get("bin_on", "ts"), k["out"])
        c["ordered_on"] = k["out"]
    if k["snap"]:
        c["snap_by"] = a.grouper(dict(k["snap"], closed=b["closed"]))
    if post:
        c["post"] = post
    elif k.get("post") == "row":
        c["post"] = partial(post_row, both=True) if k.get("both") else post_row
    if k.get("mem") is not None:
        c["max_in_memory_size"] = k["mem"]
    if k.get("mrg"):
        c["max_row_group_size"] = (k["mrg"], k["mrg2"]) if "mrg2" in k else k["mrg"]
    if k.get("comp"):
        c["compression"] = k["comp"]
    if "nirgs" in k:
        c["max_nirgs"] = k["nirgs"]
    c.update(k.get("extra") or {})
    return c


def filter_spec(fid):
    spec = FILTERS[fid]
    if isinstance(spec[0][0], list):
        return [[tuple(x) for x in ands] for ands in spec]
    return [tuple(x) for x in spec]


def make(plan, store, pre=None, keys=None, posts=None, bin_hooks=None, **kw):
    """A stream object for a plan (or for a subset of its keys)."""
    from oups import AggStream

    keys = plan["keys"] if keys is None else keys
    posts, bin_hooks = posts or {}, bin_hooks or {}
    cfg = [(k, config(k, posts.get(k["n"]), bin_hooks.get(k["n"]))) for k in keys]
    by = {}
    for k, c in cfg:
        by.setdefault(k["f"] or "_", {})[key_of(k)] = c
    args = stream_args(plan, by, {f: filter_spec(f) for f in by if f != "_"})
    return AggStream(**{**dict(ordered_on="ts", store=store, pre=pre, parallel=bool(plan.get("parallel"))), **kw, **args})


class Feed:
    """Models which rows calls feed and which are then aggregated."""

    def __init__(self, plan):
        self.rows = plan["rows"]
        self.t = [r[0] for r in self.rows]
        self.mode = plan["mode"]
        self.fids = sorted({k["f"] for k in plan["keys"]}, key=str)
        self.restart = None  # Restart index, as a value of 't'.
        self.agg_to = 0  # Rows before this one are aggregated, or dismissed by all filters.
        self.fed = 0

    def copy(self):
        f = object.__new__(Feed)
        f.__dict__.update(self.__dict__)
        return f

    def bounds(self, call):
        """Chunks (start, stop) of a call, and state after each of them."""
        to = max(call["to"], self.fed)
        if self.mode == "T":
            first = 0 if self.restart is None else bisect.bisect_left(self.t, self.restart)
            start = max(0, first - call.get("back", 0))
        else:
            start = self.fed
        edges = [start, *sorted({c for c in call["cuts"] if start < c < to}), to]
        return [(x, z) for x, z in zip(edges, edges[1:]) if x < z]

    def advance(self, bounds):
        """Account for these chunks; returns the state after each chunk."""
        if not bounds:
            return
        trim = self.restart is not None and self.mode == "T"
        rest = bounds[0][0]
        for x, z in bounds:
            last = self.t[z - 1]
            self.fed = max(self.fed, z)
            if self.mode == "C":
                if any(accepts(f, r) for r in self.rows[x:z] for f in self.fids):
                    self.restart = last
                self.agg_to = z
                continue
            if trim:
                if last < self.restart:
                    rest = z
                    continue
                trim = False
                rest = bisect.bisect_left(self.t, self.restart)
            stop = bisect.bisect_left(self.t, last)
            if any(accepts(f, r) for r in self.rows[rest:stop] for f in self.fids):
                self.restart = last
            rest = stop
            self.agg_to = max(self.agg_to, stop)


def chunks(df, bounds, call):
    """The seed argument for a call."""
    def one(x, z):
        c = df.iloc[x:z]
        return c.copy() if call.get("index") else c.reset_index(drop=True)

    if "empty" in call:
        # A chunk without row, among others.
        bounds = list(bounds)
        bounds.insert(call["empty"], (0, 0))
    if not bounds:
        return {"df": None, "list": []}.get(call["form"], iter(()))
    if call["form"] == "df" and len(bounds) == 1:
        return one(*bounds[0])
    if call["form"] == "list":
        return [one(*b) for b in bounds]
    return (one(*b) for b in bounds)


def agg(stream, plan, df, call, bounds):
    t = plan["mode"] == "T"
    given = []
    stream.agg(seed=watch(chunks(df, bounds, call), given), trim_start=t, discard_last=t, final_write=bool(call["final"]))
    unchanged(given)


def watch(seed, given):
    """The same seed, with a copy kept of each of its chunks."""
    if isinstance(seed, pd.DataFrame):
        given.append((seed, seed.copy()))
    elif isinstance(seed, list):
        given.extend((x, x.copy()) for x in seed)
    elif seed is not None:
        def one(x):
            given.append((x, x.copy()))
            return x

        return (one(x) for x in seed)
    return seed


def unchanged(given):
    for x, y in given:
        if list(x.columns) != list(y.columns) or not x.index.equals(y.index) or not x.equals(y):
            raise Violation("input-modified", f"a chunk of the seed was\n{y}\nand is\n{x}\nonce aggregated")


# --------------------------------------------------------------------------- #
# Results.
# --------------------------------------------------------------------------- #
def aggs_of(k):
    return list(k["aggs"]) + (["x"] if k.get("post") == "row" else [])


def read(store, k):
    """Results of a key: {"bins":, "snaps":}, None where the dataset is missing."""
    key = key_of(k)

    def one(x):
        if x not in store:
            return None
        df = store[x].pdf
        if not len(df.columns):
            return []
        return a.canon(df, label_of(k), aggs_of(k))

    if isinstance(key, tuple):
        return {"bins": one(key[0]), "snaps": one(key[1])}
    return {"snaps" if k["snap"] else "bins": one(key)}


def expected(plan, df, upto, k, lo=0):
    """Results of a single aggregation of rows lo:upto that the key's filter accepts."""
    keep = [j for j in range(lo, upto) if accepts(k["f"], plan["rows"][j])]
    sub = df.iloc[keep].reset_index(drop=True)
    bins, spans = a.ref_bins(sub, k["bin"], k["aggs"])
    out = {}
    dup = (lambda rs: [(*r, r[1]) for r in rs]) if k.get("post") == "row" else (lambda rs: rs)
    if not k["snap"] or k.get("both"):
        out["bins"] = dup(bins)
    if k["snap"]:
        out["snaps"] = dup(a.ref_snaps(sub, k["bin"], k["snap"], k["aggs"], spans))
    return out


def check(store, plan, df, upto, what, keys=None, kind="results"):
    for k in plan["keys"] if keys is None else keys:
        want = expected(plan, df, upto, k)
        got = w.call(f"{what}: read {k['n']}", lambda: read(store, k), "read-failed")
        for part, rows in want.items():
            if (got[part] or []) != rows:
                raise Violation(f"{kind}-{part}", f"{what}: {part} of key {k['n']} after {upto} rows: {a.diff(got[part] or [], rows)}")


def restart_md(store, k):
    """Restart state a key's dataset holds, or None."""
    key = key_of(k)
    key = key[0] if isinstance(key, tuple) else key
    if key not in store:
        return None
    md = store[key]._oups_metadata
    return None if md is None else md.get("aggstream")


def canon_md(x):
    """Comparable form of restart state."""
    if isinstance(x, dict):
        return {str(k): canon_md(v) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))}
    if isinstance(x, pd.DataFrame):
        return {"cols": {str(c): [a.none(v) for v in x[c].tolist()] for c in sorted(x.columns)}, "dtypes": {str(c): str(x[c].dtype) for c in sorted(x.columns)}}
    if isinstance(x, (list, tuple)):
        return [canon_md(v) for v in x]
    return a.none(x)


def run_lives(plan, ctx, what=""):
    """Run the lives of a plan, comparing the store after each final write."""
    a.set_jit(plan.get("jit"))
    df = a.seed_frame(plan["rows"], plan["unit"], plan["on"], plan.get("nulls"))
    feed = Feed(plan)
    base = ctx.dir + "/store"
    for li, calls in enumerate(plan["lives"]):
        boot.reboot()
        store = w.open_store(base, "flat")
        stream = w.call(f"life {li}: create", lambda: make(plan, store), "create-failed")
        for ci, call in enumerate(calls):
            b = feed.bounds(call)
            w.call(f"life {li} call {ci}", lambda: agg(stream, plan, df, call, b), "agg-failed")
            feed.advance(b)
            ctx.note(f"life {li} call {ci} fed {b} restart {feed.restart}")
            ctx.stats["calls"] += 1
            ctx.stats["chunks"] += len(b)
            if call["final"]:
                check(w.open_store(base, "flat"), plan, df, feed.agg_to, f"life {li} call {ci}")
        ctx.stats["lives"] += 1
    store = w.open_store(base, "flat")
    for k in plan["keys"]:
        got = read(store, k)
        ctx.note(repr(got))
        ctx.stats["result_rows"] += sum(len(v or []) for v in got.values())
    ctx.stats["rows"] += len(df)
    ctx.nontrivial = len(plan["lives"]) > 1 or any(c["cuts"] for li in plan["lives"] for c in li)
    ctx.seen(plan["mode"], [(sorted(k["bin"].items()), k["f"], bool(k["snap"]), k.get("both"), k.get("mem"), k.get("mrg")) for k in plan["keys"]],
             [[(c["to"], len(c["cuts"]), c["final"]) for c in li] for li in plan["lives"]])
    ctx.sample = {k: plan[k] for k in ("mode", "keys", "lives", "unit")} | {"rows": plan["rows"][:8]}


# --------------------------------------------------------------------------- #
# Shrinking.
# --------------------------------------------------------------------------- #
def drop_rows(plan, keep):
    m = lambda c: bisect.bisect_left(keep, c)
    return dict(plan, rows=[plan["rows"][j] for j in keep],
                lives=[[dict(c, to=m(c["to"]), cuts=sorted({m(x) for x in c["cuts"]})) for c in li] for li in plan["lives"]])


def shrink(plan):
    lives = plan["lives"]
    for cand in shrink_list(list(range(len(lives))), 1):
        yield dict(plan, lives=[lives[j] for j in cand])
    if len(plan["keys"]) > 1:
        for cand in shrink_list(plan["keys"], 1):
            yield dict(plan, keys=cand)
    for cand in shrink_list(list(range(len(plan["rows"]))), 1):
        yield drop_rows(plan, cand)
    for i, li in enumerate(lives):
        if len(li) > 1:
            for j in range(len(li) - 1):
                yield dict(plan, lives=lives[:i] + [li[:j] + li[j + 1:]] + lives[i + 1:])
        for j, c in enumerate(li):
            for cuts in shrink_list(c["cuts"], 0):
                yield dict(plan, lives=lives[:i] + [li[:j] + [dict(c, cuts=cuts)] + li[j + 1:]] + lives[i + 1:])
            if c.get("back"):
                yield dict(plan, lives=lives[:i] + [li[:j] + [dict(c, back=0)] + li[j + 1:]] + lives[i + 1:])
            for f in ("index", "empty"):
                if f in c:
                    yield dict(plan, lives=lives[:i] + [li[:j] + [{x: y for x, y in c.items() if x != f}] + li[j + 1:]] + lives[i + 1:])
    for i, k in enumerate(plan["keys"]):
        def rep(nk):
            return dict(plan, keys=plan["keys"][:i] + [nk] + plan["keys"][i + 1:])

        for f in ("mem", "mrg2", "mrg", "nirgs", "out", "comp"):
            if f in k:
                yield rep({x: y for x, y in k.items() if x != f})
        if k["f"]:
            yield rep(dict(k, f=None))
        if k.get("post"):
            yield rep(dict(k, post=None))
        if len(k["aggs"]) > 1:
            for x in k["aggs"]:
                yield rep(dict(k, aggs={p: q for p, q in k["aggs"].items() if p != x}))
        for f in ("origin", "offset"):
            if k["bin"].get(f):
                yield rep(dict(k, bin={x: y for x, y in k["bin"].items() if x != f}))
    for f in ("parallel", "jit", "shape", "nulls"):
        if plan.get(f):
            yield dict(plan, **{f: 0})
    if plan.get("shape"):
        for o in plan["shape"]["lift"]:
            yield dict(plan, shape=dict(plan["shape"], lift={x: y for x, y in plan["shape"]["lift"].items() if x != o}))
        for o in ("dup", "alone", "nofilter"):
            if plan["shape"][o]:
                yield dict(plan, shape=dict(plan["shape"], **{o: None}))
    if plan["rows"] and plan["rows"][0][0]:
        t = plan["rows"][0][0]
        yield dict(plan, rows=[[r[0] - t, *r[1:]] for r in plan["rows"]])
