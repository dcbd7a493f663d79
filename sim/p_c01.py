"""C01 Chunked cumulative segmentation and aggregation equals a single pass."""
import bisect
import pickle

import pandas as pd

from sim import aggw as a
from sim.core import Violation, shrink_list
from sim.storew import call

LEVEL = "exploration"
RUNS = {"quick": 1600, "thorough": 80000}
RULE = ("one run = a seeded frame (6-70 rows with ties, bursts, gaps, day changes), one binning (time grouper of fixed or calendar frequency, row count or user callable), "
        "optional snapshots (time grouper, or points listed as an index or a Series, given whole or as they come), aggregation functions over int, float and datetime columns, and a cutting into 1-12 chunks with "
        "pickling of the buffer between some; the stitched output is compared with a brute-force reference and with a single call. Distinct = "
        "(binning, snapshots, cut positions relative to bin ends); non-trivial = at least one cut inside a bin")
ASSUMPTIONS = ["null values of aggregated columns count as `sum`, `first`, `last` and comparisons make of them (they are not skipped); results equal to 0 only where `error_on_0` is not set (they are refused by default)",
               "user callables follow the documented protocol; rows-count bins are used with distinct values (labels have to identify bins)"]
TIME_NOTE = "seed timestamps span minutes to days per run; no clock is read"


def gen(rng, i, tier):
    form = rng.choice(["freq", "freq", "freq", "freq", "rows", "call", "ends"])
    n = rng.choice([2, 6, 10, 16, 25, 40, 70])
    strict = form == "rows"
    on = "ts"
    snap = None
    day = rng.random() < 0.3
    if form == "freq":
        bin_ = a.pick_grouper(rng)
    elif form == "ends":
        bin_ = {"ends": None, "closed": rng.choice(["left", "right"]), "label": int(rng.random() < 0.4), "grow": int(rng.random() < 0.5), "as": rng.choice(["index", "series"])}
    else:
        bin_ = {"rows": rng.choice([1, 2, 3, 4, 7])} if form == "rows" else {"by": "b"}
        bin_["closed"] = rng.choice(["left", "right"])
    if rng.random() < 0.5:
        if rng.random() < 0.7:
            snap = {"freq": rng.choice(a.FREQS[:8]), "label": rng.choice(["left", "right"])}
            if rng.random() < 0.2:
                snap["origin"] = rng.choice(["epoch", "start_day"])
        else:
            snap = {"at": None, "as": rng.choice(["index", "series"]), "grow": rng.choice([0, 0, 1, 1, 1, 2])}
        strict = form in ("rows", "call")
    elif form in ("rows", "call") and rng.random() < 0.4:
        on = rng.choice(["int", "float"])
    unit = rng.choice([1, 7, 10, 20, 30, 60, 60, 60, 150])
    rows = a.gen_rows(rng, n, strict, day)
    if on == "ts" and rng.random() < 0.15:
        unit = rng.choice(a.CALENDAR_UNITS)
        for g in (bin_, snap or {}):
            if "freq" in g:
                g["freq"] = rng.choice(a.CALENDAR)
        low = min([a.seconds(g["freq"]) for g in (bin_, snap or {}) if "freq" in g], default=0)
        while low and unit > 3600 and (rows[-1][0] - rows[0][0]) * unit / low > 1500:
            unit = max(3600, unit // 3)
    if snap and "at" in snap:
        snap["at"] = pick_instants(rng, rows, unit, rng.choice([1, 3, 8, 20]))
    if form == "ends":
        last = rows[-1][0] * unit
        bin_["ends"] = pick_instants(rng, rows, unit, rng.choice([1, 3, 8, 20]))
        if bin_["ends"][-1] < last + (bin_["closed"] == "left"):
            bin_["ends"].append(last + rng.choice([10, 600]))
    zero = rng.random() < 0.25
    if zero:
        # Results can be 0: 'error_on_0' is off.
        rows = [[r[0], r[1] - 20, *r[2:]] for r in rows]
    nulls = rng.choice([2, 3, 5, 9]) if rng.random() < 0.15 else None
    cuts = sorted({rng.randint(1, n - 1) for _ in range(rng.choice([0, 1, 2, 3, 6, 11]))}) if n > 1 else []
    return {"rows": rows, "unit": unit, "on": on, "bin": bin_, "snap": snap, **a.pick_jit(rng), "cuts": cuts,
            "pickle": [int(rng.random() < 0.4) for _ in range(len(cuts) + 1)], "setup": rng.random() < 0.3, "nulls": nulls, **({"zero": 1} if zero else {})}


def pick_instants(rng, rows, unit, n):
    """Seconds from T0, before, between, at and after rows."""
    span = rows[-1][0] * unit + 600
    at = {rng.randrange(-60, max(span, 1) + 1) // 10 * 10 for _ in range(n)}
    if rng.random() < 0.4:
        # Instants that are those of rows.
        at |= {r[0] * unit for r in rng.sample(rows, min(len(rows), 4))}
    return sorted(at)


def by_change(on, buffer=None, closed="left"):
    """User callable: a bin per value of column 'b'; follows the documented protocol."""
    import numpy as np

    ts = on["ts"] if isinstance(on, pd.DataFrame) else None
    b = on["b"].to_numpy() if ts is not None else on.to_numpy()
    n = len(b)
    starts = [0] + [i for i in range(1, n) if b[i] != b[i - 1]]
    labels = [int(b[s]) for s in starts]
    nxt = starts[1:] + [n]
    n_null = 0
    ends = None if ts is None else [ts.iloc[x - 1 if closed == "right" else min(x, n - 1)] for x in nxt]
    if buffer is not None:
        if buffer.get("n") and buffer["last"] != labels[0]:
            labels.insert(0, buffer["last"])
            nxt.insert(0, 0)
            n_null = 1
            if ends is not None:
                ends.insert(0, buffer["end"] if closed == "right" else ts.iloc[0])
        if ends is not None:
            buffer["end"] = ts.iloc[-1]
        buffer["last"] = labels[-1]
        buffer["n"] = buffer.get("n", 0) + n
    lab = pd.Series(labels, dtype="int64")
    return np.array(nxt, dtype="int64"), lab, n_null, closed, lab if ends is None else pd.Series(ends), closed == "left" or ends is not None


def binning(plan, chunk):
    from functools import partial

    from oups.aggstream.segmentby import by_scale, by_x_rows

    bin_ = plan["bin"]
    if "freq" in bin_:
        return dict(bin_by=a.grouper(bin_), ordered_on="ts")
    if "ends" in bin_:
        # Bins given by their ends: all of them, or up to the last row and some more.
        ends = [a.T0 + pd.Timedelta(seconds=s) for s in bin_["ends"]]
        if bin_["grow"]:
            m = (bisect.bisect_left if bin_["closed"] == "right" else bisect.bisect_right)(ends, chunk["ts"].iloc[-1]) + 1
            ends = ends[: (m + 2) // 3 * 3]
        ends = pd.DatetimeIndex(ends) if bin_["as"] == "index" else pd.Series(ends, dtype="datetime64[ns]")
        return dict(bin_by=partial(by_scale, by=(pd.Series(range(len(ends))), ends) if bin_["label"] else ends, closed=bin_["closed"]), ordered_on="ts")
    if "rows" in bin_:
        return dict(bin_by=partial(by_x_rows, by=bin_["rows"], closed=bin_["closed"]), ordered_on="ts")
    return dict(bin_by=partial(by_change, closed=bin_["closed"]), bin_on="b", ordered_on="ts" if plan["snap"] else None)


def run(plan, ctx):
    from oups.aggstream.cumsegagg import cumsegagg, setup_cumsegagg
    from oups.aggstream.segmentby import setup_segmentby

    a.set_jit(plan["jit"])
    df = a.seed_frame(plan["rows"], plan["unit"], plan["on"], plan.get("nulls"))
    aggs = {k: tuple(v) for k, v in plan["aggs"].items()}
    bin_, snap = plan["bin"], plan["snap"]
    want_bins, spans = a.ref_bins(df, bin_, aggs)
    def listed(chunk):
        """Instants given with this chunk: all of them, or up to the last row and some more."""
        at = [a.T0 + pd.Timedelta(seconds=s) for s in snap["at"]]
        if snap.get("grow"):
            # If right-closed, the instant of the last row can come with next chunk.
            late = snap["grow"] == 2 and bin_["closed"] == "right" and len(chunk) < len(df) and chunk["ts"].iloc[-1] < df["ts"].iloc[-1]
            m = (bisect.bisect_left if late else bisect.bisect_right)(at, chunk["ts"].iloc[-1])
            at = at[: (m + 2) // 3 * 3]
        return pd.DatetimeIndex(at) if snap.get("as") != "series" else pd.Series(at, dtype="datetime64[ns]")

    want_snaps = a.ref_snaps(df, bin_, dict(snap, at=listed(df)) if "at" in snap else snap, aggs, spans) if snap else None

    def once(chunk, buffer):
        before = chunk.copy()
        kw = binning(plan, chunk)
        if snap:
            if "freq" in snap:
                kw["snap_by"] = a.grouper(dict(snap, closed=bin_["closed"]))
            else:
                kw["snap_by"] = listed(chunk)
        if plan.get("zero"):
            kw["error_on_0"] = False
        agg = dict(aggs)
        if plan["setup"]:
            # Setups prepared once and for all, as 'AggStream' does.
            kw["bin_by"] = setup_segmentby(kw.pop("bin_by"), kw.pop("bin_on", None), kw.pop("ordered_on"), kw.get("snap_by"))
            kw["snap_by"] = kw.get("snap_by")
            res = cumsegagg(data=chunk, agg=setup_cumsegagg(agg, chunk.dtypes.to_dict()), buffer=buffer, **kw)
            return res if snap else (res, None)
        res = cumsegagg(data=chunk, agg=agg, buffer=buffer, **kw)
        if not chunk.equals(before):
            raise Violation("input-modified", "cumsegagg modified its input frame")
        if agg != aggs:
            raise Violation("input-modified", "cumsegagg modified its 'agg' argument")
        return res if snap else (res, None)

    def rows_of(frame):
        f = frame.copy()
        f.index.name = "label"
        f = f.reset_index()
        return a.canon(f, "label", aggs)

    def stitch(parts):
        out = {}
        for p in parts:
            for r in p:
                out[r[0]] = r
        return list(out.values())

    single_b, single_s = call("single pass", lambda: once(df, None), "single-pass-failed")
    got = rows_of(single_b)
    if got != want_bins:
        raise Violation("single-pass-bins", f"single pass: {a.diff(got, want_bins)}")
    if snap:
        got = rows_of(single_s)
        if got != want_snaps:
            raise Violation("single-pass-snapshots", f"single pass: {a.diff(got, want_snaps)}")
    edges = [0, *plan["cuts"], len(df)]
    buffer = {}
    bins, snaps = [], []
    for j, (x, y) in enumerate(zip(edges, edges[1:])):
        chunk = df.iloc[x:y].reset_index(drop=True)
        rb, rs = call(f"chunk {j} (rows {x}:{y})", lambda: once(chunk, buffer), "chunk-failed")
        bins.append(rows_of(rb))
        if snap:
            snaps.append(rows_of(rs))
        if j < len(plan["pickle"]) and plan["pickle"][j]:
            buffer = pickle.loads(pickle.dumps(buffer))
            ctx.stats["buffer_pickled"] += 1
        ctx.stats["chunks"] += 1
    got = stitch(bins)
    ctx.note(repr(got))
    if got != want_bins:
        raise Violation("chunked-bins", f"cut at {plan['cuts']}: {a.diff(got, want_bins)}")
    if snap:
        got = stitch(snaps)
        ctx.note(repr(got))
        if got != want_snaps:
            raise Violation("chunked-snapshots", f"cut at {plan['cuts']}: {a.diff(got, want_snaps)}")
    ins = {s for s, _, _ in spans}
    ctx.nontrivial = any(c not in ins for c in plan["cuts"])
    ctx.seen(sorted(bin_.items()), sorted(snap.items()) if snap and "freq" in snap else bool(snap), tuple((c in ins, df["ts"].iloc[c] == df["ts"].iloc[c - 1]) for c in plan["cuts"]), len(spans))
    ctx.stats["bins"] += len(spans)
    ctx.stats["null_bins"] += sum(s[0] == s[1] for s in spans)
    ctx.stats["cuts"] += len(plan["cuts"])
    ctx.sample = {k: plan[k] for k in ("unit", "bin", "snap", "aggs", "cuts")} | {"rows": plan["rows"][:10]}


def drop_rows(plan, keep):
    """The plan with only rows of these indices, cuts moved accordingly."""
    import bisect

    rows = [plan["rows"][j] for j in keep]
    cuts = sorted({c for c in (bisect.bisect_left(keep, c) for c in plan["cuts"]) if 0 < c < len(rows)})
    return dict(plan, rows=rows, cuts=cuts, pickle=(plan["pickle"] + [0] * 20)[: len(cuts) + 1])


def shrink(plan):
    for cand in shrink_list(list(range(len(plan["rows"]))), 1):
        yield drop_rows(plan, cand)
    for cuts in shrink_list(plan["cuts"], 0):
        yield dict(plan, cuts=cuts, pickle=plan["pickle"][: len(cuts) + 1])
    if len(plan["aggs"]) > 1:
        for k in plan["aggs"]:
            yield dict(plan, aggs={x: y for x, y in plan["aggs"].items() if x != k})
    if any(plan["pickle"]):
        yield dict(plan, pickle=[0] * len(plan["pickle"]))
    if plan.get("nulls"):
        yield dict(plan, nulls=None)
    if plan["snap"]:
        yield dict(plan, snap=None)
        if len(plan["snap"].get("at") or []) > 1:
            for at in shrink_list(plan["snap"]["at"], 1):
                yield dict(plan, snap=dict(plan["snap"], at=at))
    if plan["unit"] not in (60, 86400):
        yield dict(plan, unit=60 if plan["unit"] < 3600 else 86400)
    for k in ("origin", "offset"):
        if plan["bin"].get(k):
            yield dict(plan, bin={x: y for x, y in plan["bin"].items() if x != k})
    if plan["rows"][0][0]:
        t = plan["rows"][0][0]
        yield dict(plan, rows=[[r[0] - t, *r[1:]] for r in plan["rows"]])
    if any(r[1] > 1 for r in plan["rows"]):
        yield dict(plan, rows=[[r[0], 1, r[2], r[3]] for r in plan["rows"]])
