"""
Aggregation workloads: seeds, key configurations, reference results.

Seed rows are [t, v, c, b]: t in units of `unit` seconds from T0, v > 0 an int
from which the float and datetime columns derive, c a category for filters, b a
non-decreasing int for the user-defined binning.
"""
import numpy as np
import pandas as pd
from pandas.core.resample import _get_timestamp_range_edges
from pandas.tseries.offsets import Tick

T0 = pd.Timestamp("2020-01-01")
AGGS = {
    "v_sum": ("v", "sum"), "v_first": ("v", "first"), "v_last": ("v", "last"), "v_min": ("v", "min"), "v_max": ("v", "max"),
    "f_sum": ("f", "sum"), "f_first": ("f", "first"), "f_last": ("f", "last"), "f_min": ("f", "min"), "f_max": ("f", "max"),
    "d_first": ("d", "first"), "d_last": ("d", "last"), "d_min": ("d", "min"), "d_max": ("d", "max"),
    "w_sum": ("w", "sum"), "w_last": ("w", "last"),
}
D0 = pd.Timestamp("1999-01-01")


def seed_frame(rows, unit, on="ts", nulls=None):
    t = np.array([r[0] for r in rows], dtype="int64")
    v = np.array([r[1] for r in rows], dtype="int64")
    d = {}
    if on == "ts":
        d["ts"] = pd.to_datetime(T0.value + t * (unit * 1_000_000_000))
    elif on == "int":
        d["ts"] = t
    else:
        d["ts"] = t * 0.5
    d.update(
        v=v,
        f=v * 0.25 + 0.5,
        d=pd.to_datetime(D0.value + v * 3_600_000_000_000),
        w=(v * 7) % 11 + 1,
        c=np.array([r[2] for r in rows], dtype="int64"),
        b=np.array([r[3] for r in rows], dtype="int64"),
    )
    df = pd.DataFrame(d)
    df["ts"] = d["ts"]
    if nulls:
        df.loc[(v * 5 + t) % nulls == 0, "f"] = np.nan
        df.loc[(v + t) % (nulls + 1) == 1, "d"] = pd.NaT
    return df


def gen_rows(rng, n, strict=False, day=False):
    """Rows with ties, bursts and gaps; with `day`, gaps that cross days."""
    t = rng.choice([0, 0, 1, 3, 7, 13])
    rows = []
    b = rng.randint(1, 3)
    style = rng.choice(["dense", "mixed", "sparse"])
    lo = 1 if strict else 0
    for k in range(n):
        rows.append([t, rng.randint(1, 40), rng.randrange(4), b])
        x = rng.random()
        if style == "dense":
            t += rng.choice([lo, lo, 1, 1, 2])
        elif style == "mixed":
            t += max(lo, rng.choice([0, 0, 1, 2, 3, 5, 8]))
        else:
            t += max(lo, rng.choice([0, 1, 4, 11, 30]))
        if x < 0.08:
            t += rng.choice([10, 23, 60, 61, 120])
        if day and x > 0.93:
            t += rng.choice([300, 700, 1441, 3000])
        if rng.random() < 0.3:
            b += rng.choice([1, 1, 1, 2])
    return rows


def grouper(g, key="ts"):
    kw = {}
    for k in ("closed", "label", "offset"):
        if g.get(k) is not None:
            kw[k] = g[k]
    if g.get("origin") is not None:
        kw["origin"] = g["origin"] if g["origin"] in ("start", "start_day", "epoch") else pd.Timestamp(g["origin"])
    return pd.Grouper(key=key, freq=g["freq"], **kw)


def none(x):
    """Comparable form of a value read from a result."""
    if x is None or x is pd.NaT or x is pd.NA:
        return None
    if isinstance(x, float):
        return None if x != x else (int(x) if x == int(x) else x)
    if isinstance(x, (pd.Timestamp, np.datetime64)):
        x = pd.Timestamp(x)
        return None if x is pd.NaT else x.isoformat()
    if isinstance(x, (np.integer, int)):
        return int(x)
    if isinstance(x, np.floating):
        return none(float(x))
    return x


def agg_rows(df, aggs):
    """Aggregation of the rows of `df` (None when there is none)."""
    out = []
    for col, fn in aggs.values():
        if not len(df):
            out.append(None)
            continue
        s = df[col]
        if fn in ("min", "max", "sum") and s.isna().any():
            # Nulls are values as others: a sum is then null, minimum and maximum are those of successive comparisons.
            v = s.to_numpy() if s.dtype.kind == "f" else s.to_numpy().view("int64")
            x = v[0]
            for y in v[1:]:
                x = x + y if fn == "sum" else y if (y > x if fn == "max" else y < x) else x
            out.append(none(x if s.dtype.kind == "f" else pd.Timestamp(x)))
            continue
        x = s.iloc[0] if fn == "first" else s.iloc[-1] if fn == "last" else getattr(s, fn)()
        out.append(none(x))
    return tuple(out)


def ref_bins(df, bin_, aggs):
    """
    Bins of a frame: list of (label, values...), and bin spans for snapshots
    as (first row, row after last, end or None, null).
    """
    n = len(df)
    if not n:
        return [], []
    out, spans = [], []
    if "freq" in bin_:
        g = grouper(bin_)
        lab, ends, _ = _edges(df["ts"], g)
        pos = np.searchsorted(df["ts"].to_numpy(), ends.to_numpy(), side="right" if g.closed == "right" else "left")
        start = 0
        for label, end, stop in zip(lab, ends, pos):
            spans.append((start, int(stop), end))
            out.append((none(label), *agg_rows(df.iloc[start:stop], aggs)))
            start = int(stop)
        while out and spans[-1][0] == spans[-1][1]:
            out.pop(), spans.pop()
        return out, spans
    if "ends" in bin_:
        ends = pd.DatetimeIndex([T0 + pd.Timedelta(seconds=e) for e in bin_["ends"]])
        pos = np.searchsorted(df["ts"].to_numpy(), ends.to_numpy(), side="right" if bin_["closed"] == "right" else "left")
        start = 0
        for j, (end, stop) in enumerate(zip(ends, pos)):
            spans.append((start, int(stop), end))
            out.append((j if bin_["label"] else none(end), *agg_rows(df.iloc[start:stop], aggs)))
            start = int(stop)
        while out and spans[-1][0] == spans[-1][1]:
            out.pop(), spans.pop()
        return out, spans
    if "rows" in bin_:
        k = bin_["rows"]
        cuts = list(range(0, n, k)) + [n]
        labels = [df["ts"].iloc[c] for c in cuts[:-1]]
    else:
        b = df["b"].to_numpy()
        cuts = [0] + [i for i in range(1, n) if b[i] != b[i - 1]] + [n]
        labels = [df["b"].iloc[c] for c in cuts[:-1]]
    right = bin_.get("closed") == "right"
    for j, (a, z) in enumerate(zip(cuts, cuts[1:])):
        last = j == len(cuts) - 2
        if right:
            end = df["ts"].iloc[z - 1]
            if last and ("rows" not in bin_ or z - a < bin_["rows"]):
                end = None
        else:
            end = None if last else df["ts"].iloc[z]
        spans.append((a, z, end))
        out.append((none(labels[j]), *agg_rows(df.iloc[a:z], aggs)))
    return out, spans


def _edges(ts, g):
    """Labels and ends of the bins of pandas' own grouper over these values."""
    if not isinstance(g.freq, Tick) or pd.Timedelta(g.freq) > pd.Timedelta("1D"):
        # Right-closed, pandas ends these at the end of a day, or fails. Edges are the ones it generates.
        start, end = _get_timestamp_range_edges(ts.iloc[0], ts.iloc[-1], g.freq, unit="ns", closed=g.closed, origin=g.origin, offset=g.offset)
        edges = pd.date_range(start, end, freq=g.freq)
        return (edges[1:] if g.label == "right" else edges[:-1]), edges[1:], None
    binner = pd.Series(1, index=pd.DatetimeIndex(ts)).groupby(pd.Grouper(freq=g.freq, closed=g.closed, label="left", origin=g.origin, offset=g.offset)).size()
    left = binner.index
    right = pd.Series(1, index=pd.DatetimeIndex(ts)).groupby(pd.Grouper(freq=g.freq, closed=g.closed, label="right", origin=g.origin, offset=g.offset)).size().index
    return (right if g.label == "right" else left), right, None


def ref_snaps(df, bin_, snap, aggs, spans, first=None):
    """Snapshots: at each instant, the rows of the in-progress bin seen so far."""
    if not len(df):
        return []
    closed = bin_["closed"]
    ts = df["ts"]
    if "freq" in snap:
        g = grouper(dict(snap, closed=closed))
        labels, ends, _ = _edges(ts, g)
    else:
        ends = labels = pd.DatetimeIndex(snap["at"])
    out = []
    tn = ts.to_numpy()
    side = "right" if closed == "right" else "left"
    for label, e in zip(labels, ends):
        pos = int(np.searchsorted(tn, np.datetime64(e), side=side))
        # In-progress bin: the first one which does not end before the instant.
        cur = None
        for a, z, end in spans:
            if end is None or end >= e:
                cur = (a, z)
                break
        rows = df.iloc[cur[0]:max(cur[0], min(cur[1], pos))] if cur else df.iloc[:0]
        out.append((none(label), *agg_rows(rows, aggs)))
        if pos == len(tn):
            break
    return out


def canon(df, label, aggs):
    """Rows of a result frame as tuples; `label` is its column with labels."""
    cols = [label, *aggs]
    if list(sorted(df.columns)) != sorted(cols):
        raise ValueError(f"columns {list(df.columns)} instead of {cols}")
    return [tuple(none(x) for x in r) for r in df[cols].astype(object).itertuples(index=False, name=None)]


def diff(got, want, n=6):
    """Short description of how two results differ."""
    g, w = dict.fromkeys(got), dict.fromkeys(want)
    extra = [x for x in got if x not in w][:n]
    miss = [x for x in want if x not in g][:n]
    return f"{len(got)} rows instead of {len(want)}; not expected: {extra}; missing: {miss}" + ("" if extra or miss else f"; order or multiplicity differs: labels {[x[0] for x in got][:40]}")


def pick_aggs(rng):
    n = rng.choice([1, 2, 3, 5])
    names = rng.sample(sorted(AGGS), n)
    return {k: list(AGGS[k]) for k in names}


FREQS = ["1min", "2min", "3min", "5min", "7min", "10min", "13min", "1H", "4H", "1D"]


# Over days and more, including periods that are not of a fixed length.
CALENDAR = ["12H", "1D", "2D", "3D", "36H", "B", "W", "W-WED", "2W", "MS", "2MS", "M", "SM"]
CALENDAR_UNITS = [3600, 5 * 3600, 43200, 86400, 3 * 86400]
SECONDS = {"B": 86400, "W": 604800, "W-WED": 604800, "2W": 1209600, "MS": 2600000, "2MS": 5200000, "M": 2600000, "SM": 1300000}


def seconds(freq):
    """Length of a period, possibly approximate."""
    return SECONDS.get(freq) or pd.Timedelta(freq).total_seconds()


def to_calendar(rng, plan, configs):
    """Turn bins and snapshots of a plan into ones over days and more."""
    plan["unit"] = rng.choice(CALENDAR_UNITS)
    for g in configs:
        if "freq" in g:
            g["freq"] = rng.choice(CALENDAR)


def pick_grouper(rng, freqs=FREQS, origins=True):
    g = {"freq": rng.choice(freqs), "closed": rng.choice(["left", "right"]), "label": rng.choice(["left", "right"])}
    if origins and rng.random() < 0.3:
        g["origin"] = rng.choice(["start", "epoch", "start_day", "2019-12-31 23:58:30"])
    if origins and rng.random() < 0.15:
        g["offset"] = rng.choice(["30s", "1min", "90min"])
    return g


# Kernel 'jcsagg' is compiled (seconds) per tuple of aggregation functions and
# dtype. It runs compiled for these, otherwise its own source is interpreted.
JIT = [{"v_sum": ["v", "sum"]}, {"v_sum": ["v", "sum"], "d_last": ["d", "last"]}, {"f_sum": ["f", "sum"], "f_last": ["f", "last"]}]


def pick_jit(rng, p=0.3):
    """Aggregation functions, and if kernel runs compiled."""
    if rng.random() < p:
        return {"aggs": dict(rng.choice(JIT)), "jit": True}
    return {"aggs": pick_aggs(rng), "jit": False}


def interpreted(f):
    """Source of a numba function, as lenient as compiled code to row indices being floats."""
    def g(*args):
        return f.py_func(*[x.astype("int64") if n == "next_chunk_starts" and x.dtype.kind == "f" else x for n, x in zip(names, args)])

    names = f.py_func.__code__.co_varnames
    g.__numba_dispatcher__ = f
    return g


def set_jit(jit):
    """Swap functions numba would compile on first call with their source, or back."""
    import sys

    from numba.core.dispatcher import Dispatcher

    for name, mod in sorted(sys.modules.items()):
        if not name.startswith("oups.") or mod is None:
            continue
        for k, f in list(vars(mod).items()):
            if isinstance(f, Dispatcher) and f._can_compile and not jit:
                setattr(mod, k, interpreted(f))
            elif jit and hasattr(f, "__numba_dispatcher__"):
                setattr(mod, k, f.__numba_dispatcher__)
