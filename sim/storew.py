"""Store workloads: indexers, batches, reading through every path, reference model."""
import copy
import os
import pickle
import random
import shutil

import numpy as np
import pandas as pd

from sim import boot, fsim
from sim.core import Violation

T0 = pd.Timestamp("2020-01-01")
_idx = {}


def indexers():
    """Key schemas; built once oups is loaded."""
    if _idx:
        return _idx
    from oups import sublevel, toplevel

    @toplevel
    class Flat:
        name: str

    @toplevel
    class Two:
        name: str
        num: int

    @sublevel
    class _Low:
        leaf: str
        n: int

    @toplevel
    class Deep:
        top: str
        low: _Low

    @sublevel
    class _Bot:
        b: int

    @sublevel
    class _Mid:
        m: str
        bot: _Bot

    @toplevel(fields_sep=".")
    class Deeper:
        top: str
        num: int
        mid: _Mid

    _idx.update(flat=Flat, two=Two, deep=Deep, deeper=Deeper)
    _idx["_sub"] = (_Low, _Mid, _Bot)
    return _idx


def indexer(schema):
    """Class of keys; "two~+" is the one of "two", with its fields separated by "+"."""
    ix = indexers()
    if schema not in ix:
        from oups import toplevel

        name, _, sep = schema.partition("~")
        base = ix[name]
        cls = type(base.__name__, (), {"__annotations__": dict(base.__annotations__), "__module__": __name__, "__qualname__": base.__name__})
        ix[schema] = toplevel(fields_sep=sep)(cls)
    return ix[schema]


def mk_key(schema, spec):
    cls = indexer(schema)
    schema = schema.partition("~")[0]
    low, mid, bot = indexers()["_sub"]
    if schema in ("flat", "two"):
        return cls(*spec)
    if schema == "deep":
        return cls(spec[0], low(spec[1], spec[2]))
    return cls(spec[0], spec[1], mid(spec[2], bot(spec[3])))


def key_path(schema, spec):
    """The documented location of a key below the store's base directory."""
    schema, _, sep = schema.partition("~")
    sep = sep or ("." if schema == "deeper" else "-")
    if schema in ("flat", "two"):
        return sep.join(map(str, spec))
    if schema == "deep":
        return f"{spec[0]}/{spec[1]}{sep}{spec[2]}"
    return f"{spec[0]}{sep}{spec[1]}/{spec[2]}/{spec[3]}"


# --------------------------------------------------------------------------- #
# Batches. A row is [o, g, uid]; every other column derives from uid.
# --------------------------------------------------------------------------- #
BIG = 2**62 + 1


def null_cols(u):
    """Values of the nullable columns (float, integer, timestamp, bool, string) of the row with uid `u`."""
    # Runs of nulls long enough to cover whole row groups.
    hole = (u // 5) % 2
    return (
        None if hole else u * 0.25,
        None if (u // 4) % 3 == 1 else BIG + 2 * u,
        None if (u // 6) % 2 == 0 else u,
        bool(u % 3),
        None if u % 4 == 0 or (u // 7) % 3 == 0 else ("" if u % 5 == 0 else f"x{u}"),
        BIG + u,
    )


INF = float("inf")


def typed_cols(u):
    """Values of the columns of other types of the row with uid `u`."""
    return (u % 256 - 128, u * 7 % 65536, -u * 1000, u * 0.5, [INF, -INF, 1e300, 5e-324, -0.5][u % 5], u * 61 * 10**9 + u % 1000, f"\u00e9{u}\n" if u % 3 else "\u4f60,\"")


TYPED = {"i8": "int8", "u16": "uint16", "i32": "int32", "f32": "float32", "fi": "float64"}


def split_kind(kind):
    """Kind of the ordered column, and whether there are nullable columns ("n"), columns of other types ("t") or a column multi-index ("m")."""
    k, _, n = kind.partition("+")
    return k, n


MIDX = {"o": ("o", ""), "g": ("k", "g"), "uid": ("k", "uid"), "f": ("x", "f"), "s": ("x", "s")}
MIDX_NAMES = ["l0", "l1"]


def col_name(c, kind):
    """Name of a column for the parameters of a write (vaex names in case of a multi-index)."""
    return str(MIDX[c]) if kind.endswith("+m") else c


def frame(rows, kind="int"):
    kind, wide = split_kind(kind)
    o = [r[0] for r in rows]
    uid = np.array([r[2] for r in rows], dtype="int64")
    if kind == "ts":
        oc = pd.to_datetime([T0 + pd.Timedelta(minutes=int(x)) for x in o])
    elif kind == "tns":
        oc = pd.to_datetime([T0 + pd.Timedelta(int(x), "ns") for x in o])
    elif kind == "float":
        oc = np.array([x / 4 for x in o], dtype="float64")
    else:
        oc = np.array(o, dtype="int64")
    df = pd.DataFrame(
        {
            "o": oc,
            "g": np.array([r[1] for r in rows], dtype="int64"),
            "uid": uid,
            "f": uid * 0.5 + 0.25,
            "s": [f"s{u % 7}_{u}" for u in uid.tolist()],
        },
    )
    if wide == "m":
        df.columns = pd.MultiIndex.from_tuples([MIDX[c] for c in df.columns], names=MIDX_NAMES)
    if wide == "t":
        n = list(zip(*[typed_cols(u) for u in uid.tolist()]))
        for v, (c, dtype) in zip(n, TYPED.items()):
            df[c] = np.array(v, dtype=dtype)
        df["dn"] = pd.to_datetime([T0 + pd.Timedelta(x, "ns") for x in n[5]])
        df["us"] = pd.Series(list(n[6]), dtype="object")
    if wide == "n":
        n = list(zip(*[null_cols(u) for u in uid.tolist()]))
        df["nf"] = np.array(n[0], dtype="float64")
        df["ni"] = pd.array(n[1], dtype="Int64")
        df["nd"] = pd.to_datetime([pd.NaT if x is None else T0 + pd.Timedelta(minutes=x) for x in n[2]]).astype("datetime64[ns]")
        df["nb"] = np.array(n[3], dtype="bool")
        # With only nulls in a column of objects, a dataset can't be told to be one of strings.
        df["ns"] = pd.Series(list(n[4]), dtype="object" if any(x is not None for x in n[4]) else "string")
        df["big"] = np.array(n[5], dtype="int64")
    return df


def _plain(x):
    return None if x is None or x is pd.NaT or x is pd.NA or x != x else x


def canon(df, kind="int"):
    """Rows of a frame read back, as a list of plain tuples."""
    kind, wide = split_kind(kind)
    if wide == "m":
        if isinstance(df.columns, pd.MultiIndex):
            ok = list(df.columns) == list(MIDX.values()) and list(df.columns.names) == MIDX_NAMES
        else:
            # vaex
            ok = list(df.columns) == list(map(str, MIDX.values()))
        if not ok:
            raise Violation("columns-differ", f"columns read: {list(df.columns)}, levels {list(df.columns.names)}")
        df.columns = list(MIDX)
    if not len(df.columns):
        return []
    o = df["o"]
    if kind == "ts":
        o = ((pd.to_datetime(o) - T0) // pd.Timedelta(minutes=1)).tolist()
    elif kind == "tns":
        o = ((pd.to_datetime(o) - T0) // pd.Timedelta(1, "ns")).tolist()
    elif kind == "float":
        o = [round(x * 4, 6) for x in o.tolist()]
    else:
        o = o.tolist()
    cols = [o] + [df[c].tolist() for c in ("g", "uid", "f", "s")]
    if wide == "t":
        for c, dtype in TYPED.items():
            if str(df[c].dtype) != dtype:
                raise Violation("columns-differ", f"column {c} of type {dtype} is read as {df[c].dtype}")
            cols.append(df[c].tolist())
        cols += [((df["dn"] - T0) // pd.Timedelta(1, "ns")).tolist(), df["us"].tolist()]
    if wide == "n":
        nd = ((df["nd"] - T0) / pd.Timedelta(minutes=1)).tolist()
        cols += [[_plain(x) for x in v] for v in (df["nf"].tolist(), df["ni"].tolist(), nd, df["nb"].tolist(), df["ns"].tolist(), df["big"].tolist())]
    return [tuple(r) for r in zip(*cols)]


def expect_row(r, kind="int"):
    u = r[2]
    return (r[0], r[1], u, u * 0.5 + 0.25, f"s{u % 7}_{u}") + (null_cols(u) if kind.endswith("+n") else typed_cols(u) if kind.endswith("+t") else ())


def to_vaex(df, form="plain"):
    import pyarrow as pa
    from vaex import concat, from_pandas

    multi = isinstance(df.columns, pd.MultiIndex)
    n = len(df)
    if form in ("slice", "filter", "extract"):
        # Other rows around those to write.
        df = pd.concat([df.iloc[-1:], df, df.iloc[:1], df], ignore_index=True)
    elif form == "sort":
        df = df.iloc[::-1]

    def one(df):
        v = from_pandas(df)
        if not multi:
            for c in ("s", "ns"):
                if c in df.columns:
                    # Type of strings is lost by vaex when all of them are null.
                    v[c] = pa.array([_plain(x) for x in df[c].tolist()], type=pa.string())
        return v

    if form == "concat" and n > 1:
        return concat([one(df.iloc[: n // 2]), one(df.iloc[n // 2:])])
    v = one(df)
    if form == "slice":
        return v[1:n + 1]
    if form in ("filter", "extract"):
        names = v.get_column_names()
        v["sel"] = np.arange(len(df))
        v = v[(v.sel >= 1) & (v.sel <= n)]
        return (v.extract() if form == "extract" else v)[names]
    if form == "virtual" and not multi:
        names = v.get_column_names()
        v.rename("uid", "uid_")
        v["uid"] = v["uid_"] + 0
        return v[names]
    if form == "sort":
        names = v.get_column_names()
        v["sel"] = -np.arange(n)
        return v.sort("sel")[names]
    return v


VAEX_FORMS = ["plain", "plain", "slice", "filter", "extract", "virtual", "concat", "sort"]
PANDAS_FORMS = ["plain", "plain", "gaps", "same", "times", "view", "columns"]


def to_pandas(df, form="plain"):
    """The same rows, in frames users have at hand."""
    n = len(df)
    if form == "gaps":
        df.index = np.arange(n)[::-1] * 3 + 7
    elif form == "same":
        df.index = np.zeros(n, dtype="int64")
    elif form == "times":
        df.index = pd.date_range(T0, periods=n, freq="D", name="index")
    elif form == "view":
        df = pd.concat([df.iloc[-1:], df, df.iloc[:1]]).iloc[1:n + 1]
    elif form == "columns" and not isinstance(df.columns, pd.MultiIndex):
        df = df[list(df.columns)[::-1]]
    return df


def form_of(op):
    """How data is handed over: as told by the operation, or derived from its rows."""
    forms = VAEX_FORMS if op.get("vaex") else PANDAS_FORMS
    if op.get("form") in forms:
        return op["form"]
    if op.get("expand"):
        return "plain"
    return forms[(op["rows"][0][2] * 5 + len(op["rows"])) % len(forms)] if op["rows"] else "plain"


def write_kwargs(op, kind):
    kw = {}
    if op.get("ordered"):
        kw["ordered_on"] = col_name("o", kind)
    if op.get("dup") is not None:
        d = op["dup"]
        kw["duplicates_on"] = [col_name(c, kind) for c in d] if isinstance(d, list) else col_name(d, kind)
    if op.get("expand"):
        kw.update(cmidx_expand=True, cmidx_levels=list(MIDX_NAMES))
    for a, b in (("mrgs", "max_row_group_size"), ("nirgs", "max_nirgs"), ("comp", "compression")):
        if op.get(a) is not None:
            kw[b] = op[a]
    if op.get("md") is not None:
        kw["metadata"] = dict(op["md"])
    return kw


def same_inputs(data, kw, kept, op):
    """Data and parameters given to a write are as they were."""
    was, cols, kw_was = kept
    if kw != kw_was:
        raise Violation("input-modified", f"parameters given to the write were {kw_was}, and are {kw} after it")
    if op.get("vaex"):
        if data.get_column_names() != was.get_column_names() or len(data) != len(was) or any(data[c].tolist() != was[c].tolist() for c in was.get_column_names() if was[c].dtype != float):
            raise Violation("input-modified", f"vaex frame given to the write was {was}, and is {data} after it")
    elif list(data.columns) != list(cols) or list(data.columns.names) != list(cols.names) or not data.index.equals(was.index) or data.index.names != was.index.names or not data.equals(was):
        raise Violation("input-modified", f"frame given to the write was\n{was}\nand is\n{data}\nafter it")


def do_write(ps, key, op, kind, inputs=False):
    df = frame(op["rows"], kind)
    if op.get("expand") and not op.get("vaex"):
        df.columns = list(map(str, df.columns))
    data = to_vaex(df, form_of(op)) if op.get("vaex") else to_pandas(df, form_of(op))
    kw = write_kwargs(op, kind)
    if inputs:
        kept = data.copy(), data if op.get("vaex") else data.copy().columns, copy.deepcopy(kw)
    if op.get("oups_md") is not None:
        from oups.store.writer import OUPS_METADATA

        OUPS_METADATA[key] = dict(op["oups_md"])
    if op.get("via") == "item":
        ps[key] = (kw, data) if kw else data
    else:
        ps.set(key, data, **kw)
    if inputs:
        same_inputs(data, kw, kept, op)


def open_store(base, schema):
    from oups import ParquetSet

    return ParquetSet(base, indexer(schema))


# --------------------------------------------------------------------------- #
# Reading.
# --------------------------------------------------------------------------- #
PATHS = ("pdf", "vdf", "pf")


def vdf_frame(vdf, kind):
    if not kind.endswith("+n"):
        return vdf.to_pandas_df()
    t = vdf.to_arrow_table()
    df = t.to_pandas()
    df["ni"] = pd.array(t["ni"].to_pylist(), dtype="Int64")
    return df


def read(handle, path, kind="int"):
    if path == "pdf":
        return canon(handle.pdf, kind)
    if path == "vdf":
        # Through arrow: conversion of integers with nulls to pandas by vaex is lossy.
        return canon(vdf_frame(handle.vdf, kind), kind)
    return canon(handle.pf.to_pandas(), kind)


def user_md(handle):
    """User-defined metadata: everything but pandas' and oups' own entries."""
    md = {}
    for k, v in handle.metadata.items():
        k = k.decode() if isinstance(k, bytes) else k
        if k in ("pandas", "oups"):
            continue
        md[k] = v.decode() if isinstance(v, bytes) else v
    return md


def oups_md(handle):
    return handle._oups_metadata


def observe(ps, key, kind="int", paths=PATHS, md=True):
    """Everything a user can see of a key; raises what reading raises."""
    out = {}
    for p in paths:
        out[p] = read(ps[key], p, kind)
    if md:
        out["md"] = user_md(ps[key])
        out["oups_md"] = oups_md(ps[key])
    return out


def call(desc, fn, prop_kind="operation-failed"):
    """A fault-free call of the code under test: it must not raise."""
    try:
        return fn()
    except Violation:
        raise
    except Exception as e:
        import traceback

        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/oups/" in f.filename]
        loc = f"{os.path.basename(where[-1].filename)}:{where[-1].name}" if where else ""
        raise Violation(prop_kind, f"{desc}: {type(e).__name__}: {e} [{loc}]\n" + "".join(traceback.format_list(tb[-6:])), exc=type(e).__name__)


def tree(base):
    """Relative paths of all files and directories below base."""
    out = {}
    for root, dirs, files in os.walk(base):
        rel = os.path.relpath(root, base)
        for d in dirs:
            out[os.path.normpath(os.path.join(rel, d))] = None
        for f in files:
            with open(os.path.join(root, f), "rb") as fh:
                out[os.path.normpath(os.path.join(rel, f))] = fh.read()
    return out


def copy_tree(src, dst):
    shutil.copytree(src, dst, copy_function=shutil.copyfile)


# --------------------------------------------------------------------------- #
# Reference model of a dataset.
# --------------------------------------------------------------------------- #
def ident(r, dup):
    """Identity of a row [o, g, uid] for these 'duplicates_on'."""
    if dup == [] :
        return tuple(r)
    names = [dup] if isinstance(dup, str) else list(dup)
    ids = [r[0]]
    if "g" in names:
        ids.append(r[1])
    if "uid" in names:
        ids.append(r[2])
    return tuple(ids)


class Model:
    """Rows a dataset must hold."""

    def __init__(self):
        self.batches = []

    def write(self, op):
        self.batches.append(op)

    def rows(self):
        return [tuple(r) for b in self.batches for r in b["rows"]]


def check_content(got, batches, dup, ordered, what, kind="int"):
    """
    Compare rows read with the reference. `batches`: list of lists of rows.
    """
    exp_all = {}
    for bi, b in enumerate(batches):
        for r in b:
            exp_all[r[2]] = (bi, r)
    # Values unchanged, no invented row.
    for row in got:
        if row[2] not in exp_all:
            raise Violation("invented-row", f"{what}: row {row} was never written")
        if tuple(row) != expect_row(exp_all[row[2]][1], kind):
            raise Violation("altered-row", f"{what}: row read {row}, written {expect_row(exp_all[row[2]][1], kind)}")
    uids = [row[2] for row in got]
    if len(set(uids)) != len(uids):
        d = sorted({u for u in uids if uids.count(u) > 1})
        raise Violation("duplicated-row", f"{what}: rows with uid {d[:10]} read more than once")
    have = set(uids)
    if dup is None:
        miss = sorted(set(exp_all) - have)
        if miss:
            raise Violation("lost-row", f"{what}: rows with uid {miss[:10]} are missing ({len(miss)} of {len(exp_all)})")
    else:
        last_batch, last_uid = {}, {}
        for bi, b in enumerate(batches):
            for r in b:
                k = ident(r, dup)
                last_batch[k] = bi
                last_uid[k] = r[2]
        for k, u in last_uid.items():
            if u not in have:
                raise Violation("lost-row", f"{what}: latest row of identity {k} (uid {u}) is missing")
        for u in have:
            bi, r = exp_all[u]
            if bi != last_batch[ident(r, dup)]:
                raise Violation("stale-duplicate", f"{what}: row {r} of batch {bi} still there, identity rewritten in batch {last_batch[ident(r, dup)]}")
    if ordered:
        os_ = [row[0] for row in got]
        if any(a > b for a, b in zip(os_, os_[1:])):
            raise Violation("not-ordered", f"{what}: values of 'o' read in order {os_[:80]}")
    else:
        exp_uids = [r[2] for b in batches for r in b]
        if uids != exp_uids:
            raise Violation("append-order", f"{what}: uids read in order {uids[:60]}, written in order {exp_uids[:60]}")


# --------------------------------------------------------------------------- #
# Generators.
# --------------------------------------------------------------------------- #
class BatchGen:
    """Batches positioned relative to what the dataset already holds."""

    def __init__(self, rng, dom=60, max_rows=14, dup_g=3, uniq=False, uid0=0):
        self.rng, self.dom, self.max_rows, self.dup_g = rng, dom, max_rows, dup_g
        self.os = []
        self.uid = uid0
        self.uniq = uniq  # distinct values of 'o' in a batch and overall
        self.per_batch_unique_ident = False
        self.dup = None
        self.used = set()

    def _vals(self, lo, hi, n):
        r = self.rng
        lo, hi = int(lo), int(max(hi, lo))
        if self.uniq:
            pool = [x for x in range(lo, hi + 1) if x not in self.used]
            r.shuffle(pool)
            v = sorted(pool[:n])
            self.used.update(v)
            return v
        if r.random() < 0.25:
            base = r.randint(lo, hi)
            return [base] * min(n, r.randint(1, n))
        return sorted(r.randint(lo, hi) for _ in range(n))

    def batch(self, where=None):
        r = self.rng
        n = r.choice([1, 1, 2, 3, 4, 5, 6, 8, 10, self.max_rows])
        if not self.os:
            lo = r.randint(0, 30)
            v = self._vals(lo, lo + r.choice([0, 5, 15, 30]) + n, n)
        else:
            mn, mx = min(self.os), max(self.os)
            srt = sorted(set(self.os))
            gaps = [(a + 1, b - 1) for a, b in zip(srt, srt[1:]) if b - a > 1]
            where = where or r.choice(["after", "after", "after_far", "tail", "inside", "gap", "gap", "before", "before_touch", "span", "edge"])
            if where == "after":
                v = self._vals(mx + 1, mx + 1 + n * 2, n)
            elif where == "after_far":
                v = self._vals(mx + 6, mx + 8 + n * 2, n)
            elif where == "tail":
                v = self._vals(mx - r.randint(0, 4), mx + n, n)
            elif where == "inside":
                a = r.randint(mn, mx)
                v = self._vals(a, min(mx, a + r.choice([0, 2, 6, 12])), n)
            elif where == "gap" and gaps:
                a, b = r.choice(gaps)
                v = self._vals(a, b, n)
            elif where == "before_touch":
                v = self._vals(mn - r.randint(1, 6), mn, n)
            elif where == "span":
                v = self._vals(mn - 1, mx + 1, n)
            elif where == "edge":
                v = self._vals(*(2 * [r.choice([mn, mx, r.choice(srt)])]), n)
            else:
                v = self._vals(mn - 2 - n * 2, mn - 1, n)
        if not v:
            mx = max(self.os) if self.os else 0
            v = [mx + 1]
            self.used.update(v)
        rows = []
        for x in v:
            self.uid += 1
            rows.append([x, r.randrange(self.dup_g), self.uid])
        if self.dup is not None and self.per_batch_unique_ident:
            seen, keep = set(), []
            for row in rows:
                k = ident(row, self.dup)
                if k not in seen:
                    seen.add(k)
                    keep.append(row)
            rows = keep
        self.os += [x[0] for x in rows]
        return rows


def midx_ops(rng, ops):
    """
    Adapt operations to a column multi-index: names of columns are only accepted
    from vaex, where they are strings.
    """
    for n, op in enumerate(ops):
        if op.get("ordered"):
            op["vaex"] = 1
        if op.get("vaex") or (n == 0 and rng.random() < 0.5):
            op["expand"] = 1


MRGS = [None, 2, 3, 4, 5, 6, 8, 10, 13, 20, 50]
NIRGS = [None, None, 0, 1, 2, 3, 5]


def shrink_rows_ops(plan, key="ops"):
    """Candidates with fewer operations, then with fewer rows, then simpler options."""
    from sim.core import shrink_list

    ops = plan[key]
    for cand in shrink_list(ops, 1):
        p = dict(plan)
        p[key] = cand
        yield p
    for i, op in enumerate(ops):
        if op.get("rows") and len(op["rows"]) > 1:
            for cand in shrink_list(op["rows"], 1):
                p = dict(plan)
                p[key] = ops[:i] + [dict(op, rows=cand)] + ops[i + 1:]
                yield p
        if op.get("rows") and form_of(op) != "plain":
            yield dict(plan, **{key: ops[:i] + [dict(op, form="plain")] + ops[i + 1:]})
        for opt in ("vaex", "nirgs", "mrgs", "via", "md", "oups_md", "reopen", "comp", "faults", "fault"):
            if op.get(opt):
                p = dict(plan)
                p[key] = ops[:i] + [{k: v for k, v in op.items() if k != opt}] + ops[i + 1:]
                yield p
    if plan.get("order_seed") is not None:
        yield dict(plan, order_seed=None)
    if plan.get("short_seed") is not None:
        yield dict(plan, short_seed=None)
