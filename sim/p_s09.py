"""S09 An operation that is refused changes nothing."""
import copy
import os
import warnings

from sim import boot, fsim, storef
from sim import storew as w
from sim.core import Violation

LEVEL = "exploration"
RUNS = {"quick": 420, "thorough": 12000}
RULE = ("one run = a seeded history of 4-14 operations over 2-3 keys: writes (appends, insertions, updates, duplicate replacement, pandas or vaex), "
        "each possibly turned into one that has to be refused (unknown column to order on or to find duplicates with, columns other than those recorded, "
        "a value that can't be encoded in an early or late row group, wrong type of key, of data, of tuple, of parameter, unknown compression, "
        "metadata that can't be recorded), reads and deletions of absent keys, openings with a wrong schema, reopenings, and failing file operations while a write is refused; after each, keys (live and "
        "reopened), content by every read path and metadata of all keys are compared with a model in which refused operations do not exist. "
        "Distinct = (kind of refusal, way data would have been written, outcome, dataset existing); non-trivial = a refusal on an existing dataset")
ASSUMPTIONS = ["a refused write which data can't be encoded may leave files that are not part of the dataset",
               "types of columns are those recorded: fastparquet casts data to them"]

SPECS = [["a", 1], ["a", 2], ["b", 1]]
# Refused whatever the state; a creation refused for one of them leaves nothing on disk.
ALWAYS = ["ordered_on", "tuple_on", "key_class", "key_text", "data_type", "swapped", "first_item", "kwarg"]
# Refused on an existing dataset.
EXISTING = ["dup_no_on", "missing", "missing", "extra", "extra", "renamed", "encode", "encode", "comp", "md_value"]
# Possibly refused.
MAYBE = ["dup_on", "empty"]


def gen(rng, i, tier):
    kind = rng.choice(["int", "int", "ts", "float", "int+n", "int+t"])
    n_keys = rng.choice([2, 3])
    gens = [w.BatchGen(rng, uid0=1000 * k) for k in range(n_keys)]
    conf = []
    for g in gens:
        ordered = rng.random() < 0.8
        g.dup = rng.choice([None, None, "g", ["g"], []]) if ordered else None
        conf.append({"ordered": ordered, "dup": g.dup, "mrgs": rng.choice([2, 3, 5, 8, None]), "nirgs": rng.choice(w.NIRGS)})
    ops = []
    for _ in range(rng.choice([4, 6, 9, 14])):
        k = rng.randrange(n_keys)
        x = rng.random()
        if x < 0.06:
            op = {"op": rng.choice(["read_absent", "del_absent", "open_bad"])}
        elif x < 0.1:
            op = {"op": "del", "k": k}
        else:
            g = gens[k]
            bad = rng.choice(ALWAYS + 2 * EXISTING + MAYBE) if rng.random() < 0.6 else None
            if bad == "dup_on" and not conf[k]["ordered"]:
                bad = "dup_no_on"
            keep = list(g.os)
            op = {"op": "write", "k": k, "rows": g.batch(), **conf[k]}
            if bad:
                g.os = keep
                if bad not in MAYBE and rng.random() < 0.3:
                    op["faults"] = [storef.gen_fault(rng, p_crash=0)]
                op.update(bad=bad, at=round(rng.random(), 3), col=rng.choice(["g", "f", "s", "uid", "last"]))
            if rng.random() < 0.4:
                op["vaex"] = 1
            if rng.random() < 0.4:
                op["md"] = {m: f"v{rng.randrange(100)}" for m in rng.sample("abc", rng.randint(1, 2))}
            if rng.random() < 0.3:
                op["oups_md"] = {m: rng.randrange(100) for m in rng.sample("abc", rng.randint(1, 2))}
            if rng.random() < 0.3:
                op["via"] = "item"
        if rng.random() < 0.12:
            op["reopen"] = 1
        ops.append(op)
    return {"kind": kind, "n_keys": n_keys, "ops": ops, "order_seed": rng.randrange(1 << 30)}


class NotStored:
    """A value that can't be recorded."""


def spoil(op, df, kw):
    """Turn data and parameters of a write into those of one that is to be refused."""
    bad = op["bad"]
    col = list(df.columns)[-1] if op["col"] == "last" else op["col"]
    if bad == "ordered_on":
        kw["ordered_on"] = "absent"
    elif bad == "tuple_on":
        kw["ordered_on"] = ("o", "g")
    elif bad == "dup_no_on":
        kw.pop("ordered_on", None)
        kw["duplicates_on"] = ["g"]
    elif bad == "dup_on":
        kw["duplicates_on"] = ["absent"]
    elif bad == "missing":
        df = df.drop(columns=[col])
    elif bad == "extra":
        df[["extra", "zz", "0"][len(df) % 3]] = range(len(df))
    elif bad == "renamed":
        df = df.rename(columns={col: col + "_"})
    elif bad == "encode":
        c = "s" if "us" not in df.columns or op["col"] == "s" else "us"
        n = min(int(op["at"] * len(df)), len(df) - 1)
        df[c] = df[c].astype("object")
        df.iloc[n, list(df.columns).index(c)] = NotStored()
    elif bad == "comp":
        kw["compression"] = "NOT_A_CODEC"
    elif bad == "md_value":
        kw["metadata"] = {"a": NotStored()}
    elif bad == "kwarg":
        kw["max_rows"] = 3
    elif bad == "empty":
        df = df.iloc[:0]
    return df, kw


def refuse(ps, key, op, kind):
    """Try a write that is to be refused. Data and parameters stay as they were."""
    from oups.store.writer import OUPS_METADATA

    df, kw = spoil(op, w.frame(op["rows"], kind), w.write_kwargs(op, kind))
    vaex = op.get("vaex") and op["bad"] not in ("encode", "empty")
    data = w.to_vaex(df) if vaex else df
    kept = data.copy(), data if vaex else data.columns.copy(), copy.copy(kw)
    if op.get("oups_md") is not None:
        OUPS_METADATA[key] = dict(op["oups_md"])
    bad = op["bad"]
    try:
        if bad == "key_class":
            ps.set(w.mk_key("flat", ["a"]), data, **kw)
        elif bad == "key_text":
            ps.set(key.to_path, data, **kw)
        elif bad == "data_type":
            ps.set(key, df.to_dict("list"), **kw)
        elif bad == "swapped":
            ps[key] = data, kw
        elif bad == "first_item":
            ps[key] = list(kw), data
        elif op.get("via") == "item":
            ps[key] = kw, data
        else:
            ps.set(key, data, **kw)
    finally:
        if not (bad == "encode" or vaex):
            w.same_inputs(data, kw, kept, {})
        elif vaex and (kw != kept[2] or data.get_column_names() != kept[0].get_column_names() or len(data) != len(kept[0])):
            raise Violation("input-modified", f"vaex frame or parameters given to the write changed: {kept[2]}, {kw}")
        # As a caller would, when key is not one.
        if bad in ("swapped", "first_item"):
            OUPS_METADATA.pop(key, None)


def run(plan, ctx):
    fsim.set_order(plan.get("order_seed"))
    kind = plan["kind"]
    base = ctx.dir + "/store"
    os.makedirs(base)
    keys = [w.mk_key("two", s) for s in SPECS[: plan["n_keys"]]]
    absent = w.mk_key("two", ["none", 7])
    ps = w.call("open", lambda: w.open_store(base, "two"))
    views = {}  # key index -> what is read
    hist = {}  # key index -> batches, dup, ordered, user md, library md

    def check(store, what, changed=None):
        got = {str(x) for x in store}
        exp = {str(keys[k]) for k in views}
        if got != exp or len(store) != len(exp):
            raise Violation("keys-differ", f"{what}: keys listed {sorted(got)}, expected {sorted(exp)}")
        for k, v in views.items():
            if keys[k] not in store:
                raise Violation("keys-differ", f"{what}: {keys[k]} is not in the store")
            now = storef.view(store, keys[k], kind)
            if now != v:
                raise Violation("content-changed", f"{what}: {keys[k]} read {storef.brief(now)}, was {storef.brief(v)}")

    def accept(k, op, what):
        """A write that was done."""
        h = hist.setdefault(k, {"batches": [], "md": {}, "oups_md": {}})
        h["batches"].append(op["rows"])
        h["md"].update(op.get("md") or {})
        h["oups_md"].update(op.get("oups_md") or {})
        v = storef.view(ps, keys[k], kind)
        w.check_content(v["rows"], h["batches"], op["dup"], op["ordered"], what, kind)
        if v["md"] != h["md"] or (v["oups_md"] or {}) != h["oups_md"]:
            raise Violation("metadata-differs", f"{what}: metadata {v['md']} {v['oups_md']}, written {h['md']} {h['oups_md']}")
        views[k] = v

    for n, op in enumerate(plan["ops"]):
        if op.get("reopen"):
            boot.reboot()
            ps = w.call("reopen", lambda: w.open_store(base, "two"), "reopen-failed")
        k, bad = op.get("k"), op.get("bad")
        what = f"op {n} ({op['op']} {bad or ''} on {keys[k] if k is not None else ''})"
        out = "ok"
        if op["op"] == "write" and bad:
            existed = k in views
            if not existed and bad not in ALWAYS:
                continue
            before = None if existed else w.tree(base)
            # Most of the refused writes make few file operations.
            faults = [storef.place(f, 24, 8) for f in op.get("faults") or ()]
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                out = storef.attempt(lambda: refuse(ps, keys[k], op, kind), faults, ctx)[0]
            if out != "ok":
                ctx.nontrivial |= existed
            else:
                if bad not in MAYBE:
                    raise Violation("not-refused", f"{what}: no exception is raised")
                accept(k, dict(op, rows=[] if bad == "empty" else op["rows"]), what)
            if not existed and w.tree(base) != before:
                raise Violation("left-over", f"{what}: refused creation left {sorted(set(w.tree(base)) - set(before))}")
            from oups.store.writer import OUPS_METADATA

            if OUPS_METADATA and bad not in ("key_class", "key_text"):
                raise Violation("pending-metadata", f"{what}: {dict(OUPS_METADATA)} is left for a later write")
            OUPS_METADATA.clear()
            ctx.seen(bad, bool(op.get("vaex")), out, existed, op["ordered"], op["dup"] is not None, op["nirgs"] is not None)
            ctx.stats["refused_" + bad] += out != "ok"
        elif op["op"] == "write":
            w.call(what, lambda: w.do_write(ps, keys[k], op, kind))
            accept(k, op, what)
        elif op["op"] == "del":
            if k not in views:
                continue
            w.call(what, lambda: ps.__delitem__(keys[k]))
            views.pop(k), hist.pop(k)
        else:
            before = w.tree(base)
            if op["op"] == "del_absent":
                # With or without an exception.
                for key in [absent] + [x for j, x in enumerate(keys) if j not in views]:
                    try:
                        del ps[key]
                    except Exception as e:
                        out = type(e).__name__
            elif op["op"] == "open_bad":
                try:
                    type(ps)(base, int)
                except TypeError as e:
                    out = type(e).__name__
                else:
                    raise Violation("not-refused", f"{what}: a store opens with 'int' as class of keys")
            else:
                for key in [absent] + [x for j, x in enumerate(keys) if j not in views]:
                    for path in ("pdf", "vdf", "pf"):
                        try:
                            getattr(ps[key], path)
                        except Exception as e:
                            out = type(e).__name__
                        else:
                            raise Violation("not-refused", f"{what}: {path} of {key} which has not been written returns")
                    if key in ps:
                        raise Violation("keys-differ", f"{what}: {key} is said to be in the store")
            if w.tree(base) != before:
                raise Violation("left-over", f"{what}: files changed: {sorted(set(w.tree(base)) ^ set(before))}")
            ctx.seen(op["op"], out)
        check(ps, f"after {what}, {out}")
        with boot.isolated():
            check(w.call("open", lambda: w.open_store(base, "two"), "reopen-failed"), f"after {what}, {out}, store opened again")
        ctx.stats["ops"] += 1
        ctx.note(f"{what} {out} {[(k, storef.brief(v)) for k, v in sorted(views.items())]}")
    ctx.sample = {"ops": plan["ops"][:5]}


def shrink(plan):
    yield from w.shrink_rows_ops(plan)
