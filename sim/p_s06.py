"""S06 Every read path returns the same dataset."""
from sim import boot, fsim, storef
from sim import storew as w
from sim.core import Violation

LEVEL = "exploration"
RUNS = {"quick": 210, "thorough": 25000}
RULE = ("one run = a seeded history of 3-16 writes (appends, insertions, updates, duplicate replacement, small row groups so that part "
        "numbers pass 9 and 99), deletions and writes interrupted or failing at a seeded file operation, left as they are; after each, pdf, vdf, pf and "
        "min_max of a new handle, and of one kept since before, are compared (int, float, timestamp columns, with and without nulls; column multi-index), in the same and in a new process image, under permuted listings. Distinct = (operation, number of row "
        "groups, number of files left over, outcome); non-trivial = left-over files present or more than 9 row groups")
ASSUMPTIONS = ["crash = process kill (no power loss)", "`pf` of a handle is compared on handles obtained after the last write: it is documented as a handle to the data at that time; `pdf`, `vdf` and `min_max` are also compared on handles kept across writes"]


def gen(rng, i, tier):
    kind = rng.choice(["int", "ts", "float", "int+n", "ts+n", "int+m", "tns", "int+t", "tns+t"])
    g = w.BatchGen(rng, max_rows=rng.choice([14, 30]))
    ordered = rng.random() < 0.75
    dup = rng.choice([None, None, "g", []]) if ordered else None
    g.dup = dup
    mrgs, nirgs = rng.choice([1, 2, 2, 3, 4, 6, 10, None]), rng.choice([None, None, None, 0, 1, 3])
    ops = []
    for n in range(rng.choice([3, 5, 8, 12, 16])):
        if n and rng.random() < 0.04:
            ops.append({"op": "del"})
            g.os = []
            continue
        op = {"op": "write", "rows": g.batch(), "ordered": ordered, "dup": dup, "mrgs": mrgs, "nirgs": nirgs}
        if rng.random() < 0.3:
            op["vaex"] = 1
        if n and rng.random() < 0.35:
            op["faults"] = [storef.gen_fault(rng, 0.6)]
        if rng.random() < 0.2:
            op["reopen"] = 1
        ops.append(op)
    if kind.endswith("+m"):
        w.midx_ops(rng, [op for op in ops if op["op"] == "write"])
    return {"kind": kind, "ops": ops, "keep": rng.random() < 0.4, "order_seed": rng.randrange(1 << 30), "short_seed": rng.randrange(1 << 30) if rng.random() < 0.3 else None}


def run(plan, ctx):
    fsim.set_order(plan.get("order_seed"))
    fsim.set_short(plan.get("short_seed"))
    kind = plan["kind"]
    base = ctx.dir + "/store"
    key = w.mk_key("flat", ["k"])
    ps = w.open_store(base, "flat")
    kept = []
    for n, op in enumerate(plan["ops"]):
        if op.get("reopen"):
            boot.reboot()
            ps = w.call("reopen", lambda: w.open_store(base, "flat"))
        exists = key in ps
        pts = []
        if op.get("faults") and exists and op["op"] == "write":
            with boot.isolated():
                storef.fresh_copy(base, ctx.dir + "/dry")
                dp = w.open_store(ctx.dir + "/dry", "flat")
                fsim.arm()
                w.call(f"dry run of write {n}", lambda: storef.do_op(dp, key, op, kind))
                n_all, n_mut, _ = fsim.disarm()
            pts = [storef.place(f, n_all, n_mut) for f in op["faults"]]
        if pts:
            out, _, _, fired = storef.attempt(lambda: storef.do_op(ps, key, op, kind), pts, ctx)
            if out == "crash":
                boot.reboot()
                ps = w.call("reopen", lambda: w.open_store(base, "flat"))
        else:
            out = "ok"
            fsim.arm(log=ctx.log)
            w.call(f"op {n}", lambda: storef.do_op(ps, key, op, kind))
            fsim.disarm()
        ctx.stats["ops"] += 1
        if key not in ps:
            continue
        what = f"after op {n} ({op['op']}, {out})"
        got = {p: w.call(f"{what}: read {p}", lambda: w.read(ps[key], p, kind), "read-failed") for p in w.PATHS}
        for p in ("vdf", "pf"):
            if got[p] != got["pdf"]:
                raise Violation("read-paths-disagree", f"{what}: pdf reads uids {[r[2] for r in got['pdf']]}, {p} reads {[r[2] for r in got[p]]}")
        h = ps[key]
        df = h.pdf
        if kind.endswith("+m"):
            df.columns = list(map(str, df.columns))
        # A handle kept by the user since before the write reads the dataset as it is now.
        for age, old in [("new", h)] + [("kept", k) for k in kept]:
            cols = ("o", "uid", "f", "g") + (("nf", "ni", "nd", "big") if kind.endswith("+n") else ())
            for col in cols if age == "new" else (cols[n % len(cols)],):
                col = w.col_name(col, kind)
                mm = w.call(f"{what}: min_max({col}), {age} handle", lambda: old.min_max(col), "read-failed")
                want = tuple(w._plain(x) for x in (df[col].min(), df[col].max()))
                mm = tuple(w._plain(x) for x in mm)
                if not (mm[0] == want[0] and mm[1] == want[1]):
                    raise Violation("min-max-differs", f"{what}: min_max('{col}') of {age} handle is {mm}, values read have {want}")
            if age == "kept":
                for p in ("pdf", "vdf") if len(h.pf.row_groups) < 25 else ("pdf",):
                    x = w.call(f"{what}: read {p} of kept handle", lambda: w.read(old, p, kind), "read-failed")
                    if x != got["pdf"]:
                        raise Violation("read-paths-disagree", f"{what}: {p} of a handle kept since before reads uids {[r[2] for r in x]}, a new handle reads {[r[2] for r in got['pdf']]}")
        if plan.get("keep"):
            kept = kept or [h]
        if h.pf.count() != len(df):
            raise Violation("read-paths-disagree", f"{what}: lengths differ: pdf {len(df)}, pf {h.pf.count()}")
        n_rg = len(h.pf.row_groups)
        left = len([p for p in w.tree(base) if p.endswith(".parquet")]) - n_rg
        ctx.seen(op["op"], n_rg, left, out)
        ctx.note(f"{what} rg {n_rg} left {left} rows {len(df)}")
        ctx.stats["left_over_files_seen"] += max(left, 0)
        if left > 0 or n_rg > 9:
            ctx.nontrivial = True
    ctx.sample = {"kind": kind, "ops": plan["ops"][:8]}


shrink = w.shrink_rows_ops
