"""S01 Ordered updates neither lose, duplicate nor misorder rows."""
from sim import boot, fsim
from sim import storew as w
from sim.core import Violation

LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 40000}
RULE = ("one run = a seeded history of 2-12 writes (position relative to recorded rows, batch size, row-group size, coalescing "
        "threshold, pandas/vaex, reopen) over a permuted-listing file system with short writes; after each write the dataset is read back "
        "and compared with the reference rows. Distinct = (kind, relative position, options, resulting row-group sizes); non-trivial = at "
        "least one write rewrote or inserted between recorded row groups")
ASSUMPTIONS = ["batches are non-empty and ascending on 'ordered_on', as documented", "values are integers of 8 to 64 bits, floats of 32 and 64 bits, datetime64[ns], bool and str, with nulls in nullable columns (float, Int64, datetime, str); types that vaex does not merge (time zones, categories, timedelta, boolean with nulls) raise before anything is changed and are out of scope",
               "reference model: the multiset of rows written"]
DUP = False


def gen(rng, i, tier):
    kind = rng.choice(["int", "int", "ts", "float", "int+n", "ts+n", "int+m", "tns", "int+t", "tns+t"])
    ordered = rng.random() < 0.88
    g = w.BatchGen(rng, uniq=rng.random() < 0.3)
    n = rng.choice([2, 3, 4, 5, 6, 8, 12])
    fixed = rng.random() < 0.5
    mrgs, nirgs = rng.choice(w.MRGS), rng.choice(w.NIRGS)
    ops = []
    for k in range(n):
        if not fixed:
            mrgs, nirgs = rng.choice(w.MRGS), rng.choice(w.NIRGS)
        op = {"op": "write", "rows": g.batch(), "ordered": ordered, "mrgs": mrgs, "nirgs": nirgs}
        if rng.random() < 0.3:
            op["vaex"] = 1
        if rng.random() < 0.3:
            op["via"] = "item"
        if rng.random() < 0.2:
            op["reopen"] = 1
        ops.append(op)
    if kind.endswith("+m"):
        w.midx_ops(rng, ops)
    return {"kind": kind, "ordered": ordered, "ops": ops,
            "order_seed": rng.randrange(1 << 30), "short_seed": rng.randrange(1 << 30) if rng.random() < 0.5 else None}


def run(plan, ctx):
    fsim.set_order(plan.get("order_seed"))
    fsim.set_short(plan.get("short_seed"))
    kind = plan["kind"]
    base = ctx.dir + "/store"
    key = w.mk_key("flat", ["k"])
    ps = w.call("open", lambda: w.open_store(base, "flat"))
    batches = []
    dup = plan.get("dup")
    for n, op in enumerate(plan["ops"]):
        what = f"after write {n}"
        if n and op.get("reopen"):
            boot.reboot()
            ps = w.call("reopen", lambda: w.open_store(base, "flat"))
        fsim.arm(log=ctx.log)
        try:
            w.call(f"write {n}", lambda: w.do_write(ps, key, op, kind, inputs=True), "write-failed")
        finally:
            fsim.disarm()
        batches.append(op["rows"])
        got = w.call(f"read {what}", lambda: w.read(ps[key], "pdf", kind), "read-failed")
        ctx.note(f"rows {[r[2] for r in got]}")
        w.check_content(got, batches, dup, plan["ordered"], what, kind)
        sizes = [rg.num_rows for rg in ps[key].pf.row_groups]
        if n:
            lo, hi = op["rows"][0][0], op["rows"][-1][0]
            prev = sorted(r[0] for b in batches[:-1] for r in b)
            pos = (lo > prev[-1], hi < prev[0], lo <= prev[0], hi >= prev[-1])
            ctx.seen(kind, pos, op.get("mrgs"), op.get("nirgs"), bool(op.get("vaex")), dup, tuple(sizes))
            if not pos[0]:
                ctx.nontrivial = True
        ctx.stats["writes"] += 1
        ctx.stats["rows"] += len(op["rows"])
        ctx.stats["row_groups_seen"] += len(sizes)
    ctx.sample = {k: plan[k] for k in ("kind", "ordered", "ops") if k in plan} | {"final_row_groups": sizes}


shrink = w.shrink_rows_ops
