"""S08 Row groups stay bounded in size and number."""
import os

from sim import boot, fsim
from sim import storew as w
from sim.core import Violation

CODECS = {0: "UNCOMPRESSED", 1: "SNAPPY", 2: "GZIP", 6: "ZSTD"}
LEVEL = "exploration"
RUNS = {"quick": 330, "thorough": 20000}
RULE = ("one run = one of four seeded histories: 'append' (6-45 in-order appends with max_row_group_size and max_nirgs set: size and number of "
        "row groups bounded after each), 'mixed' (as 'append', max_nirgs changing or not set in between: incomplete row groups at the end bounded after each write that sets it), 'free' (batches anywhere, distinct or repeated ordered_on values: size of each row group bounded), 'keep' (max_nirgs=None: "
        "row groups recorded before a write that overlaps nothing are still there, same rows and same files). Distinct = (form, options, resulting "
        "row-group sizes); non-trivial = at least 3 row groups reached")
ASSUMPTIONS = ["when values of 'ordered_on' repeat, the size of a row group may exceed the maximum by the rows sharing one value "
               "(row groups are not cut between equal values); the bound checked is then max + largest such group - 1"]


def gen(rng, i, tier):
    form = rng.choice(["append", "append", "mixed", "free", "keep"])
    ordered = form not in ("append", "mixed") or rng.random() < 0.8
    if form == "keep":
        ordered = rng.random() < 0.8
    mrgs = rng.choice([1, 2, 3, 4, 5, 7, 8, 10, 13, 20, 33])
    nirgs = None if form == "keep" else rng.choice([0, 1, 2, 3, 5, 8]) if form in ("append", "mixed") else rng.choice(w.NIRGS)
    ops = []
    uid, o = 0, 0
    if form in ("append", "mixed"):
        uniq = not ordered or rng.random() < 0.7
        big = rng.choice([2, 4, 9, 25, 60])
        # Some batches begin before the end of recorded data.
        laps = uniq and ordered and rng.random() < 0.4
        used = set()
        for _ in range(rng.choice([6, 12, 20, 30, 45])):
            n = rng.randint(1, big)
            rows = []
            top = o
            if laps:
                o += 2
                if rng.random() < 0.4:
                    o -= rng.choice([3, 5, 9, 20, 50])
            for _ in range(n):
                o += rng.choice([1, 2, 3]) if laps else 1 if uniq else rng.choice([0, 0, 1, 2])
                while uniq and o in used:
                    o += 1
                used.add(o)
                uid += 1
                rows.append([o, rng.randrange(3), uid])
            if ordered:
                o = max(o, top) + 1
            op = {"op": "write", "rows": rows, "ordered": ordered, "mrgs": mrgs, "nirgs": nirgs}
            if form == "mixed":
                # Limit not set, or changed, in the course of the history.
                if rng.random() < 0.2:
                    nirgs = rng.choice([None, None, 0, 1, 2, 3, 5])
            ops.append(op)
    else:
        g = w.BatchGen(rng, uniq=rng.random() < 0.6, max_rows=40)
        for n in range(rng.choice([3, 5, 8, 12])):
            ops.append({"op": "write", "rows": g.batch("after" if not ordered else None if form == "free" else rng.choice(["after", "after_far", "gap", "before", None])),
                        "ordered": ordered, "mrgs": mrgs, "nirgs": nirgs})
    for op in ops:
        if rng.random() < 0.2:
            op["vaex"] = 1
        if rng.random() < 0.1:
            op["reopen"] = 1
        if form == "free" and op["ordered"] and rng.random() < 0.15:
            op["dup"] = "g"
    comp = rng.choice([None, None, "SNAPPY", "GZIP", "ZSTD", "UNCOMPRESSED"])
    for op in ops:
        if comp:
            op["comp"] = comp
    return {"kind": rng.choice(["int", "ts"]), "comp": comp, "form": form, "ordered": ordered, "mrgs": mrgs, "nirgs": nirgs, "ops": ops,
            "order_seed": rng.randrange(1 << 30), "short_seed": None}


def incomplete_tail(sizes, mrgs):
    """Sizes of the incomplete row groups (90% of the max size, or less) at the end of the dataset."""
    n = 0
    while n < len(sizes) and sizes[-1 - n] <= int(mrgs * 0.9):
        n += 1
    return sizes[len(sizes) - n:]


def run(plan, ctx):
    fsim.set_order(plan.get("order_seed"))
    kind, form, mrgs, nirgs = plan["kind"], plan["form"], plan["mrgs"], plan["nirgs"]
    base = ctx.dir + "/store"
    key = w.mk_key("flat", ["k"])
    ps = w.open_store(base, "flat")
    total = 0
    counts = {}
    prev = None
    for n, op in enumerate(plan["ops"]):
        if op.get("reopen"):
            boot.reboot()
            ps = w.call("reopen", lambda: w.open_store(base, "flat"))
        if op["nirgs"] is not None and form in ("append", "mixed"):
            # Rows of incomplete row groups at the end, before the write.
            tail, end = 0, True
            if n:
                pf = ps[key].pf
                sizes = [rg.num_rows for rg in pf.row_groups]
                m = len(sizes) - len(incomplete_tail(sizes, mrgs))
                if op["ordered"]:
                    # And those before that the write overlaps.
                    first = w.frame(op["rows"][:1], kind)["o"].iloc[0]
                    while m and pf[m - 1].to_pandas(columns=["o"])["o"].max() >= first:
                        m -= 1
                    # A write within recorded data does not coalesce the end of it.
                    end = w.frame(op["rows"][-1:], kind)["o"].iloc[0] >= pf[-1].to_pandas(columns=["o"])["o"].min()
                tail = sum(sizes[m:])
        w.call(f"write {n}", lambda: w.do_write(ps, key, op, kind), "write-failed")
        for r in op["rows"]:
            counts[r[0]] = counts.get(r[0], 0) + 1
        total += len(op["rows"])
        pf = ps[key].pf
        # Row groups as (uids) in dataset order.
        rgs = [(pf.row_group_filename(rg).rsplit("/", 1)[-1], rg.num_rows, tuple(pf[j].to_pandas(columns=["uid"])["uid"].tolist()) if form == "keep" else None) for j, rg in enumerate(pf.row_groups)]
        sizes = [x[1] for x in rgs]
        what = f"after write {n} ({form}, max_row_group_size={mrgs}, max_nirgs={nirgs})"
        bound = mrgs + (max(counts.values()) - 1 if plan["ordered"] else 0)
        if max(sizes) > bound:
            raise Violation("row-group-too-large", f"{what}: row-group sizes {sizes}, bound {bound}")
        codecs = {CODECS.get(c.meta_data.codec, c.meta_data.codec) for rg in pf.row_groups for c in rg.columns}
        if codecs != {plan.get("comp") or "SNAPPY"}:
            raise Violation("compression", f"{what}: codecs of row groups {codecs}, {plan.get('comp') or 'SNAPPY (default)'} asked")
        if op["nirgs"] is not None and form in ("append", "mixed") and end:
            lim = max(op["nirgs"], 1, -(-(tail + len(op["rows"])) // mrgs))
            if len(incomplete_tail(sizes, mrgs)) > lim:
                raise Violation("too-many-incomplete-row-groups", f"{what}: incomplete row groups at the end {incomplete_tail(sizes, mrgs)}, at most {lim} expected (max_nirgs={op['nirgs']}, {tail} rows in those before the write, {len(op['rows'])} added)")
            ctx.stats["tail_checked"] += 1
        # Without faults, nothing is left over.
        files = set(os.listdir(f"{base}/k"))
        if files - {"_metadata", "_common_metadata"} != {x[0] for x in rgs}:
            raise Violation("files-left-over", f"{what}: files {sorted(files)}, row groups are in {sorted({x[0] for x in rgs})}")
        if form == "append":
            lim = 2 * total / mrgs + nirgs + 2
            if len(sizes) > lim:
                raise Violation("too-many-row-groups", f"{what}: {len(sizes)} row groups for {total} rows, bound {lim:.1f}; sizes {sizes}")
        if form == "keep" and prev is not None:
            lo, hi = op["rows"][0][0], op["rows"][-1][0]
            overlaps = plan["ordered"] and any(not (hi < a or lo > b) for a, b in prev_spans)
            if not overlaps:
                gone = [x for x in prev if x not in rgs]
                if gone:
                    raise Violation("row-groups-rewritten", f"{what}: nothing overlaps, but row groups {gone} are no longer there; now {rgs}")
                ctx.stats["kept_checked"] += 1
        prev = rgs
        if form == "keep":
            by_uid = {r[2]: r[0] for o in plan["ops"][: n + 1] for r in o["rows"]}
            prev_spans = [(min(by_uid[u] for u in x[2]), max(by_uid[u] for u in x[2])) for x in rgs]
        ctx.seen(form, mrgs, nirgs, tuple(sizes))
        ctx.note(f"sizes {sizes}")
        ctx.stats["writes"] += 1
        ctx.nontrivial |= len(sizes) >= 3
    ctx.sample = {"form": form, "mrgs": mrgs, "nirgs": nirgs, "batches": [len(o["rows"]) for o in plan["ops"]], "final_row_groups": sizes}


shrink = w.shrink_rows_ops
