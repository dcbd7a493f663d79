"""S03 A write to an existing dataset is all-or-nothing under crashes and failing file operations."""
from sim import boot, fsim, storef
from sim import storew as w
from sim.core import Violation, shrink_list

LEVEL = "exploration"
RUNS = {"quick": 170, "thorough": 9000}
RULE = ("one run = a dataset grown by 1-5 fault-free writes next to a second key, then one operation (append / insertion / update / duplicate "
        "replacement / metadata only / creation) re-run from the same state once per injected fault: a crash before every mutating file "
        "operation of it (thorough) or a seeded half of them (quick), plus torn writes and I/O errors at seeded positions; after each, the "
        "store is reopened in a new process image and read through every path. Distinct = (operation class, fault kind, file operation and "
        "file class hit, outcome before/after/explicit); non-trivial = at least one fault fired")
ASSUMPTIONS = ["crash = process kill: completed system calls survive, user-space buffers are lost (no power loss, no fsync model)",
               "faults inside C++ readers (vaex/pyarrow mmap) are not injected"]


def gen(rng, i, tier):
    kind = rng.choice(["int", "int", "ts", "float", "int+n"])
    g = w.BatchGen(rng)
    ordered = rng.random() < 0.8
    dup = rng.choice([None, None, "g", ["g"], []]) if ordered else None
    g.dup = dup
    mrgs, nirgs = rng.choice(w.MRGS[1:]), rng.choice(w.NIRGS)
    create = rng.random() < 0.08
    md_keys = ["a", "b", "c"]

    def a_write(where=None):
        op = {"op": "write", "rows": g.batch(where), "ordered": ordered, "dup": dup, "mrgs": mrgs, "nirgs": nirgs}
        if rng.random() < 0.35:
            op["md"] = {k: f"v{rng.randrange(100)}" for k in rng.sample(md_keys, rng.randint(1, 2))}
        if rng.random() < 0.25:
            op["oups_md"] = {k: rng.randrange(100) for k in rng.sample(md_keys, rng.randint(1, 2))}
        if rng.random() < 0.25:
            op["vaex"] = 1
        return op

    n = 0 if create else rng.choice([1, 2, 2, 3, 4, 5])
    setup = [a_write() for _ in range(n)]
    if not create and rng.random() < 0.12:
        op = {"op": "md", "md": {k: rng.choice([f"w{rng.randrange(100)}", None]) for k in rng.sample(md_keys, rng.randint(1, 2))}}
    else:
        op = a_write()
        if create and rng.random() < 0.5:
            op["mrgs"] = 2
    faults = [storef.gen_fault(rng) for _ in range(rng.choice([4, 6, 8]))]
    return {"kind": kind, "schema": rng.choice(["flat", "flat", "deep"]), "setup": setup, "op": op, "faults": faults,
            "sweep": round(rng.random(), 3) if tier == "quick" else 1.0, "sweep_phase": rng.randrange(2),
            "order_seed": rng.randrange(1 << 30), "short_seed": rng.randrange(1 << 30) if rng.random() < 0.4 else None}


KEYS = {"flat": (["k"], ["other"]), "deep": (["t", "x", 1], ["t", "y", 2])}
OTHER = {"op": "write", "rows": [[1, 0, 900001], [2, 1, 900002], [5, 0, 900003]], "mrgs": 2, "md": {"m": "1"}}


def run(plan, ctx):
    fsim.set_order(plan.get("order_seed"))
    fsim.set_short(plan.get("short_seed"))
    kind, schema = plan["kind"], plan["schema"]
    key, other = (w.mk_key(schema, s) for s in KEYS[schema])
    base0 = ctx.dir + "/base"
    ps = w.open_store(base0, schema)
    w.call("setup", lambda: storef.do_op(ps, other, OTHER, kind))
    for n, op in enumerate(plan["setup"]):
        w.call(f"setup write {n}", lambda: storef.do_op(ps, key, op, kind))
    create = not plan["setup"]
    before = None if create else storef.view(ps, key, kind)
    other_view = storef.view(ps, other, kind)
    op = plan["op"]
    # Dry run: what the operation leads to, and how many file operations it makes.
    boot.reboot()
    dry = ctx.dir + "/dry"
    storef.fresh_copy(base0, dry)
    ps = w.open_store(dry, schema)
    muts = []
    fsim.S.observer = lambda i, k, p: muts.append((k, p))
    out, n_all, n_mut, _ = storef.attempt(lambda: w.call("operation", lambda: storef.do_op(ps, key, op, kind)), [], ctx)
    fsim.S.observer = None
    after = storef.view(ps, key, kind)
    if before is not None and op["op"] == "md" and after["rows"] != before["rows"]:
        raise Violation("metadata-write-altered-rows", f"{storef.brief(before)} became {storef.brief(after)}")
    points = [storef.place(f, n_all, n_mut) for f in plan["faults"]]
    if plan.get("sweep"):
        step = 1 if plan["sweep"] == 1.0 else 2
        points += [{"on": "mut", "at": a, "kind": "crash_before"} for a in range(plan.get("sweep_phase", 0) % step, n_mut, step)]
    leading = [r[2] for r in after["rows"]]
    for p in points:
        try:
            one_point(plan, ctx, p, base0, key, other, before, after, other_view, create, leading)
        except Violation as v:
            v.info["patch"] = {"sweep": 0, "faults": [p]}
            raise
    ctx.stats["mutating_events"] += n_mut
    ctx.sample = {"op": op, "setup": plan["setup"], "file_operations": muts[:40], "points": points[:4]}


def one_point(plan, ctx, p, base0, key, other, before, after, other_view, create, leading):
    kind, schema, op = plan["kind"], plan["schema"], plan["op"]
    if True:
        boot.reboot()
        d = ctx.dir + "/try"
        storef.fresh_copy(base0, d)
        ps = w.open_store(d, schema)
        ctx.note(f"point {p}")
        out, _, _, fired = storef.attempt(lambda: storef.do_op(ps, key, op, kind), [p], ctx)
        ctx.stats["attempts"] += 1
        ctx.stats["outcome_" + out.split(":")[0]] += 1
        if not fired:
            ctx.stats["fault_not_reached"] += 1
        else:
            ctx.nontrivial = True
        what = f"fault {p} ({fired and fired[0]['op'] + ' ' + fired[0]['path']}), call ended with '{out}'"
        stores = []
        if out != "crash":
            stores.append(("same process", ps))
        stores.append(("new process", None))
        for who, s in stores:
            if s is None:
                boot.reboot()
                s = w.call(f"reopen after {what}", lambda: w.open_store(d, schema), "reopen-failed")
            if create and out != "ok":
                verdict = "explicit"
                for path in w.PATHS:
                    try:
                        rows = w.read(s[key], path, kind)
                    except Exception:
                        continue
                    verdict = "leading"
                    if [r[2] for r in rows] != leading[:len(rows)] or rows != after["rows"][:len(rows)]:
                        raise Violation("creation-garbage", f"{what}, {who}: {path} reads uids {[r[2] for r in rows]}, written {leading}")
            else:
                if key not in s:
                    raise Violation("key-lost", f"{what}, {who}: key is no longer listed")
                try:
                    got = storef.view(s, key, kind)
                except Violation as v:
                    raise Violation(v.kind, f"{what}, {who}: {v.msg}")
                verdict = "after" if got == after else "before" if before is not None and got == before else None
                if verdict is None:
                    raise Violation("neither-before-nor-after", f"{what}, {who}:\n read   {storef.brief(got)}\n before {storef.brief(before)}\n after  {storef.brief(after)}")
                if out == "ok" and verdict != "after" and before != after:
                    raise Violation("acknowledged-write-lost", f"{what}, {who}: call returned normally but content is that from before\n read {storef.brief(got)}\n after {storef.brief(after)}")
            if other not in s or storef.view(s, other, kind) != other_view:
                raise Violation("other-key-changed", f"{what}, {who}: the other key changed")
            ctx.seen(op["op"], create, op.get("dup") is not None, fired and (fired[0]["kind"], fired[0]["op"], fired[0]["path"].rsplit("/", 1)[-1][:9]), out, verdict, len(before["rows"]) if before else 0)
            ctx.stats["verdict_" + verdict] += 1


def shrink(plan):
    if plan.get("sweep"):
        yield dict(plan, sweep=0)
    for cand in shrink_list(plan["faults"], 0):
        yield dict(plan, faults=cand)
    if plan.get("sweep") and plan["sweep"] != 1.0:
        yield dict(plan, sweep=0.5, sweep_phase=1 - plan["sweep_phase"])
    for cand in shrink_list(plan["setup"], 1 if plan["setup"] else 0):
        yield dict(plan, setup=cand)
    yield from w.shrink_rows_ops(plan, "setup") if plan["setup"] else ()
    if plan["op"]["op"] == "write":
        for p in w.shrink_rows_ops(dict(plan, _o=[plan["op"]]), "_o"):
            op = p.pop("_o")[0]
            yield dict(p, op=op)
