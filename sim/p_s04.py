"""S04 After failed or interrupted operations the store recovers by ordinary use."""
import os

from sim import boot, fsim, storef
from sim import storew as w
from sim.core import Violation, shrink_list

LEVEL = "exploration"
RUNS = {"quick": 330, "thorough": 20000}
RULE = ("one run = a seeded history of 4-14 writes, deletions and metadata updates over 2-4 keys sharing directories; about half of the "
        "operations run under 1-3 injected faults (crash, torn write, I/O error, full disk), possibly again when re-issued; after each, the "
        "operation is re-issued if it did not take effect and the store is compared with a shadow store that saw no fault. Distinct = "
        "(operation, fault kind, operation and file class hit, outcome, took effect or not); non-trivial = at least one fault fired")
ASSUMPTIONS = ["crash = process kill: completed system calls survive, user-space buffers are lost (no power loss, no fsync model)",
               "the reference is the same code run without faults on a shadow store (content of fault-free histories is decided by S01, S02, S07)"]

SPECS = {"flat": [["a"], ["b"], ["c"]],
         "deep": [["t", "x", 1], ["t", "x", 2], ["t", "y", 1], ["u", "x", 1]],
         "deeper": [["t", 1, "m", 1], ["t", 1, "m", 2], ["t", 1, "n", 1], ["u", 1, "m", 1]]}


def gen(rng, i, tier):
    kind = rng.choice(["int", "ts", "ts+n"])
    schema = rng.choice(["flat", "deep", "deeper"])
    n_keys = rng.choice([2, 3, len(SPECS[schema])])
    gens, mrgs = {}, {}
    ordered = rng.random() < 0.8
    dup = rng.choice([None, None, "g", []]) if ordered else None
    uid = 0
    ops = []
    p_fault = rng.choice([0.25, 0.5, 0.7])
    for _ in range(rng.choice([4, 6, 8, 10, 14])):
        k = rng.randrange(n_keys)
        x = rng.random()
        if k not in gens:
            gens[k] = w.BatchGen(rng, uid0=uid)
            gens[k].dup = dup
            mrgs[k] = (rng.choice(w.MRGS[1:]), rng.choice(w.NIRGS))
        if x < 0.68:
            op = {"op": "write", "k": k, "rows": gens[k].batch(), "ordered": ordered, "dup": dup, "mrgs": mrgs[k][0], "nirgs": mrgs[k][1]}
            if rng.random() < 0.3:
                op["md"] = {rng.choice("ab"): rng.choice(["1", "2", None])}
            if rng.random() < 0.2:
                op["oups_md"] = {rng.choice("ab"): rng.randrange(1, 9)}
            if rng.random() < 0.3:
                op["vaex"] = 1
            uid += 100
            gens[k].uid += 1000
        elif x < 0.9:
            op = {"op": "del", "k": k}
            gens.pop(k, None)
            uid += 100000
        else:
            op = {"op": "md", "k": k, "md": {rng.choice("ab"): rng.choice(["3", "4", None])}}
        if rng.random() < p_fault:
            op["faults"] = [storef.gen_fault(rng, 0.5) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        op["reopen"] = int(rng.random() < 0.3)
        op["same"] = int(rng.random() < 0.4)
        ops.append(op)
    return {"kind": kind, "schema": schema, "n_keys": n_keys, "ops": ops, "order_seed": rng.randrange(1 << 30), "short_seed": None}


def run(plan, ctx):
    fsim.set_order(plan.get("order_seed"))
    fsim.set_short(plan.get("short_seed"))
    kind, schema = plan["kind"], plan["schema"]
    keys = [w.mk_key(schema, s) for s in SPECS[schema][: plan["n_keys"]]]
    base, sbase, tmp = ctx.dir + "/main", ctx.dir + "/shadow", ctx.dir + "/dry"
    os.makedirs(base)
    ps = w.open_store(base, schema)
    shadow = {}  # key index -> view

    def on_shadow(op, key):
        with boot.isolated():
            sp = w.open_store(sbase, schema)
            w.call("fault-free reference", lambda: storef.do_op(sp, key, op, kind), "reference-failed")
            shadow.pop(op["k"], None)
            if key in sp:
                shadow[op["k"]] = storef.view(sp, key, kind)

    def compare(s, what, which=None):
        listed = sorted(map(str, s.keys))
        want = sorted(str(keys[k]) for k in shadow)
        if listed != want:
            raise Violation("keys-differ", f"{what}: keys {listed}, fault-free history has {want}")
        for k in shadow:
            if which is None or k == which:
                v = storef.view(s, keys[k], kind)
                if v != shadow[k]:
                    raise Violation("content-differs", f"{what}, key {keys[k]}:\n read {storef.brief(v)}\n fault-free {storef.brief(shadow[k])}")

    for n, op in enumerate(plan["ops"]):
        key = keys[op["k"]]
        if op["op"] in ("del", "md") and op["k"] not in shadow:
            continue
        if op["reopen"]:
            boot.reboot()
            ps = w.call(f"reopen before op {n}", lambda: w.open_store(base, schema), "reopen-failed")
        existed = op["k"] in shadow
        faults = op.get("faults") or []
        tries = 0
        done = False
        # Re-issue until it is done; only the first attempts meet a fault.
        while not done:
            tries += 1
            if tries > len(faults) + 2:
                raise Violation("no-progress", f"op {n} ({op['op']}) is still not done after a fault-free attempt")
            f = faults[tries - 1 : tries]
            what = f"op {n} ({op['op']} on {key}), attempt {tries}, faults {f}"
            if f:
                # Count events of the attempt on a copy of the present state.
                with boot.isolated():
                    storef.fresh_copy(base, tmp)
                    dp = w.open_store(tmp, schema)
                    fsim.arm()
                    try:
                        w.call(f"dry run of {what}", lambda: storef.do_op(dp, key, op, kind), "recovery-failed")
                    finally:
                        n_all, n_mut, _ = fsim.disarm()
                pts = [storef.place(x, n_all, n_mut) for x in f]
                out, _, _, fired = storef.attempt(lambda: storef.do_op(ps, key, op, kind), pts, ctx)
                ctx.nontrivial |= bool(fired)
            else:
                out, fired = "ok", []
                fsim.arm(log=ctx.log)
                try:
                    w.call(what, lambda: storef.do_op(ps, key, op, kind), "recovery-failed" if tries > 1 else "operation-failed")
                finally:
                    fsim.disarm()
            ctx.stats["attempts"] += 1
            if out == "ok":
                on_shadow(op, key)
                done = True
                compare(ps, what, op["k"])
                verdict = "done"
            else:
                # Ordinary recovery: reopen the store (after an error on an existing
                # dataset, possibly go on in the same process), look, re-issue.
                if not (op.get("same") and existed and out != "crash"):
                    boot.reboot()
                    ps = w.call(f"reopen after {what}", lambda: w.open_store(base, schema), "reopen-failed")
                if op["op"] == "del":
                    if key in ps:
                        verdict = "listed"
                    else:
                        on_shadow(op, key)
                        done = True
                        verdict = "took-effect"
                elif not existed:
                    verdict = "creation"
                    if key in ps:
                        verdict = "creation-listed"
                        w.call(f"deletion of the dataset left by {what}", lambda: ps.__delitem__(key), "recovery-failed")
                        if key in ps:
                            raise Violation("recovery-failed", f"{what}: key still listed after its deletion")
                else:
                    v = storef.view(ps, key, kind)
                    if v == shadow[op["k"]]:
                        verdict = "not-done"
                    else:
                        on_shadow(op, key)
                        done = True
                        verdict = "took-effect"
                        compare(ps, what, op["k"])
            if fired:
                ctx.seen(op["op"], existed, op.get("dup") is not None, fired[0]["kind"], fired[0]["op"], fired[0]["path"].rsplit("/", 1)[-1][:9], out, verdict)
            ctx.stats["verdict_" + verdict] += 1
        if faults:
            compare(ps, f"after recovery of op {n}")
    boot.reboot()
    ps = w.call("final reopen", lambda: w.open_store(base, schema), "reopen-failed")
    compare(ps, "at the end")
    for k in list(shadow):
        w.call("final deletion", lambda: ps.__delitem__(keys[k]), "recovery-failed")
    left = [p for p, c in w.tree(base).items() if c is not None] if ps is not None else []
    for p in left:
        if any(p.startswith(w.key_path(schema, s) + "/") for s in SPECS[schema]) and p.endswith((".parquet", "_metadata")):
            raise Violation("data-left", f"all keys deleted, but {p} remains")
    ctx.sample = {"schema": schema, "ops": plan["ops"][:8]}


def shrink(plan):
    yield from w.shrink_rows_ops(plan)
    for i, op in enumerate(plan["ops"]):
        if len(op.get("faults") or []) > 1:
            for cand in shrink_list(op["faults"], 0):
                yield dict(plan, ops=plan["ops"][:i] + [dict(op, faults=cand)] + plan["ops"][i + 1:])
