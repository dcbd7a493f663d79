"""S07 Metadata updates persist, merge as documented and stay with their key."""
import os

import pandas as pd

from sim import boot, fsim, storef
from sim import storew as w
from sim.core import Violation

LEVEL = "exploration"
RUNS = {"quick": 600, "thorough": 30000}
RULE = ("one run = a seeded history of 5-18 operations over 2-3 keys: data writes with user metadata (dicts owned by the caller and re-used "
        "between keys), library metadata pending in OUPS_METADATA, metadata-only updates, metadata set before any data, deletions, reopenings, and writes that fail "
        "(injected file error or crash, or an argument the write refuses) and are not re-issued; metadata of all keys is compared after each "
        "with the fold of the updates. Distinct = (operation, kinds of updates, outcome, state of the entries); non-trivial = a removal, a "
        "failed write, or several keys in play")
ASSUMPTIONS = ["values of user metadata are str; library metadata is a dict whose values can be pickled", "crash = process kill",
               "pending library metadata is set right before the write it belongs to, as AggStream does"]
SPECS = [["a", 1], ["a", 2], ["b", 1]]
USER = ["u", "v", "w x", "é"]
VALS = ["1", "2", "", "long" * 20, None, None]
LIB = ["p", "q", "agg"]
LVALS = [1, 0, "", "x", [], [1], {}, {"n": {"m": 1}}, None, None, False, True, 2.5]


def _md(rng, names, vals):
    return {k: rng.choice(vals) for k in rng.sample(names, rng.choice([1, 1, 2, 3]))}


def gen(rng, i, tier):
    kind = rng.choice(["int", "ts"])
    n_keys = rng.choice([1, 2, 3])
    gens, ops = {}, []
    ordered = rng.random() < 0.6
    shared = [_md(rng, USER, VALS) for _ in range(2)]
    for n in range(rng.choice([5, 8, 12, 18])):
        k = rng.randrange(n_keys)
        g = gens.setdefault(k, w.BatchGen(rng, uid0=k * 100000, max_rows=6))
        x = rng.random()
        if x < 0.12 and g.os:
            op = {"op": "md", "k": k}
        elif x < 0.2 and g.os:
            op = {"op": "del", "k": k}
            g.os = []
        else:
            op = {"op": "write", "k": k, "rows": g.batch(), "ordered": ordered, "mrgs": rng.choice([None, 2, 4]), "nirgs": rng.choice([None, 1])}
            if rng.random() < 0.2:
                op["vaex"] = 1
            if rng.random() < 0.15:
                op["bad"] = rng.choice(["ordered_on", "type", "duplicates_on"])
            elif len(g.os) == len(op["rows"]) and rng.random() < 0.3:
                # Metadata before any data.
                op.update(rows=[], mrgs=None)
                g.os = []
        if op["op"] != "del":
            y = rng.random()
            if y < 0.35:
                op["md"] = _md(rng, USER, VALS)
            elif y < 0.55:
                op["shared"] = rng.randrange(2)
            if rng.random() < 0.45:
                op["oups_md"] = _md(rng, LIB, LVALS)
            if rng.random() < 0.25 and not op.get("bad"):
                op["faults"] = [storef.gen_fault(rng, 0.3)]
        if rng.random() < 0.15:
            op["reopen"] = 1
        ops.append(op)
    return {"kind": kind, "n_keys": n_keys, "shared": shared, "ops": ops, "order_seed": rng.randrange(1 << 30), "short_seed": None}


def fold(md, upd, keep_falsy=True):
    md = dict(md)
    for k, v in (upd or {}).items():
        if v is None:
            md.pop(k, None)
        else:
            md[k] = v
    return md


def run(plan, ctx):
    from oups.store.writer import OUPS_METADATA, write_metadata

    fsim.set_order(plan.get("order_seed"))
    kind = plan["kind"]
    base, tmp = ctx.dir + "/store", ctx.dir + "/dry"
    keys = [w.mk_key("two", s) for s in SPECS[: plan["n_keys"]]]
    os.makedirs(base)
    ps = w.open_store(base, "two")
    shared = [dict(m) for m in plan["shared"]]  # dicts owned by the caller
    user, lib, uids = {}, {}, {}

    def do(store, op, sh):
        key = keys[op["k"]]
        if op["op"] == "del":
            del store[key]
            return
        md = sh[op["shared"]] if "shared" in op else (dict(op["md"]) if "md" in op else None)
        pf = store[key].pf if op["op"] == "md" else None
        if op.get("oups_md") is not None:
            OUPS_METADATA[key] = {a: (dict(b) if isinstance(b, dict) else b) for a, b in op["oups_md"].items()}
        if op["op"] == "md":
            write_metadata(pf, metadata=md, md_key=key)
            return
        if op["rows"]:
            df = w.frame(op["rows"], kind)
            data = w.to_vaex(df) if op.get("vaex") else df
        else:
            data, op = pd.DataFrame(), dict(op, ordered=False)
        kw = w.write_kwargs({k: v for k, v in op.items() if k != "md"}, kind)
        if md is not None:
            kw["metadata"] = md
        if op.get("bad") == "ordered_on":
            kw["ordered_on"] = "absent"
        elif op.get("bad") == "duplicates_on":
            kw["duplicates_on"], kw["ordered_on"] = "g", None
        elif op.get("bad") == "type":
            data = [1, 2]
        store.set(key, data, **kw)

    def state(store, k):
        h = store[keys[k]]
        v = w.call(f"read metadata of {keys[k]}", lambda: (w.user_md(h), w.oups_md(h) or {}, sorted(r[2] for r in w.read(h, "pdf", kind))), "read-failed")
        return v

    def check(store, what):
        for k in user:
            u, o, _ = state(store, k)
            if u != user[k]:
                raise Violation("metadata-differs", f"{what}: user metadata of {keys[k]} is {u}, updates give {user[k]}")
            if o != lib[k]:
                raise Violation("library-metadata-differs", f"{what}: library metadata of {keys[k]} is {o}, updates give {lib[k]}")

    for n, op in enumerate(plan["ops"]):
        k = op["k"]
        if op["op"] in ("md", "del") and k not in user:
            continue
        if op.get("reopen"):
            boot.reboot()
            ps = w.call("reopen", lambda: w.open_store(base, "two"), "reopen-failed")
        if op["op"] == "write" and not uids.get(k):
            # First data: what an interruption leaves is not that of an update.
            if k in user:
                op = {x: y for x, y in op.items() if x != "faults"}
        elif op.get("rows") == []:
            continue
        if op.get("bad") == "duplicates_on" and not uids.get(k):
            continue  # a creation does not look at it
        what = f"op {n} ({op['op']} on {keys[k]}, {op.get('bad') or ''})"
        upd = plan["shared"][op["shared"]] if "shared" in op else op.get("md")
        after = None
        if op["op"] != "del" and not op.get("bad"):
            after = (fold(user.get(k, {}), upd), fold(lib.get(k, {}), op.get("oups_md")))
        out = "ok"
        existed = k in user
        if op.get("faults") and existed:
            with boot.isolated():
                storef.fresh_copy(base, tmp)
                dp = w.open_store(tmp, "two")
                fsim.arm()
                try:
                    w.call(f"dry run of {what}", lambda: do(dp, op, [dict(m) for m in plan["shared"]]))
                finally:
                    n_all, n_mut, _ = fsim.disarm()
            pts = [storef.place(x, n_all, n_mut) for x in op["faults"]]
            out, _, _, fired = storef.attempt(lambda: do(ps, op, shared), pts, ctx)
            ctx.nontrivial |= bool(fired)
            if out == "crash":
                boot.reboot()
                ps = w.call("reopen", lambda: w.open_store(base, "two"), "reopen-failed")
        elif op.get("bad"):
            try:
                do(ps, op, shared)
            except (ValueError, TypeError) as e:
                out = f"refused:{type(e).__name__}"
                ctx.nontrivial = True
            else:
                raise Violation("not-refused", f"{what}: the write was expected to be refused")
        else:
            fsim.arm(log=ctx.log)
            try:
                w.call(what, lambda: do(ps, op, shared))
            finally:
                fsim.disarm()
        if op["op"] == "del":
            user.pop(k, None), lib.pop(k, None), uids.pop(k, None)
        elif out == "ok":
            user[k], lib[k] = after
            uids[k] = state(ps, k)[2]
        elif existed:
            u, o, ids = state(ps, k)
            if (u, o) == (user[k], lib[k]) and ids == uids[k]:
                pass
            elif after is not None and (u, o) == after:
                user[k], lib[k] = after
                uids[k] = ids
            else:
                raise Violation("metadata-torn", f"{what}, {out}: user {u} lib {o}; before: {user[k]} {lib[k]}; after: {after}")
        check(ps, f"after {what}, {out}")
        ctx.stats["ops"] += 1
        ctx.stats["outcome_" + out.split(":")[0]] += 1
        if upd and None in upd.values() or len(user) > 1:
            ctx.nontrivial = True
        ctx.seen(op["op"], op.get("bad"), "shared" in op, sorted((a, b is None) for a, b in (upd or {}).items()),
                 sorted((a, repr(b)) for a, b in (op.get("oups_md") or {}).items()), out, sorted(user.get(k, {})), sorted(lib.get(k, {})))
        ctx.note(f"{what} {out} user {sorted(user.get(k, {}).items())} lib {sorted(map(repr, lib.get(k, {}).items()))}")
    boot.reboot()
    ps = w.call("final reopen", lambda: w.open_store(base, "two"), "reopen-failed")
    check(ps, "after the final reopen")
    ctx.sample = {k: plan[k] for k in ("n_keys", "shared")} | {"ops": plan["ops"][:8]}


def shrink(plan):
    yield from w.shrink_rows_ops(plan)
    for i, op in enumerate(plan["ops"]):
        for f in ("md", "oups_md"):
            for name in list(op.get(f) or {}):
                p = {a: b for a, b in op[f].items() if a != name}
                yield dict(plan, ops=plan["ops"][:i] + [dict(op, **{f: p})] + plan["ops"][i + 1:])
