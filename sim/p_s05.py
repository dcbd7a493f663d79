"""S05 The key catalogue mirrors the disk; datasets are isolated."""
import os

from sim import boot, fsim
from sim import storew as w
from sim.core import Violation

LEVEL = "exploration"
RUNS = {"quick": 1300, "thorough": 30000}
RULE = ("one run = a seeded history of 5-20 writes, overwrites, deletions, reopenings and foreign entries (files, directories, look-alike "
        "datasets) over keys of a 1-, 2- or 3-level schema sharing directories, whose fields and separator are any text, with permuted directory listings, on a base directory given with or "
        "without trailing separator, absolute or relative; after each operation catalogue, fresh catalogue, directory tree and content of untouched keys are compared with a dict. "
        "Distinct = (schema, operation, keys present, foreign kinds present); non-trivial = a deletion or reopen with other keys or foreign entries around")
ASSUMPTIONS = ["foreign entries do not change while an operation runs", "foreign entries are not placed inside the directory of a dataset that is deleted "
               "(deletion removes that directory by design)"]

POOL = {
    "flat": [["a"], ["b"], ["ab"], ["B"], ["a b"]],
    "two": [["a", 1], ["a", 2], ["a", 10], ["b", 1], ["aa", 1]],
    "deep": [["t", "x", 1], ["t", "x", 2], ["t", "y", 1], ["u", "x", 1], ["u", "y", 3]],
    "deeper": [["t", 1, "m", 1], ["t", 1, "m", 2], ["t", 1, "n", 1], ["t", 2, "m", 1], ["u", 1, "m", 1]],
}
# Foreign entries: relative path -> content; None for an empty directory.
# None of them is a dataset of the schema.
FOREIGN = {
    "any": [("README", "x"), ("stray.parquet", "x"), ("_metadata", "x"), ("empty", None), ("deep1/deep2/deep3/deep4/part.0.parquet", "x"), ("deep1/file.txt", "x")],
    "flat": [("zz/notes.txt", "x"), ("zy/sub/part.0.parquet", "x")],
    "two": [("nonum-x/part.0.parquet", "x"), ("noseparator/part.0.parquet", "x"), ("a-01/part.0.parquet", "x"), ("a-1-2/_metadata", "x"), ("c-3/notes.txt", "x"), ("a-1.5/part.0.parquet", "x")],
    "deep": [("t/loose.parquet", "x"), ("t/bad/part.0.parquet", "x"), ("t/x-one/part.0.parquet", "x"), ("t/x-01/_metadata", "x"), ("v/x-1/notes.txt", "x"), ("v/empty", None), ("t/x-7/sub/part.0.parquet", "x")],
    "deeper": [("t.1/loose.txt", "x"), ("t.x/m/1/part.0.parquet", "x"), ("t.1/m/one/part.0.parquet", "x"), ("t.1/m/01/_metadata", "x"), ("w.1/m/1/notes.txt", "x"), ("t.1.2/m/1/_metadata", "x")],
}
# Values of fields, and separators of fields.
TEXTS = ["a", "b", "ab", "B", "a b", "", "\u00e9", "x=1", "%41", "~", "it's", "_metadata", "_", " ", "\n", "0", "None", "a*", "*", "[a]", "[!a]", "parquet", "a:b", "a::b", "file:", "#a", "{a}", "a;b,c&d"]
NUMBERS = [0, 1, 2, 10, -5, 10**15]
SEPS = ["-", ".", "_", "+", "=", "|", "^", "]", "(", "*", "$", "?", " ", "#", "x", "d", "s", "w", "b", "A", "\u00e9"]
SHAPES = {"flat": "t", "two": "ti", "deep": "tti", "deeper": "titi"}


def pick_pool(rng, schema, sep):
    """Keys of any accepted values; those that would lead to no directory of their own are to be refused."""
    out = []
    while len(out) < 6:
        k = [rng.choice(TEXTS if c == "t" else NUMBERS) for c in SHAPES[schema]]
        if k not in out and not any(sep in str(v) for v in k):
            out.append(k)
    return out


def foreign_of(schema, plan):
    if not plan.get("sep"):
        return FOREIGN["any"] + FOREIGN[schema]
    # Others may be datasets, with another separator.
    first = {w.key_path(f"{schema}~{plan['sep']}", s).split("/")[0] for s in plan["pool"]}
    return [f for f in FOREIGN["any"] if f[0].split("/")[0] not in first]


def refused(schema, spec):
    """If a level of directories would have an empty name."""
    return "" in w.key_path(schema, spec).split("/")


BASES = ["plain", "plain", "odd", "slash", "path", "dots", "relative"]


def gen(rng, i, tier):
    schema = rng.choice(["flat", "two", "deep", "deep", "deeper", "deeper"])
    pool = POOL[schema]
    extra = {}
    if rng.random() < 0.4:
        sep = rng.choice(SEPS)
        pool = pick_pool(rng, schema, sep)
        extra = {"sep": sep, "pool": pool}
    foreign = foreign_of(schema, extra)
    ops = []
    uid = 0
    for _ in range(rng.choice([5, 8, 12, 20])):
        x = rng.random()
        k = rng.randrange(len(pool))
        if x < 0.45:
            n = rng.randint(1, 4)
            o = rng.randrange(10)
            op = {"op": "write", "k": k, "rows": [[o + j, 0, uid + j + 1] for j in range(n)], "mrgs": rng.choice([None, 2])}
            uid += n
            if rng.random() < 0.3:
                op["md"] = {"m": str(uid)}
            if rng.random() < 0.2:
                op["via"] = "item"
            if rng.random() < 0.3:
                # Recorded rows are read back, and rewritten.
                op["nirgs"] = 1
        elif x < 0.8:
            op = {"op": "del", "k": k}
        elif x < 0.9:
            op = {"op": "foreign", "f": rng.randrange(len(foreign))}
        else:
            op = {"op": "reopen"}
        if "k" in op and extra and refused(f"{schema}~{extra['sep']}", pool[op["k"]]):
            continue
        ops.append(op)
    return {"schema": schema, "base": rng.choice(BASES), "ops": ops, "order_seed": rng.randrange(1 << 30), **extra}


def run(plan, ctx):
    fsim.set_order(plan.get("order_seed"))
    schema = plan["schema"]
    pool = plan.get("pool") or POOL[schema]
    foreign = foreign_of(schema, plan)
    if plan.get("sep"):
        schema += "~" + plan["sep"]
    keys = []
    for s in pool:
        try:
            keys.append(w.mk_key(schema, s))
        except Exception as e:
            if not (refused(schema, s) and isinstance(e, (TypeError, ValueError))):
                raise Violation("key-refused", f"key {s} with separator {plan.get('sep')!r}: {type(e).__name__}: {e}")
            keys.append(None)
            continue
        if refused(schema, s):
            raise Violation("key-accepted", f"key {s} with separator {plan.get('sep')!r} is accepted, but leads to '{keys[-1].to_path}'")
    paths = [w.key_path(schema, s) for s in pool]
    real = ctx.dir + "/up/lone/store"
    os.makedirs(ctx.dir + "/up/lone")
    with open(ctx.dir + "/sentinel", "w") as f:
        f.write("x")
    cwd = os.getcwd()
    how = plan.get("base", "plain")
    if how == "odd":
        real = ctx.dir + "/up/lone/st [o]re*"
    base = real
    if how == "slash":
        base = real + "/"
    elif how == "path":
        import pathlib

        base = pathlib.Path(real)
    elif how == "dots":
        base = ctx.dir + "/up/lone/../lone/store"
    elif how == "relative":
        os.chdir(ctx.dir + "/up/lone")
        base = "store"
    try:
        _run(plan, ctx, schema, keys, paths, foreign, base, real)
    finally:
        os.chdir(cwd)


def _run(plan, ctx, schema, keys, paths, foreign, base, real):
    ps = w.call("open", lambda: w.open_store(base, schema))
    model = {}  # key index -> (rows, md)
    placed = {}  # foreign path -> content
    for n, op in enumerate(plan["ops"]):
        what = f"op {n} {op['op']} " + (str(paths[op["k"]]) if "k" in op else foreign[op["f"]][0] if "f" in op else "")
        if op["op"] == "write":
            k = op["k"]
            fsim.arm(log=ctx.log)
            w.call(what, lambda: w.do_write(ps, keys[k], op, "int"))
            fsim.disarm()
            rows, md = model.get(k, ([], {}))
            model[k] = (rows + op["rows"], md | (op.get("md") or {}))
        elif op["op"] == "del":
            fsim.arm(log=ctx.log)
            w.call(what, lambda: ps.__delitem__(keys[op["k"]]))
            fsim.disarm()
            ctx.nontrivial |= op["k"] in model and (len(model) > 1 or bool(placed))
            model.pop(op["k"], None)
        elif op["op"] == "foreign":
            p, content = foreign[op["f"]]
            full = os.path.join(real, p)
            if content is None:
                os.makedirs(full, exist_ok=True)
            else:
                os.makedirs(os.path.dirname(full), exist_ok=True)
                with open(full, "w") as f:
                    f.write(content)
            placed[p] = content
        else:
            boot.reboot()
            ps = w.call(what, lambda: w.open_store(base, schema))
            ctx.nontrivial |= bool(model)
        ctx.stats["ops"] += 1
        want = sorted(keys[k] for k in model)
        fresh = w.call(f"reopen after {what}", lambda: w.open_store(base, schema))
        for who, s in (("live store", ps), ("reopened store", fresh)):
            got = list(s.keys)
            if got != want or list(s) != want:
                raise Violation("keys-differ", f"{who} after {what}: keys {[x.to_path for x in got]}, written and not deleted {[x.to_path for x in want]}")
            if len(s) != len(want):
                raise Violation("keys-differ", f"{who} after {what}: len {len(s)}, {len(want)} keys")
            for k, key in enumerate(keys):
                if key is not None and (key in s) != (k in model):
                    raise Violation("keys-differ", f"{who} after {what}: '{paths[k]} in store' is {key in s}")
        ctx.note(what + " " + ",".join(x.to_path for x in want))
        # Content of every key.
        for k, (rows, md) in model.items():
            path = w.PATHS[(n + k) % len(w.PATHS)]
            got = w.call(f"read {paths[k]} ({path}) after {what}", lambda: w.read(ps[keys[k]], path), "read-failed")
            if got != [w.expect_row(r) for r in rows]:
                raise Violation("content-differs", f"after {what}: key {paths[k]} reads uids {[r[2] for r in got]}, written {[r[2] for r in rows]}")
            m = w.user_md(ps[keys[k]])
            if m != md:
                raise Violation("content-differs", f"after {what}: metadata of key {paths[k]} is {m}, expected {md}")
        # Directory tree.
        t = w.tree(real) if os.path.isdir(real) else {}
        for p, content in placed.items():
            if p not in t or (content is not None and t[p] != content.encode()):
                raise Violation("foreign-entry-lost", f"after {what}: foreign entry {p} removed or changed")
        if not os.path.isdir(os.path.dirname(real)) or ((model or placed) and not os.path.isdir(real)):
            raise Violation("base-removed", f"after {what}: base directory or its parents were removed")
        keep = {paths[k] for k in model} | set(placed)
        for p, content in t.items():
            if p in placed:
                continue
            own = any(q == p or q.startswith(p + "/") for q in keep)
            inside = any(p.startswith(paths[k] + "/") for k in model)
            if not own and not inside:
                raise Violation("left-behind", f"after {what}: {p} belongs to no key")
        for k in model:
            if paths[k] not in t:
                raise Violation("wrong-location", f"after {what}: no directory {paths[k]}")
        ctx.seen(schema, op["op"], tuple(sorted(model)), tuple(sorted(placed)))
    ctx.sample = {"schema": schema, "base": plan.get("base"), "ops": plan["ops"][:10]}


def shrink(plan):
    yield from w.shrink_rows_ops(plan)
    if plan.get("base") != "plain":
        yield dict(plan, base="plain")
