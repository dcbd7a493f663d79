"""S02 Duplicate replacement: the latest row of each identity wins, nothing else goes."""
from sim import storew as w
from sim.p_s01 import run  # same history runner, reference with identities
from sim.p_s01 import shrink  # noqa: F401

LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 40000}
RULE = ("one run = a seeded history of 2-12 writes with 'ordered_on' and one form of 'duplicates_on' ('g', 'o', ['g'], ['g','o'], []), batches "
        "re-using recorded identities; after each write the dataset is compared with a latest-wins reference. Distinct = (kind, relative "
        "position, options, resulting row-group sizes); non-trivial = at least one write touched recorded row groups")
ASSUMPTIONS = ["batches are non-empty and ascending on 'ordered_on', as documented", "'ordered_on' and 'duplicates_on' are the same on every write of a history",
               "inside one batch, only the presence of the last row of an identity is required (duplicates internal to a batch are only dropped when row groups are rewritten)"]


def gen(rng, i, tier):
    kind = rng.choice(["int", "int", "ts", "float", "int+n", "ts+n", "int+m", "tns", "int+t", "tns+t"])
    dup = rng.choice(["g", "g", "o", ["g"], ["g", "o"], ["o"], [], ["uid"]])
    g = w.BatchGen(rng, dup_g=rng.choice([1, 2, 3]))
    g.dup = dup
    g.per_batch_unique_ident = rng.random() < 0.6
    n = rng.choice([2, 3, 4, 5, 6, 8, 12])
    fixed = rng.random() < 0.5
    mrgs, nirgs = rng.choice(w.MRGS), rng.choice(w.NIRGS)
    ops = []
    for k in range(n):
        if not fixed:
            mrgs, nirgs = rng.choice(w.MRGS), rng.choice(w.NIRGS)
        rows = g.batch(rng.choice([None, None, "tail", "inside", "span", "edge"]))
        if dup == [] and ops and rng.random() < 0.7:
            # Same rows over again: identity is over all columns.
            old = [r for o in ops for r in o["rows"]]
            seen = {}
            for r in old:
                seen[r[2]] = r
            pick = rng.sample(sorted(seen), min(len(seen), rng.randint(1, 6)))
            rows = sorted(rows + [seen[u] for u in pick], key=lambda r: r[0])
        op = {"op": "write", "rows": rows, "ordered": True, "dup": dup, "mrgs": mrgs, "nirgs": nirgs}
        if rng.random() < 0.3:
            op["vaex"] = 1
        if rng.random() < 0.3:
            op["via"] = "item"
        if rng.random() < 0.2:
            op["reopen"] = 1
        ops.append(op)
    if kind.endswith("+m"):
        w.midx_ops(rng, ops)
    return {"kind": kind, "ordered": True, "dup": dup, "ops": ops,
            "order_seed": rng.randrange(1 << 30), "short_seed": rng.randrange(1 << 30) if rng.random() < 0.5 else None}
