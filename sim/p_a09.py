"""A09 Streams over one store do not disturb each other, and can feed one another."""
import os
from functools import partial

from sim import aggs, boot, fsim, storef
from sim import aggw as a
from sim import storew as w
from sim.core import Violation, shrink_list

LEVEL = "exploration"
RUNS = {"quick": 260, "thorough": 12000}
RULE = ("one run = 2-4 streams over one store (one ParquetSet, or one each), each with its seed and 1-2 keys, some fed with the results another one recorded; their calls "
        "are interleaved in a seeded order with process restarts, user metadata set on their keys, writes and deletions of other keys by the user, and, "
        "in some, a crash in the middle of a call, after which seeds are fed again; after each final write, results of the stream are compared with the "
        "reference of its own seed (of the recorded results it was fed with), and results, restart metadata and user metadata of all other keys with "
        "those before. Distinct = (kinds of streams, order of calls, restarts, outcome of the crash); non-trivial = calls of two streams or more are interleaved")
ASSUMPTIONS = ["no 0 in aggregated columns ('cumsegagg' refuses results equal to 0)", "a stream is fed with recorded bins only up to the last one, which may still change",
               "crash = process kill, the seed is fed again from its first row after it"]
TIME_NOTE = "seed timestamps span minutes to days per run; no clock is read"

UP = {"f_sum": ["f", "sum"], "f_last": ["f", "last"], "f_min": ["f", "min"]}


def gen(rng, i, tier):
    crash = rng.random() < 0.35
    streams = []
    for j in range(rng.choice([1, 2, 2, 3])):
        p = aggs.gen_plan(rng, snaps=rng.random() < 0.3, n_keys=rng.choice([1, 1, 2]), mode="T" if crash else None, post=[None, None, "row"], sizes=(3, 8, 14, 22, 34))
        for k in p["keys"]:
            k["n"] = f"s{j}{k['n']}"
        p.pop("lives")
        aggs.bound_size(p, 250, 40)
        if not crash and rng.random() < 0.5:
            p["pre"] = f"n{j}"
        streams.append(p)
    casc = []
    for j in range(rng.choice([0, 1, 1, 2]) if len(streams) > 1 else 1):
        # Bins of a key are fed to another stream.
        src = [(x, y) for x, p in enumerate(streams) for y, k in enumerate(p["keys"]) if p["on"] == "ts" and not k["snap"] and "freq" in k["bin"] and not p.get("jit")]
        if not src:
            p = aggs.gen_plan(rng, snaps=False, n_keys=1, mode="T" if crash else None, post=[None], sizes=(14, 22, 34))
            if p["on"] != "ts" or "freq" not in p["keys"][0]["bin"] or p.get("jit"):
                continue
            p["keys"][0]["n"] = f"s{len(streams)}k0"
            p.pop("lives")
            aggs.bound_size(p, 250, 40)
            streams.append(p)
            src = [(len(streams) - 1, 0)]
        x, y = rng.choice(src)
        k = streams[x]["keys"][y]
        k.pop("out", None)
        k.update(aggs=dict(UP), post=None)
        d = aggs.gen_key(rng, 0, rng.random() < 0.3, "ts", True)
        if "by" in d["bin"]:
            d["bin"] = {"rows": rng.choice([1, 2, 3]), "closed": "left"}
        d.pop("out", None)
        # No more bins than needed.
        rows = streams[x]["rows"]
        span = (rows[-1][0] - rows[0][0]) * streams[x]["unit"] + a.seconds(k["bin"]["freq"])
        freqs = [f for f in [*a.FREQS, "3D", "W"] if a.seconds(f) > span / 120]
        for g in (d["bin"], d["snap"] or {}):
            if "freq" in g and g["freq"] not in freqs:
                if not freqs:
                    break
                g["freq"] = rng.choice(freqs)
        else:
            freqs = freqs or [1]
        if not freqs:
            continue
        for c in ("mrg", "mrg2"):
            if d.get(c) == 1:
                d[c] = 4
        d.update(n=f"c{j}k0", f=None, post=None, aggs={"y_sum": ["f_sum", "sum"], "y_last": ["f_last", "last"], "y_max": ["f_sum", "max"]})
        casc.append({"src": [x, y], "key": d, "parallel": 0})
    n = len(streams) + len(casc)
    ops = []
    fed = [0] * len(streams)
    for _ in range(rng.choice([4, 6, 8, 12, 16])):
        x = rng.random()
        if x < 0.1:
            op = {"op": "reboot"}
        elif x < 0.2:
            op = {"op": "md", "s": rng.randrange(n), "md": {m: rng.choice([f"v{rng.randrange(50)}", None]) for m in rng.sample("ab", rng.randint(1, 2))}}
        elif x < 0.28:
            op = {"op": rng.choice(["user", "user", "user_del"]), "u": rng.randrange(2), "rows": [[rng.randrange(9), 0, rng.randrange(1000)]]}
        else:
            s = rng.randrange(n)
            op = {"op": "agg", "s": s, "cuts": sorted({rng.randint(0, 34) for _ in range(rng.choice([0, 1, 2, 5]))}), "final": int(rng.random() < 0.5),
                  "form": rng.choice(["df", "list", "gen", "gen"])}
            if s < len(streams):
                rows = len(streams[s]["rows"])
                fed[s] = op["to"] = min(rows, fed[s] + rng.choice([0, 1, 3, rows // 2, rows // 3, rows]))
                op["back"] = rng.choice([0, 0, 1, rows])
                if rng.random() < 0.3:
                    op["index"] = 1
            else:
                op["form"] = rng.choice(["pdf", "groups", "lazy"])
        ops.append(op)
    # All rows are fed at last.
    last = [{"op": "agg", "s": s, "cuts": [], "final": 1, "form": "gen", "to": len(p["rows"]), "back": 0} for s, p in enumerate(streams)]
    last += [{"op": "agg", "s": len(streams) + j, "cuts": [], "final": 1, "form": "pdf"} for j in range(len(casc))]
    plan = {"streams": streams, "casc": casc, "ops": ops + last, "one_store": int(rng.random() < 0.5), "order_seed": rng.randrange(1 << 30)}
    calls = [j for j, op in enumerate(ops) if op["op"] == "agg"]
    if crash and calls:
        plan["crash"] = {"at_op": rng.choice(calls), "fault": {"on": "mut", "kind": rng.choice(storef.CRASH), "at": rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 14, 20]), "frac": round(rng.random(), 3)}}
    return plan


def count_rows(on, buffer, name):
    buffer[name] = buffer.get(name, 0) + len(on)


class Own:
    """A stream with a seed of its own."""

    def __init__(self, plan, p):
        self.p, self.keys = p, p["keys"]
        self.df = a.seed_frame(p["rows"], p["unit"], p["on"], p.get("nulls"))
        self.feed = aggs.Feed(p)
        self.checked = 0  # Rows 'pre' has been given.

    def make(self, store):
        return aggs.make(self.p, store, pre=partial(count_rows, name=self.p["pre"]) if self.p.get("pre") else None)

    def call(self, stream, store, op, final):
        b = self.feed.bounds(op)
        f = self.feed.copy()
        f.advance(b)

        def go():
            aggs.agg(stream, self.p, self.df, dict(op, final=final), b)
            self.feed = f
            self.checked += sum(z - x for x, z in b)

        return go

    def expected(self, k):
        return aggs.expected(self.p, self.df, self.feed.agg_to, k)

    def again(self):
        self.feed.restart = None


class Fed:
    """A stream fed with the results another one recorded."""

    def __init__(self, plan, c):
        self.keys = [c["key"]]
        self.src = aggs.key_of(plan["streams"][c["src"][0]]["keys"][c["src"][1]])
        self.p = {"keys": self.keys, "parallel": 0, "mode": "T"}
        self.seed = None

    def make(self, store):
        return aggs.make(self.p, store)

    def call(self, stream, store, op, final):
        pf = store[self.src].pf
        pdf = pf.to_pandas()
        n = len(pdf)
        if op["form"] == "groups":
            seed = list(pf.iter_row_groups())
        elif op["form"] == "lazy":
            seed = (df for df in pf.iter_row_groups())
        else:
            edges = [0, *[c for c in op["cuts"] if 0 < c < n], n]
            seed = [pdf.iloc[x:z].reset_index(drop=True) for x, z in zip(edges, edges[1:])]

        def go():
            given = []
            stream.agg(seed=aggs.watch(seed, given), trim_start=True, discard_last=True, final_write=bool(final))
            aggs.unchanged(given)
            self.seed = pdf.iloc[:-1]

        return go

    def expected(self, k):
        if self.seed is None:
            return {"bins": []}
        df = self.seed
        bins, spans = a.ref_bins(df, k["bin"], k["aggs"])
        out = {}
        if not k["snap"] or k.get("both"):
            out["bins"] = bins
        if k["snap"]:
            out["snaps"] = a.ref_snaps(df, k["bin"], k["snap"], k["aggs"], spans)
        return out

    def again(self):
        pass


def store_keys(k):
    x = aggs.key_of(k)
    return list(x) if isinstance(x, tuple) else [x]


def run(plan, ctx):
    from oups.store.writer import write_metadata

    fsim.set_order(plan.get("order_seed"))
    a.set_jit(any(p.get("jit") for p in plan["streams"]))
    base = ctx.dir + "/store"
    os.makedirs(base)
    models = [Own(plan, p) for p in plan["streams"]] + [Fed(plan, c) for c in plan["casc"]]
    users = [w.mk_key("flat", [f"u{j}"]) for j in range(2)]
    own_rows = {}  # user key -> rows
    md = {}  # key -> user metadata
    dead = set()
    hurt = set()  # Stream that crashed, until it has written again: a dataset it was creating may fail to be read.
    live = {}  # stream -> (store, stream) of this process
    shared = None
    order = []

    def store_of(s):
        nonlocal shared
        if plan["one_store"]:
            if shared is None:
                shared = w.call("open", lambda: w.open_store(base, "flat"), "reopen-failed")
            return shared
        if s not in live:
            live[s] = (w.call("open", lambda: w.open_store(base, "flat"), "reopen-failed"), None)
        return live[s][0]

    def reboot():
        nonlocal shared
        boot.reboot()
        live.clear()
        shared = None

    def state(but=None):
        """What is recorded for all keys, but those of this stream."""
        st = w.open_store(base, "flat")
        out = {}
        for j, m in enumerate(models):
            for k in m.keys if j != but else ():
                keys = store_keys(k)
                if j in hurt:
                    out[k["n"]] = w.tree(base + "/" + k["n"])
                    continue
                out[k["n"]] = (w.call(f"read {k['n']}", lambda: aggs.read(st, k), "read-failed"), aggs.canon_md(aggs.restart_md(st, k)), [w.user_md(st[x]) if x in st else None for x in keys])
        for u in users:
            out[u.name] = w.canon(st[u].pdf) if u in st else None
        out["keys"] = [str(x) for x in st if but is None or x not in [y for k in models[but].keys for y in store_keys(k)]]
        return out

    def same(before, what, but=None):
        after = state(but)
        for x in before:
            if before[x] != after[x]:
                raise Violation("disturbed", f"{what}: '{x}' was {before[x]}, and is {after[x]}")

    def user_md(what, j):
        st = w.open_store(base, "flat")
        for k in models[j].keys:
            for x in store_keys(k):
                if x in st and w.user_md(st[x]) != md.get(x, {}):
                    raise Violation("user-metadata", f"{what}: user metadata of {x} is {w.user_md(st[x])}, set {md.get(x, {})}")

    ops = plan["ops"]
    crash = plan.get("crash")
    for n, op in enumerate(ops):
        what = f"op {n} {op['op']} {op.get('s', '')}"
        if op["op"] == "reboot":
            reboot()
            order.append("r")
            continue
        if op["op"] in ("user", "user_del"):
            u = users[op["u"]]
            st = store_of(-1)
            if op["op"] == "user":
                before = state()
                w.call(what, lambda: st.set(u, w.frame(op["rows"]), ordered_on="o", max_row_group_size=3))
                own_rows.setdefault(u, []).extend(op["rows"])
            elif u in own_rows and u in st:
                before = state()
                w.call(what, lambda: st.__delitem__(u))
                own_rows.pop(u)
            else:
                continue
            before.pop(u.name), before.pop("keys")
            same(before, what)
            continue
        s = op["s"]
        if s >= len(models) or s in dead:
            continue
        m = models[s]
        if op["op"] == "md":
            st = w.open_store(base, "flat")
            for x in store_keys(m.keys[-1])[:1] if s not in hurt else ():
                if x in st:
                    w.call(what, lambda: write_metadata(st[x].pf, metadata=dict(op["md"]), md_key=x))
                    cur = md.setdefault(x, {})
                    for y, v in op["md"].items():
                        cur.pop(y, None) if v is None else cur.update({y: v})
            if s not in hurt:
                user_md(what, s)
            continue
        # A call.
        following = next((x for x in ops[n + 1:] if x["op"] == "reboot" or (x["op"] == "agg" and x["s"] == s)), None)
        final = op["final"] or following is None or following["op"] == "reboot"
        st = store_of(s)
        if isinstance(m, Fed):
            src = plan["casc"][s - len(plan["streams"])]["src"][0]
            fresh = w.open_store(base, "flat")
            if m.src not in fresh or src in dead | hurt or not len(fresh[m.src].pf.to_pandas()):
                continue
        before = state(but=s)
        stream = live.get(s, (None, None))[1]
        if stream is None:
            try:
                stream = m.make(st)
            except Exception as e:
                if crash and crash.get("done") and isinstance(e, ValueError):
                    # Restart is refused, keys have to be reset.
                    dead.add(s), hurt.add(s)
                    ctx.stats["refused"] += 1
                    order.append("x")
                    continue
                w.call(f"{what}: create", lambda: m.make(st), "create-failed")
                raise
            live[s] = (st, stream)
        go = m.call(stream, st, op, final)
        what += f" (final {bool(final)})"
        if crash and crash["at_op"] == n:
            out, _, _, fired = storef.attempt(lambda: w.call(what, go, "agg-failed"), [dict(crash["fault"])], ctx)
            if out == "crash":
                crash = dict(crash, done=1)
                reboot()
                for x in models:
                    x.again()
                order.append("k")
                hurt.add(s)
                same(before, what + ", crashed", but=s)
                continue
        else:
            w.call(what, go, "agg-failed")
        ctx.stats["calls"] += 1
        order.append(s)
        same(before, what, but=s)
        if final:
            hurt.discard(s)
            user_md(what, s)
            st = w.open_store(base, "flat")
            for k in m.keys:
                got = w.call(f"{what}: read {k['n']}", lambda: aggs.read(st, k), "read-failed")
                for part, rows in m.expected(k).items():
                    if (got.get(part) or []) != rows:
                        raise Violation(f"results-{part}", f"{what}: {part} of key {k['n']}: {a.diff(got.get(part) or [], rows)}")
                name = m.p.get("pre")
                if name and m.feed.restart is not None:
                    buf = (aggs.restart_md(st, k) or {}).get("pre_buffer")
                    # What is recorded may be from before chunks in which there was nothing to aggregate.
                    if set(buf or ()) != {name} or not 0 < buf[name] <= m.checked:
                        raise Violation("pre-buffer", f"{what}: buffer of 'pre' recorded with key {k['n']} is {buf}, 'pre' of this stream was given {m.checked} rows as {name}")
            ctx.stats["final_writes"] += 1
        ctx.note(f"{what} {sorted(before['keys'])}")
    st = w.open_store(base, "flat")
    for u, rows in own_rows.items():
        w.check_content(w.canon(st[u].pdf), [rows], None, True, f"user key {u}") if len({r[2] for r in rows}) == len(rows) else None
    ctx.nontrivial = any(x != y and isinstance(x, int) and isinstance(y, int) for x, y in zip(order, order[1:]))
    ctx.stats["cascades"] += len(plan["casc"])
    ctx.seen([isinstance(m, Fed) for m in models], order, plan["one_store"])
    ctx.sample = {"streams": [[k["n"] for k in m.keys] for m in models], "ops": plan["ops"][:6], "crash": plan.get("crash")}


def shrink(plan):
    if plan.get("crash"):
        yield {k: v for k, v in plan.items() if k != "crash"}
    for n in range(len(plan["ops"])):
        c = plan.get("crash")
        if c and c["at_op"] == n:
            continue
        p = dict(plan, ops=plan["ops"][:n] + plan["ops"][n + 1:])
        if c and c["at_op"] > n:
            p["crash"] = dict(c, at_op=c["at_op"] - 1)
        yield p
    for n, op in enumerate(plan["ops"]):
        if op.get("cuts"):
            yield dict(plan, ops=plan["ops"][:n] + [dict(op, cuts=[])] + plan["ops"][n + 1:])
    for s, p in enumerate(plan["streams"]):
        for keep in shrink_list(list(range(len(p["rows"]))), 2):
            q = dict(p, rows=[p["rows"][j] for j in keep])
            yield dict(plan, streams=plan["streams"][:s] + [q] + plan["streams"][s + 1:])
