"""A07 User buffers are carried exactly across chunks, writes and restarts."""
import copy

import numpy as np
import pandas as pd

from sim import aggs, boot, fsim, sched
from sim import aggw as a
from sim import storew as w
from sim.core import Violation, shrink_list

LEVEL = "exploration"
RUNS = {"quick": 400, "thorough": 20000}
RULE = ("one run = an aggregation history of 1-4 keys over 1-4 process lives, with instrumented `pre`, binning callables and `post` whose buffers hold "
        "nested containers, numpy scalars, timestamps and frames; at each call, the buffer is compared with what the same function left in it at its "
        "previous call for that key; rows given to `post` are checked to be the key's bins and snapshots, in order, each completed one with its "
        "final values; some `post` hold back results until they have seen enough; some runs interleave keys with a seeded thread scheduler. "
        "Distinct = (key configurations, kinds of post, numbers of calls of each function); non-trivial = a buffer went through a restart")
ASSUMPTIONS = ["buffer contents can be pickled", "a `post` that holds results back returns None (a pair of None with two keys), as documented",
               "no 0 in aggregated columns ('cumsegagg' refuses results equal to 0)"]
TIME_NOTE = "seed timestamps span minutes to days per run; no clock is read"


def gen(rng, i, tier):
    plan = aggs.gen_plan(rng, snaps=False, n_keys=rng.choice([1, 2, 3, 4]), filters=rng.random() < 0.3)
    for j, k in enumerate(plan["keys"]):
        if plan["on"] == "ts" and rng.random() < 0.35:
            k = plan["keys"][j] = dict(aggs.gen_key(rng, j, True, "ts", False), f=k["f"])
        elif rng.random() < 0.3:
            k["bin"] = {"by": "b", "closed": rng.choice(["left", "right"])}
        k["upost"] = rng.choice(["log", "log", "warm", None])
        if k["upost"] == "warm":
            k["warm"] = rng.choice([1, 2, 3, 5, 9])
        if rng.random() < 0.5:
            k["mem"] = rng.choice([0, 0.0001, 0.0005])
    if plan.get("jit"):
        for k in plan["keys"]:
            k["aggs"] = dict(rng.choice(a.JIT))
    aggs.bound_size(plan, rows=400, files=60)
    for li in plan["lives"]:
        for c in li:
            c.pop("empty", 0)
    if rng.random() < 0.25:
        plan.pop("jit", 0)
        plan["parallel"] = 1
        plan["lives"] = plan["lives"][-2:]
        aggs.bound_size(plan, rows=80, files=12)
        plan["sched"] = {"seed": rng.randrange(1 << 30), "p": rng.choice([0.0, 0.01, 0.1]), "p_end": 0.8}
    return plan


def mark(who, k):
    """Contents left in a buffer at the k-th call of a function."""
    return {"who": who, "n": k, "np": np.int64(k), "ts": pd.Timestamp("2020-01-01") + pd.Timedelta(k, "min"), "t": (k, [who] * (k % 3), {"x": {k: None}}),
            "f": k / 3, "df": pd.DataFrame({"k": [k, k + 1], "s": [who, None]}), "a": np.arange(k % 5)}


def same(x, y):
    if isinstance(x, dict):
        return isinstance(y, dict) and list(x) == list(y) and all(same(x[k], y[k]) for k in x)
    if isinstance(x, (list, tuple)):
        return type(x) is type(y) and len(x) == len(y) and all(map(same, x, y))
    if isinstance(x, pd.DataFrame):
        return isinstance(y, pd.DataFrame) and x.equals(y)
    if isinstance(x, np.ndarray):
        return isinstance(y, np.ndarray) and x.dtype == y.dtype and np.array_equal(x, y)
    return type(x) is type(y) and x == y


# Entries each kind of function ever makes.
OWN = {"pre": {"u"}, "bin_by": {"u", "last", "n", "end"}, "post": {"u", "open", "held"}}


class Chain:
    """What a user function is to find in its buffer."""

    def __init__(self, who):
        self.who, self.n = who, 0
        self.kept = 0

    def step(self, buffer):
        got = buffer.get("u")
        want = mark(self.who, self.n) if self.n else None
        if not same(got, want):
            raise Violation("buffer", f"{self.who}: buffer holds {got} instead of {want}")
        if foreign := sorted(map(str, set(buffer) - OWN[self.who.split()[0]])):
            raise Violation("buffer", f"{self.who}: buffer holds {foreign} this function never put there")
        self.n += 1
        # Grows in-place or is replaced.
        buffer["u"] = mark(self.who, self.n)


class World:
    """Instrumented functions for a plan, and what they have seen."""

    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.chains, self.calls = {}, {}
        self.final = False
        self.error = None

    def chain(self, who):
        return self.chains.setdefault(who, Chain(who))

    def checked(self, fn):
        """Keep the violation: exceptions of `pre` are turned into others by the code."""
        def f(*args, **kw):
            try:
                return fn(*args, **kw)
            except Violation as v:
                self.error = self.error or v
                raise

        return f

    def pre(self):
        def pre(on, buffer):
            self.chain("pre").step(buffer)

        return self.checked(pre)

    def bin_hook(self, k):
        def by(on, buffer=None, closed="left"):
            self.chain(f"bin_by of {k['n']}").step(buffer)
            return aggs.by_change(on, buffer, closed)

        return self.checked(by)

    def post(self, k):
        both, snap, label = k.get("both"), bool(k["snap"]), aggs.label_of(k)
        log = self.calls.setdefault(k["n"], [])

        def post(buffer, bin_res, snap_res=None):
            self.chain(f"post of {k['n']}").step(buffer)
            if (snap_res is not None) != snap:
                raise Violation("post-args", f"post of {k['n']} is {'' if snap_res is not None else 'not '}given snapshots")
            log.append({"bins": a.canon(bin_res, label, list(k["aggs"])), "snaps": a.canon(snap_res, label, list(k["aggs"])) if snap else None, "final": self.final})
            res = {"bins": bin_res.copy(), "snaps": snap_res.copy() if snap else None}
            if k["upost"] == "warm":
                if not buffer.get("open"):
                    held = buffer.get("held") or {}
                    held = {p: r if held.get(p) is None else pd.concat([held[p], r]).drop_duplicates(label, keep="last", ignore_index=True)
                            for p, r in res.items() if r is not None}
                    buffer["held"] = held
                    if len(held["bins"]) < k["warm"]:
                        return (None, None) if both else None
                    buffer["open"] = True
                    res = {p: held.get(p) for p in res}
                    del buffer["held"]
            return (res["bins"], res["snaps"]) if both else res["snaps" if snap else "bins"]

        return self.checked(post)

    def keep(self):
        """State of buffers is on disk."""
        for c in self.chains.values():
            c.kept = c.n

    def restart(self):
        for c in self.chains.values():
            if c.kept and c.n:
                self.ctx.nontrivial = True
            c.n = c.kept


def check_calls(world, plan, df, upto, what):
    for k in plan["keys"]:
        log = world.calls.get(k["n"])
        if not log:
            continue
        want = aggs.expected(dict(plan, keys=[dict(k, post=None)]), df, upto, dict(k, post=None, both=bool(k["snap"])))
        for part in ("bins", "snaps"):
            if part not in want:
                continue
            ref, labels = want[part], [r[0] for r in want[part]]
            pos, last_final = 0, True
            seen = {}
            for ci, c in enumerate(log):
                rows = c[part]
                for j, r in enumerate(rows):
                    if j and rows[j - 1][0] >= r[0]:
                        raise Violation("post-order", f"{what}: call {ci} of post of {k['n']}: {part} {rows[j - 1][0]} then {r[0]}")
                    if r[0] not in labels:
                        raise Violation("post-rows", f"{what}: call {ci} of post of {k['n']}: unknown label {r[0]} in {part}")
                    p = labels.index(r[0])
                    # Next bin; or again the one in progress at a final write.
                    if not (p == pos or (j == 0 and last_final and p == pos - 1)):
                        raise Violation("post-order", f"{what}: call {ci} of post of {k['n']}: {part} {r[0]} ({p}th) while {pos} have been given")
                    pos = p + 1
                    if j < len(rows) - 1 or not c["final"]:
                        if r != ref[p]:
                            raise Violation("post-rows", f"{what}: call {ci} of post of {k['n']}: completed {part} {r} instead of {ref[p]}")
                    seen[r[0]] = r
                if rows:
                    last_final = c["final"]
            if [seen[x] for x in labels if x in seen] != ref:
                raise Violation("post-rows", f"{what}: post of {k['n']} has been given {part} {a.diff([seen[x] for x in labels if x in seen], ref)}")


def run(plan, ctx):
    a.set_jit(plan.get("jit"))
    df = a.seed_frame(plan["rows"], plan["unit"], plan["on"], plan.get("nulls"))
    feed = aggs.Feed(plan)
    base = ctx.dir + "/store"
    world = World(plan, ctx)
    t = plan["mode"] == "T"
    for li, calls in enumerate(plan["lives"]):
        boot.reboot()
        world.restart()
        store = w.open_store(base, "flat")
        stream = w.call(f"life {li}: create", lambda: aggs.make(
            plan, store, pre=world.pre(), posts={k["n"]: world.post(k) for k in plan["keys"] if k["upost"]},
            bin_hooks={k["n"]: world.bin_hook(k) for k in plan["keys"]}), "create-failed")
        for ci, call in enumerate(calls):
            b = feed.bounds(call)
            what = f"life {li} call {ci}"
            frames = [df.iloc[x:z].reset_index(drop=True) for x, z in b]

            def seed():
                # 'final' is what the next call of post is for.
                world.final = False
                yield from frames
                world.final = True

            if not frames:
                world.final = True
            sched.reset(plan.get("sched"))
            fsim.S.on_event = sched.io_point if plan.get("sched") else None
            try:
                w.call(what, lambda: stream.agg(seed=seed() if frames else None, trim_start=t, discard_last=t, final_write=bool(call["final"])), "agg-failed")
            except Violation as v:
                raise world.error or v
            finally:
                fsim.S.on_event = None
                sched.reset(None)
            feed.advance(b)
            if call["final"]:
                if feed.restart is not None:
                    world.keep()
                else:
                    # Nothing aggregated: nothing to restart from.
                    for c in world.chains.values():
                        c.kept = 0
                check_calls(world, plan, df, feed.agg_to, what)
                disk = w.open_store(base, "flat")
                for k in plan["keys"]:
                    if k["upost"] == "warm":
                        want = aggs.expected(plan, df, feed.agg_to, dict(k, both=bool(k["snap"])))
                        if len(want["bins"]) < k["warm"]:
                            got = aggs.read(disk, k)
                            if any(got.values()):
                                raise Violation("results", f"{what}: key {k['n']} has results {got} while post returned none")
                            continue
                    aggs.check(disk, plan, df, feed.agg_to, what, keys=[k])
            ctx.stats["calls"] += 1
    for c in world.chains.values():
        ctx.stats["buffers_followed"] += 1
        ctx.stats["buffer_steps"] += c.n
    ctx.seen([(sorted(k["bin"].items()), bool(k["snap"]), k.get("both"), k["upost"], k.get("warm"), k.get("mem")) for k in plan["keys"]],
             sorted((c.who, c.n) for c in world.chains.values()), bool(plan.get("sched")))
    ctx.sample = {k: plan[k] for k in ("mode", "keys", "lives")}


def shrink(plan):
    if plan.get("sched"):
        yield dict({k: v for k, v in plan.items() if k != "sched"}, parallel=0)
    for j, k in enumerate(plan["keys"]):
        if k["upost"]:
            yield dict(plan, keys=plan["keys"][:j] + [dict(k, upost=None)] + plan["keys"][j + 1:])
    yield from aggs.shrink(plan)
