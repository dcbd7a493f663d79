"""A04 A failing seed check keeps the last good results and resumes exactly."""
import copy
import os
import shutil

from sim import aggs, boot, fsim, sched
from sim import aggw as a
from sim import storew as w
from sim.core import Violation, shrink_list

LEVEL = "exploration"
RUNS = {"quick": 500, "thorough": 20000}
RULE = ("one run = an aggregation history of 1-3 keys (bins, snapshots or both, filters) over 1-3 process lives; in front of calls, up to three "
        "attempts at the same call fail on a seeded chunk: `pre` raises before, or after having changed, its buffer, or the chunk is not ordered; "
        "the seed is then repaired and fed again in the same or in a new process. After each failing attempt with final write, results, restart "
        "index and pre buffer of every key are compared with those of the chunks that precede the failing one; the pre buffer is compared at each "
        "call of `pre`. Distinct = (history class, kinds and positions of the failures, same or new process); non-trivial = a check failed")
ASSUMPTIONS = ["`pre` depends only on its chunk and its buffer", "in the same process the seed is re-fed to the same AggStream instance",
               "no 0 in aggregated columns ('cumsegagg' refuses results equal to 0)"]
TIME_NOTE = "seed timestamps span minutes to days per run; no clock is read"


class Bad(Exception):
    pass


def gen(rng, i, tier):
    plan = aggs.gen_plan(rng, snaps=False, filters=rng.random() < 0.3, post=[None, None, "row"], sizes=(6, 10, 16, 24, 40))
    for j, k in enumerate(plan["keys"]):
        if plan["on"] == "ts" and rng.random() < 0.3:
            plan["keys"][j] = dict(aggs.gen_key(rng, j, True, "ts", False, k["post"]), f=k["f"])
    plan.pop("jit", 0)
    plan["lives"] = plan["lives"][:3]
    plan["lives"][-1][-1]["to"] = len(plan["rows"])
    aggs.bound_size(plan, rows=300, files=40)
    n_fail = 0
    for li in plan["lives"]:
        for c in li:
            c.pop("empty", 0)
            if rng.random() < 0.6 or not n_fail:
                c["fails"] = [{"pos": round(rng.random(), 3), "how": rng.choice(["early", "late", "late", "order"]), "final": int(rng.random() < 0.8),
                               "then": rng.choice(["same", "new"])} for _ in range(rng.choice([1, 1, 2, 3]))]
                n_fail += 1
    plan["inplace"] = int(rng.random() < 0.3)
    return plan


def pre_of(st):
    """`pre` as a user writes it; `st` tells which chunk to reject and collects what is seen."""
    def pre(on, buffer):
        k = st["n"]
        st["n"] += 1
        if buffer != st["buffer"]:
            raise Violation("pre-buffer", f"chunk {k}: `pre` is given buffer {dict(buffer)} instead of {st['buffer']}")
        if st["fail"] == (k, "early"):
            raise Bad("early")
        ids = on["i"].tolist()
        buffer["calls"] = buffer.get("calls", 0) + 1
        buffer.setdefault("seen", []).append(ids[-1])
        buffer["first"] = {"id": ids[0], "ts": on["ts"].iloc[0]}
        if st["fail"] == (k, "late"):
            raise Bad("late")
        if st["inplace"]:
            on["v"] = on["v"] + 1000
        if st["fail"] != (k, "order"):
            st["buffer"] = copy.deepcopy(dict(buffer))

    return pre


def run(plan, ctx):
    from oups.aggstream.aggstream import SeedPreException

    a.set_jit(plan.get("jit"))
    df = a.seed_frame(plan["rows"], plan["unit"], plan["on"], plan.get("nulls"))
    df["i"] = range(len(df))
    ref = df.copy()
    ref_plan = plan
    if plan["inplace"]:
        ref["v"] = ref["v"] + 1000
        # Filters look at modified values.
        ref_plan = dict(plan, rows=[[r[0], r[1] + 1000, *r[2:]] for r in plan["rows"]])
    base = ctx.dir + "/store"
    st = {"n": 0, "fail": None, "buffer": {}, "inplace": plan["inplace"], "partial": False}
    mem = aggs.Feed(ref_plan)
    disk = (mem.copy(), {})
    stream = None

    def start(what):
        nonlocal mem, stream
        boot.reboot()
        mem = disk[0].copy()
        st["buffer"] = copy.deepcopy(disk[1])
        store = w.open_store(base, "flat")
        if mem.restart is None and st["partial"]:
            # Without any final write, results of intermediate writes can be refused: start again from nothing.
            try:
                stream = aggs.make(plan, store, pre=pre_of(st))
                return
            except ValueError as e:
                ctx.note(f"{what}: refused, {e}")
                ctx.stats["refused"] += 1
                st["partial"] = False
                shutil.rmtree(base)
                boot.reboot()
                store = w.open_store(base, "flat")
        stream = w.call(f"{what}: create", lambda: aggs.make(plan, store, pre=pre_of(st)), "create-failed")

    def attempt(call, what, fail=None):
        nonlocal disk
        b = mem.bounds(call)
        st["n"], st["fail"] = 0, None
        stop = len(b)
        frames = [df.iloc[x:z].reset_index(drop=True) for x, z in b]
        if fail:
            if not b:
                return False
            stop = min(int(fail["pos"] * len(b)), len(b) - 1)
            c = frames[stop]
            how = fail["how"]
            if how == "order" and c["ts"].is_monotonic_increasing and not c["ts"][::-1].is_monotonic_increasing:
                frames[stop] = c.iloc[::-1].reset_index(drop=True)
            elif how == "order":
                how = "late"
            st["fail"] = (stop, how)
        final = fail["final"] if fail else call["final"]
        t = plan["mode"] == "T"
        try:
            stream.agg(seed=iter(frames), trim_start=t, discard_last=t, final_write=bool(final))
            raised = None
        except SeedPreException as e:
            raised = e
        except Violation:
            raise
        except Exception as e:
            raise Violation("agg-failed", f"{what}: {type(e).__name__}: {e}", exc=type(e).__name__)
        ctx.note(f"{what}: fed {b}, stopped at {stop}, raised {raised!r}")
        if bool(raised) != bool(fail):
            raise Violation("exception", f"{what}: check {'failed' if fail else 'did not fail'} and agg() {'raised ' + repr(raised) if raised else 'did not raise'}")
        if fail and how != "order" and how not in str(raised.message):
            raise Violation("exception", f"{what}: message of the user's exception is lost: {raised.message!r}")
        mem.advance(b[:stop])
        if not final:
            st["partial"] = True
        if final:
            if mem.restart is not None:
                disk = (mem.copy(), copy.deepcopy(st["buffer"]))
            compare(what)
        if fail:
            ctx.stats["fault:failed_check_" + how] += 1
            ctx.nontrivial = True
            ctx.seen(plan["mode"], len(plan["keys"]), [(k["f"], bool(k["snap"]), k.get("both")) for k in plan["keys"]], how, stop, len(b), fail["then"], final)
        return True

    def compare(what):
        s = w.open_store(base, "flat")
        aggs.check(s, ref_plan, ref, mem.agg_to, what)
        if mem.restart is None:
            return
        # Restart index is the value of 'ts' of this row.
        want = ref["ts"].iloc[next(j for j, r in enumerate(plan["rows"]) if r[0] == mem.restart)]
        for k in plan["keys"]:
            md = aggs.restart_md(s, k)
            if md is None or md["restart_index"] != want:
                raise Violation("restart-index", f"{what}: key {k['n']} is to be restarted from {md and md['restart_index']} instead of {want}")
            if md["pre_buffer"] != st["buffer"]:
                raise Violation("pre-buffer", f"{what}: pre buffer kept with key {k['n']} is {md['pre_buffer']} instead of {st['buffer']}")

    for li, calls in enumerate(plan["lives"]):
        start(f"life {li}")
        for ci, call in enumerate(calls):
            for fi, f in enumerate(call.get("fails", ())):
                what = f"life {li} call {ci} failure {fi} ({f['how']})"
                if attempt(call, what, f) and f["then"] == "new":
                    start(what + ", new process")
            attempt(call, f"life {li} call {ci}")
            ctx.stats["calls"] += 1
    ctx.sample = {k: plan[k] for k in ("mode", "keys", "lives")}


def shrink(plan):
    for i, li in enumerate(plan["lives"]):
        for j, c in enumerate(li):
            for fails in shrink_list(c.get("fails", []), 0):
                yield dict(plan, lives=plan["lives"][:i] + [li[:j] + [dict(c, fails=fails)] + li[j + 1:]] + plan["lives"][i + 1:])
    if plan["inplace"]:
        yield dict(plan, inplace=0)
    yield from aggs.shrink(plan)
