"""Operations on a store under injected faults."""
import os
import shutil

from sim import boot, fsim
from sim import storew as w
from sim.core import Violation

ERR = ["eio", "enospc", "eacces", "emfile", "torn_eio", "torn_enospc", "enospc_sticky"]
CRASH = ["crash_before", "crash_after", "crash_torn"]


def gen_fault(rng, p_crash=0.55):
    """A fault at a relative position of the operation it is injected in."""
    if rng.random() < p_crash:
        k = rng.choice(CRASH)
        on = "mut"
    else:
        k = rng.choice(ERR)
        on = "mut" if k.startswith(("torn", "enospc")) or rng.random() < 0.6 else "all"
    return {"on": on, "pos": round(rng.random(), 4), "kind": k, "frac": round(rng.choice([0.0, rng.random(), rng.random(), 0.999]), 3)}


def place(fault, n_all, n_mut):
    """Absolute event number of a fault given the counts of a dry run."""
    n = n_mut if fault["on"] == "mut" else n_all
    f = {k: v for k, v in fault.items() if k != "pos"}
    f["at"] = min(int(fault["pos"] * n), max(n - 1, 0)) if "at" not in fault else fault["at"]
    return f


def attempt(fn, faults, ctx):
    """
    Run fn() under these faults.

    Returns (outcome, n_all, n_mut, fired) where outcome is "ok", "crash", or
    "error:<type>".
    """
    fsim.arm(faults, ctx.log)
    try:
        fn()
        outcome = "ok"
    except fsim.SimCrash:
        outcome = "crash"
    except Violation:
        raise
    except Exception as e:
        outcome = f"error:{type(e).__name__}"
    if fsim.S.dead:
        outcome = "crash"
    n_all, n_mut, fired = fsim.disarm()
    ctx.fault_fired(fired)
    ctx.note(f"outcome {outcome}")
    return outcome, n_all, n_mut, fired


def view(ps, key, kind, paths=w.PATHS):
    """Every read path of a key; fault-free, must not raise and must agree."""
    o = w.call(f"read {key.to_path}", lambda: w.observe(ps, key, kind, paths), "read-failed")
    for p in paths[1:]:
        if o[p] != o[paths[0]]:
            raise Violation("read-paths-disagree", f"{key.to_path}: {paths[0]} gives uids {[r[2] for r in o[paths[0]]]}, {p} gives uids {[r[2] for r in o[p]]}")
    return {"rows": o[paths[0]], "md": o["md"], "oups_md": o["oups_md"]}


def brief(v):
    return None if v is None else {"uids": [r[2] for r in v["rows"]], "md": v["md"], "oups_md": v["oups_md"]}


def fresh_copy(src, dst):
    if os.path.exists(dst):
        shutil.rmtree(dst)
    w.copy_tree(src, dst)


def do_op(ps, key, op, kind):
    """One operation on a key."""
    if op["op"] == "write":
        w.do_write(ps, key, op, kind)
    elif op["op"] == "md":
        from oups.store.writer import write_metadata

        write_metadata(ps[key].pf, metadata=dict(op["md"]), md_key=key)
    elif op["op"] == "del":
        del ps[key]
    else:
        raise ValueError(op["op"])
