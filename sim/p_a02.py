"""A02 Snapshots do not depend on how the seed is chunked or restarted."""
from sim import aggs

LEVEL = "exploration"
RUNS = {"quick": 500, "thorough": 30000}
RULE = ("one run = a seeded seed (3-55 rows), 1-3 keys with their own binning (time grouper or row count) and time-based snapshots, recorded alone or "
        "together with the bins, filters, write settings and memory limit, fed over 1-4 process lives of 1-3 calls each, every call with its own "
        "chunking, re-feed point and final-write choice; snapshots and bins in the store are compared with a brute-force reference after every "
        "final write. Distinct = (mode, key configurations, call structure); non-trivial = several lives or chunks")
ASSUMPTIONS = ["no 0 in aggregated columns ('cumsegagg' refuses results equal to 0)",
               "each process ends with a final write (what happens otherwise is A03)",
               "each call feeds rows from at most the restart index on (trim_start & discard_last), or exactly the rows not fed yet"]
TIME_NOTE = "seed timestamps span minutes to days per run; no clock is read"


def gen(rng, i, tier):
    return aggs.gen_plan(rng, snaps=True, post=[None, None, None, "row"])


def run(plan, ctx):
    aggs.run_lives(plan, ctx)


shrink = aggs.shrink
