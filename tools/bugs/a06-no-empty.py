EDITS = {"oups/aggstream/aggstream.py": [("            store[main_key] = DataFrame()\n", "            if len(agg_buffers[KEY_SEGAGG_BUFFER]):\n                store[main_key] = DataFrame()\n")]}
META = {"property": "A06", "needs": "a filter that accepts no row of all the seed of first run, then a second run",
 "what_it_breaks": "no restart metadata for this key: restarting is refused"}
DEMO = '''
from oups import AggStream
from pandas import Grouper

seed = DataFrame({"ts": [T(x) for x in range(0, 40, 2)], "v": np.arange(1, 21)})
a, b = Indexer("a"), Indexer("b")


def stream():
    by = {"bin_by": Grouper(key="ts", freq="10T", closed="left", label="left"), "agg": {"s": ("v", "sum")}}
    return AggStream(store=ParquetSet(TMP, Indexer), keys={"low": {a: by}, "high": {b: by}}, ordered_on="ts", filters={"low": [("v", "<=", 10)], "high": [("v", ">", 10)]})


stream().agg(seed.iloc[:8], trim_start=True, discard_last=True)
try:
    stream().agg(seed, trim_start=True, discard_last=True)
except ValueError as e:
    fail(e)
if ParquetSet(TMP, Indexer)[b].pdf["s"].sum() != sum(range(11, 20)):
    fail(ParquetSet(TMP, Indexer)[b].pdf)
'''
