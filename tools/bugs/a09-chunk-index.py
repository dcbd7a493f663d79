EDITS = {"oups/aggstream/aggstream.py": [("                yield last_seed_index, pre_buffer, filt_id, seed_chunk\n", "                seed_chunk.reset_index(drop=True, inplace=True)\n                yield last_seed_index, pre_buffer, filt_id, seed_chunk\n")]}
META = {"property": "A09", "needs": "chunks with an index of their own, all rows of which are aggregated (no row trimmed nor filtered out)",
 "what_it_breaks": "index of the user's frames is replaced in place: feeding another stream with them, or aligning them afterwards, goes wrong"}
DEMO = '''
from oups import AggStream
from pandas import Grouper, Timestamp
ps = ParquetSet(TMP, Indexer)
def frame(lo):
    return DataFrame({"ts": [Timestamp("2020/01/01") + pd.Timedelta(minutes=lo + i) for i in range(6)], "v": range(lo + 1, lo + 7)}, index=range(100 + lo, 106 + lo))
chunks = [frame(0), frame(6)]
given = [c.copy() for c in chunks]
for name in ("a", "b"):
    s = AggStream(ordered_on="ts", store=ps, keys={Indexer(name): {"agg": {"s": ("v", "sum")}, "bin_by": Grouper(key="ts", freq="4min")}})
    s.agg(chunks, trim_start=False, discard_last=False, final_write=True)
for c, g in zip(chunks, given):
    if not c.index.equals(g.index) or not c.equals(g):
        fail("chunk modified", list(c.index), list(g.index))
'''
