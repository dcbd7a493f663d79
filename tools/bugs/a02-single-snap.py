EDITS = {"oups/aggstream/aggstream.py": [("            agg_buffers[KEY_SNAP_RES_BUFFER].append(snap_res.iloc[:-1])\n", "            agg_buffers[KEY_SNAP_RES_BUFFER].append(\n                snap_res.iloc[:-1] if len(snap_res) > 1 or not bin_res_buffer[:-1] else snap_res,\n            )\n")]}
META = {"property": "A02", "needs": "snapshots, and a chunk that is not the first and in which a single snapshot is in progress, continued by next chunk, before results are first written",
 "what_it_breaks": "an in-progress snapshot is kept besides its final value"}
DEMO = '''
from oups import AggStream
from pandas import Grouper

ps = ParquetSet(TMP, Indexer)
seed = DataFrame({"ts": [T(m) for m in range(0, 40, 2)], "v": np.arange(1, 21)})
conf = dict(ordered_on="ts", agg={"s": ("v", "sum")}, bin_by=Grouper(key="ts", freq="30T", closed="left", label="left"), snap_by=Grouper(key="ts", freq="10T", closed="left", label="right"))
ref, k = Indexer("ref"), Indexer("k")
AggStream(store=ps, keys=ref, **conf).agg(seed, trim_start=False, discard_last=False)
AggStream(store=ps, keys=k, **conf).agg([seed.iloc[i : i + 2] for i in range(0, 20, 2)], trim_start=False, discard_last=False)
if not ps[k].pdf.equals(ps[ref].pdf):
    fail(ps[k].pdf, ps[ref].pdf)
'''
