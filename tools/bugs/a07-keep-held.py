EDITS = {"oups/aggstream/aggstream.py": [("    if initial_agg_res:\n        # If there have", "    if initial_agg_res and (is_main_res or last_seed_index is not None):\n        # If there have")]}
META = {"property": "A07", "needs": "an intermediate write (results larger than 'max_in_memory_size') for which 'post' holds results back",
 "what_it_breaks": "bins already handed over to 'post' are handed over again"}
DEMO = '''
from oups import AggStream
from pandas import Grouper

ps = ParquetSet(TMP, Indexer)
k = Indexer("k")
seen = []


def post(buffer, bin_res):
    seen.extend(bin_res["s"].tolist())
    buffer["n"] = buffer.get("n", 0) + 1
    return bin_res if buffer["n"] > 2 else None


seed = DataFrame({"ts": [T(m) for m in range(0, 200, 10)], "v": np.arange(1, 21)})
conf = dict(ordered_on="ts", agg={"s": ("v", "sum")}, bin_by=Grouper(key="ts", freq="10T", closed="left", label="left"), post=post, max_in_memory_size=0.00001)
AggStream(store=ps, keys=k, **conf).agg([seed.iloc[i : i + 4] for i in range(0, 20, 4)], trim_start=False, discard_last=False)
if seen != list(range(1, 21)):
    fail(seen)
'''
