EDITS = {"oups/aggstream/aggstream.py": [("            seed_remainder = seed_chunk.loc[~filter_main_chunk]\n", """            if filter_main_chunk.any():
                seed_remainder = seed_chunk.loc[~filter_main_chunk]
""")]}
META = {"property": "A01", "needs": "'discard_last', and a chunk of which all rows have the index of the last row of previous chunk",
 "what_it_breaks": "rows of this chunk are lost"}
DEMO = '''
from oups import AggStream
from pandas import Grouper

m = [0, 2, 4, 6, 8, 8, 8, 8, 8, 12, 14, 22, 24]
seed = DataFrame({"ts": [T(x) for x in m], "v": np.arange(1, len(m) + 1)})
conf = dict(ordered_on="ts", agg={"s": ("v", "sum")}, bin_by=Grouper(key="ts", freq="10T", closed="left", label="left"))
ps = ParquetSet(TMP, Indexer)
a, b = Indexer("a"), Indexer("b")
AggStream(store=ps, keys=a, **conf).agg(seed, trim_start=True, discard_last=True)
AggStream(store=ps, keys=b, **conf).agg([seed.iloc[:6], seed.iloc[6:8], seed.iloc[8:]], trim_start=True, discard_last=True)
if not ps[a].pdf.equals(ps[b].pdf):
    fail(ps[a].pdf, ps[b].pdf)
'''
