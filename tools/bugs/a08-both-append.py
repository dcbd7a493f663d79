EDITS = {"oups/aggstream/aggstream.py": [("""            store[main_key] = (
                write_config | {KEY_MAX_ROW_GROUP_SIZE: write_config[KEY_MAX_ROW_GROUP_SIZE][0]},
                main_res,
            )
""", """            store[main_key] = (
                write_config
                | {KEY_MAX_ROW_GROUP_SIZE: write_config[KEY_MAX_ROW_GROUP_SIZE][0]}
                # Intermediate write: only completed bins, written once.
                | ({KEY_DUPLICATES_ON: None} if last_seed_index is None else {}),
                main_res,
            )
""")]}
META = {"property": "A08", "needs": "bins and snapshots recorded, restart on existing results, then an intermediate write (results larger than 'max_in_memory_size') which first bin completes the one in progress at previous final write",
 "what_it_breaks": "the in-progress bin of previous run is kept besides its final value"}
DEMO = '''
from oups import AggStream
from pandas import Grouper

seed = DataFrame({"ts": [T(m) for m in range(0, 400, 5)], "v": np.arange(1, 81)})
conf = dict(ordered_on="ts", agg={"s": ("v", "sum")}, bin_by=Grouper(key="ts", freq="20T", closed="left", label="left"), snap_by=Grouper(key="ts", freq="10T", closed="left", label="right"))
res = []
for name, size in (("a", 0.00001), ("b", 140)):
    ps = ParquetSet(TMP, Indexer)
    k = Indexer(name)
    s = AggStream(store=ps, keys=(k, Indexer(name + "s")), max_in_memory_size=size, **conf)
    for start, end in ((0, 35), (35, 80)):
        s.agg([seed.iloc[i : min(i + 6, end)] for i in range(start, end, 6)], trim_start=False, discard_last=False)
    res.append(ps[k].pdf)
if not res[0].equals(res[1]):
    fail(*res)
'''
