EDITS = {"oups/aggstream/aggstream.py": [("""    elif last_seed_index is not None:
        # If no result, metadata is possibly to be written, as this is the
        # flag indicating the last 'aggstream' local iteration.
        try:
            write_metadata(pf=store[main_key].pf, md_key=main_key)
""", """    elif last_seed_index is not None:
        # If no result, metadata is possibly to be written, as this is the
        # flag indicating the last 'aggstream' local iteration.
        try:
            recorded = (store[main_key]._oups_metadata or {}).get(KEY_AGGSTREAM)
            if recorded is None or recorded[KEY_RESTART_INDEX] != last_seed_index:
                # Nothing to update otherwise.
                write_metadata(pf=store[main_key].pf, md_key=main_key)
""")]}
META = {"property": "A07", "needs": "a 'post' holding results back, and a call of which all rows share the index of the last row of previous call",
 "what_it_breaks": "post buffer (and in-progress bin) not recorded by this final write"}
DEMO = '''
from oups import AggStream
from pandas import Grouper

ps = ParquetSet(TMP, Indexer)
k = Indexer("k")


def post(buffer, bin_res):
    buffer["n"] = buffer.get("n", 0) + 1
    return None


conf = dict(ordered_on="ts", agg={"s": ("v", "sum")}, bin_by=Grouper(key="ts", freq="10T", closed="left", label="left"), post=post)
AggStream(store=ps, keys=k, **conf).agg(DataFrame({"ts": [T(0), T(1)], "v": [1, 2]}), trim_start=False, discard_last=False)
AggStream(store=ParquetSet(TMP, Indexer), keys=k, **conf).agg(DataFrame({"ts": [T(1), T(1)], "v": [4, 8]}), trim_start=False, discard_last=False)
n = AggStream(store=ParquetSet(TMP, Indexer), keys=k, **conf).agg_buffers[k]["post_buffer"]
if n != {"n": 2}:
    fail(n)
'''
