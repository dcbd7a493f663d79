EDITS = {"oups/store/writer.py": [("        del OUPS_METADATA[md_key]\n", "")]}
META = {"property": "S07", "needs": "library-specific metadata set for a key and written with write_metadata() directly, then another write to the key from elsewhere",
 "what_it_breaks": "pending metadata is not reset: a later unrelated write re-applies it over newer values"}
DEMO = '''
from oups.store.writer import OUPS_METADATA, write_metadata
ps = ParquetSet(TMP, Indexer)
k = Indexer("a")
ps[k] = DataFrame({"ts": np.arange(6), "v": np.arange(6)})
OUPS_METADATA[k] = {"a": 1}
write_metadata(pf=ps[k].pf, md_key=k)
if k in OUPS_METADATA:
    fail(OUPS_METADATA)
'''
