EDITS = {"oups/store/writer.py": [("""                    if value is None:
                        # Case 'remove'.
                        del existing_oups_spec_md[key]
                    else:
                        # Case 'update'.
                        existing_oups_spec_md[key] = value
""", """                    if value is None:
                        # Case 'remove'.
                        del existing_oups_spec_md[key]
                    elif type(value) is type(existing_oups_spec_md[key]):
                        # Case 'update'.
                        existing_oups_spec_md[key] = value
                    else:
                        existing_oups_spec_md.setdefault(key, value)
""")]}
META = {"property": "S07", "needs": "library-specific metadata value updated with a value of another type",
 "what_it_breaks": "the update is silently lost"}
DEMO = '''
from oups.store.writer import OUPS_METADATA
ps = ParquetSet(TMP, Indexer)
k = Indexer("a")
df = DataFrame({"ts": np.arange(6), "v": np.arange(6)})
OUPS_METADATA[k] = {"a": 1, "b": 2}
ps[k] = df
OUPS_METADATA[k] = {"a": "x"}
ps[k] = df
if ps[k]._oups_metadata != {"a": "x", "b": 2}:
    fail(ps[k]._oups_metadata)
'''
