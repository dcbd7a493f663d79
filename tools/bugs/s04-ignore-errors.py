EDITS = {"oups/store/collection.py": [("            rmtree(dirpath)\n", "            rmtree(dirpath, ignore_errors=True)\n")]}
META = {"property": "S04", "needs": "a file or directory cannot be removed while deleting a key",
 "what_it_breaks": "deletion reports success, the dataset stays and comes back in a new instance"}
DEMO = '''
ps = ParquetSet(TMP, Indexer)
k = Indexer("a")
ps[k] = DataFrame({"ts": np.arange(6), "v": np.arange(6)})
orig = os.unlink


def bad(p, *a, **kw):
    if str(p).endswith(".parquet"):
        raise PermissionError("busy")
    return orig(p, *a, **kw)


os.unlink = bad
raised = False
try:
    del ps[k]
except OSError:
    raised = True
os.unlink = orig
if not raised and (set(ps.keys) != set(ParquetSet(TMP, Indexer).keys)):
    fail(set(ps.keys), set(ParquetSet(TMP, Indexer).keys))
'''
