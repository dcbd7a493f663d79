EDITS = {"oups/store/collection.py": [("            rmtree(dirpath)\n            self._keys.remove(key)\n", "            self._keys.remove(key)\n            rmtree(dirpath)\n")]}
META = {"property": "S04", "needs": "a file cannot be removed while deleting a key",
 "what_it_breaks": "key is no longer listed, while (part of) its dataset is still on disk and listed by a new instance"}
DEMO = '''
import shutil as sh
ps = ParquetSet(TMP, Indexer)
k = Indexer("a")
ps[k] = DataFrame({"ts": np.arange(6), "v": np.arange(6)})
import oups.store.collection as c


def bad(*a, **kw):
    raise OSError("busy")


orig = c.rmtree
c.rmtree = bad
try:
    del ps[k]
except OSError:
    pass
c.rmtree = orig
if set(ps.keys) != set(ParquetSet(TMP, Indexer).keys):
    fail(set(ps.keys), set(ParquetSet(TMP, Indexer).keys))
'''
