EDITS = {"oups/store/router.py": [("        return ParquetFile(self._dirpath).to_pandas()\n", "        return self.pf.to_pandas()\n")]}
META = {"property": "S06", "needs": "a handle kept by the user while the dataset is written, and read in pandas before and after",
 "what_it_breaks": "data read in pandas is that of before the write (or raises), while vaex and min_max of same handle follow the dataset"}
DEMO = '''
ps = ParquetSet(TMP, Indexer)
k = Indexer("a")
cfg = dict(ordered_on="ts", duplicates_on="ts", max_row_group_size=3)
ps[k] = cfg, DataFrame({"ts": np.arange(9), "v": np.arange(9)})
h = ps[k]
assert len(h.pdf) == 9
ps[k] = cfg, DataFrame({"ts": np.arange(9, 12), "v": np.arange(3)})
try:
    n = len(h.pdf)
except Exception as e:
    fail(repr(e))
if n != 12 or tuple(h.min_max("ts")) != (0, 11) or len(h.vdf) != 12:
    fail(n)
'''
