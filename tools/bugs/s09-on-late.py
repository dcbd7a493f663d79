EDITS = {'oups/store/writer.py': [('        if ordered_on not in all_cols:\n', '        if os_path.isdir(dirpath) and ordered_on not in all_cols:\n')]}
META = {'property': 'S09', 'needs': 'first write of a key, to be ordered on a column that does not exist', 'what_it_breaks': 'the write is accepted'}
DEMO = '''
ps = ParquetSet(TMP, Indexer)
k = Indexer("a")
try:
    ps[k] = dict(ordered_on="absent"), DataFrame({"ts": [1, 2], "v": [1, 2]})
except Exception:
    pass
else:
    fail("not refused")
if len(ps) or len(ParquetSet(TMP, Indexer)):
    fail("listed")
'''
