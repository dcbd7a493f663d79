EDITS = {'oups/store/writer.py': [('            if not ordered_on:\n                raise ValueError(\n                    "duplicates are', '            if not ordered_on and max_nirgs is None:\n                raise ValueError(\n                    "duplicates are')]}
META = {'property': 'S09', 'needs': "duplicates to look for without column to order on, with 'max_nirgs' set, on a dataset with no incomplete row group", 'what_it_breaks': 'data is appended, duplicates included, instead of being refused'}
DEMO = '''
ps = ParquetSet(TMP, Indexer)
k = Indexer("a")
ps[k] = dict(max_row_group_size=2, max_nirgs=2), DataFrame({"ts": [1, 2], "v": [1, 2]})
try:
    ps[k] = dict(duplicates_on="ts", max_row_group_size=2, max_nirgs=2), DataFrame({"ts": [1, 2], "v": [3, 4]})
except Exception:
    pass
else:
    fail("not refused")
if ps[k].pdf.v.tolist() != [1, 2]:
    fail("changed", ps[k].pdf)
'''
