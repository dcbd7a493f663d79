EDITS = {'oups/store/writer.py': [('            iter_data = iter_dataframe(data, max_row_group_size)\n            pf.write_row_groups(\n                data=iter_data,\n                row_group_offsets=None,\n                sort_pnames=False,\n                compression=compression,\n                write_fmd=False,\n            )\n            if rrg_insert_idx', '            for chunk in iter_dataframe(data, max_row_group_size):\n                pf.write_row_groups(\n                    data=[chunk],\n                    row_group_offsets=None,\n                    sort_pnames=False,\n                    compression=compression,\n                    write_fmd=rrg_insert_idx is None,\n                )\n            if rrg_insert_idx')]}
META = {'property': 'S09', 'needs': "data of several row groups is appended, with a value of a later row group that can't be encoded", 'what_it_breaks': 'the write is refused, but its first row groups are recorded'}
DEMO = '''
class Odd:
    pass
k = Indexer("a")
ps = ParquetSet(TMP, Indexer)
ps[k] = dict(ordered_on="ts", max_row_group_size=2), DataFrame({"ts": [1, 2], "v": ["a", "b"]})
for kw in ({}, {"ordered_on": "ts"}):
    try:
        ps.set(k, DataFrame({"ts": [3, 4, 5, 6], "v": ["c", "d", "e", Odd()]}), max_row_group_size=2, **kw)
    except Exception:
        pass
    else:
        fail("not refused")
    got = ParquetSet(TMP, Indexer)[k].pdf.ts.tolist()
    if got != [1, 2]:
        fail(kw, got)
'''
