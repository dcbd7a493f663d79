EDITS = {"oups/store/writer.py": [("                    rrg_start_idx = min(rrg_start_idx_tmp, rrg_start_idx)\n", "                    rrg_start_idx = max(rrg_start_idx_tmp, rrg_start_idx)\n")]}
META = {"property": "S08", "needs": "several incomplete row groups at the end, when an update that overlaps only the last ones is made with 'max_nirgs' set",
 "what_it_breaks": "incomplete row groups before those overlapped are not coalesced: there are more of them than 'max_nirgs'"}
DEMO = '''
for n in (4, 6, 9):
    k = Indexer("a%d" % n)
    ps = ParquetSet(TMP, Indexer)
    for i in range(n):
        ps[k] = dict(ordered_on="ts", max_row_group_size=20), DataFrame({"ts": [2 * i], "v": [i]})
    ps[k] = dict(ordered_on="ts", max_row_group_size=20, max_nirgs=2), DataFrame({"ts": [2 * n - 2, 2 * n - 1], "v": [n, n + 1]})
    got = ps[k].pf
    if got.to_pandas().ts.tolist() != [2 * i for i in range(n)] + [2 * n - 2, 2 * n - 1]:
        fail("rows", n, got.to_pandas())
    if len(got.row_groups) > 2:
        fail(n, [rg.num_rows for rg in got.row_groups])
'''
