EDITS = {"oups/store/writer.py": [("            while pf[rrg_start_idx_tmp].count() <= min_row_group_size and rrg_start_idx_tmp >= 0:\n", """            while (
                rrg_start_idx_tmp >= 0
                # No need to count more than this.
                and n_rrgs - 1 - rrg_start_idx_tmp < max(max_nirgs, 1)
                and pf[rrg_start_idx_tmp].count() <= min_row_group_size
            ):
""")]}
META = {"property": "S08", "needs": "appends without 'max_nirgs', or with a larger one, leaving many incomplete row groups, then an append with 'max_nirgs'",
 "what_it_breaks": "incomplete row groups that are before the last 'max_nirgs' ones are not coalesced"}
DEMO = '''
ps = ParquetSet(TMP, Indexer)
k = Indexer("a")
for i in range(8):
    ps[k] = {"ordered_on": "ts", "max_row_group_size": 100}, DataFrame({"ts": [T(2 * i), T(2 * i + 1)], "v": [i, -i]})
ps[k] = {"ordered_on": "ts", "max_row_group_size": 100, "max_nirgs": 3}, DataFrame({"ts": [T(100)], "v": [1]})
n = len(ps[k].pf.row_groups)
if n > 3:
    fail(n)
'''
