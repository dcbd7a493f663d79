EDITS = {"oups/store/writer.py": [("                    rrg_start_idx = min(rrg_start_idx_tmp, rrg_start_idx)\n", "                    rrg_start_idx = rrg_start_idx_tmp\n")]}
META = {"property": "S02", "needs": "an update that overlaps a complete row group, with the incomplete row groups after it being coalesced in the same write",
 "what_it_breaks": "complete row group is not merged: duplicates are kept, and rows are out of order"}
DEMO = '''
cfg = dict(ordered_on="ts", duplicates_on="ts", max_row_group_size=4)
for lo in range(0, 11):
    for nirgs in (None, 0, 1, 2, 3):
        k = Indexer("a%d_%s" % (lo, nirgs))
        ps = ParquetSet(TMP, Indexer)
        ps[k] = cfg, DataFrame({"ts": np.arange(8), "v": np.arange(8)})
        for i in (8, 9):
            ps[k] = cfg, DataFrame({"ts": [i], "v": [i]})
        b = DataFrame({"ts": np.arange(lo, 12), "v": np.arange(100 + lo, 112)})
        ps[k] = dict(cfg, max_nirgs=nirgs), b
        got = ps[k].pdf
        if got.ts.tolist() != list(range(12)) or got.v.tolist()[lo:] != b.v.tolist():
            fail(lo, nirgs, got)
'''
