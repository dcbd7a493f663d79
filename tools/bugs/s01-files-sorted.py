EDITS = {"oups/store/writer.py": [("            files = [pf.row_group_filename(rg) for rg in overlapping_rgs]\n", "            files = sorted({pf.row_group_filename(rg) for rg in overlapping_rgs})\n")]}
META = {"property": "S01", "needs": "row groups coalesced without 'ordered_on', once their file names do not sort as their positions do (part.10 before part.9)",
 "what_it_breaks": "rows of coalesced row groups are put out of the order they have been written in"}
DEMO = '''
for n in (3, 8, 11, 13, 25):
    k = Indexer("a%d" % n)
    ps = ParquetSet(TMP, Indexer)
    for i in range(n):
        ps[k] = dict(max_row_group_size=1000), DataFrame({"v": [2 * i, 2 * i + 1]})
    ps[k] = dict(max_row_group_size=1000, max_nirgs=1), DataFrame({"v": [2 * n]})
    got = ParquetSet(TMP, Indexer)[k].pdf.v.tolist()
    if got != list(range(2 * n + 1)):
        fail(n, got)
'''
