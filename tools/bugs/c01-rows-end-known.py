EDITS = {"oups/aggstream/segmentby.py": [("unknown_last_bin_end = True if n_rows_in_last_bin != by else False", "unknown_last_bin_end = True if n_rows_for_new_bins % by else False")]}
META = {"property": "C01", "needs": "right-closed bins of a number of rows, with snapshots, and a chunk which only continues the bin in progress without completing it",
 "what_it_breaks": "the snapshot after the last row of this chunk is empty, when the bin in progress should be observed"}
DEMO = '''
from functools import partial
from oups.aggstream.cumsegagg import cumsegagg
from oups.aggstream.segmentby import by_x_rows

df = DataFrame({"ts": [T(m) for m in (0, 2, 4, 6, 9, 13, 17)], "v": [1, 2, 3, 4, 5, 6, 7]})
kw = dict(agg={"s": ("v", "sum")}, bin_by=partial(by_x_rows, by=4, closed="right"), ordered_on="ts",
          snap_by=pd.Grouper(key="ts", freq="5min", closed="right", label="right"))
for end in range(1, len(df) + 1):
    for cut in range(1, end):
        data = df.iloc[:end]
        _, want = cumsegagg(data=data, **kw)
        buffer = {}
        cumsegagg(data=data.iloc[:cut].reset_index(drop=True), buffer=buffer, **kw)
        _, got = cumsegagg(data=data.iloc[cut:].reset_index(drop=True), buffer=buffer, **kw)
        want = want.loc[got.index]
        if not got.equals(want):
            fail(cut, end, got, want)
'''
