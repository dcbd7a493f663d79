EDITS = {"oups/store/writer.py": [("""                duplicates_on=duplicates_on,
            )
            # Write.
            pf.write_row_groups(
                data=iter_data,
                row_group_offsets=None,
                sort_pnames=False,
                compression=compression,
                write_fmd=False,
""", """                duplicates_on=duplicates_on,
            )
            # Write.
            pf.write_row_groups(
                data=iter_data,
                row_group_offsets=None,
                sort_pnames=False,
                compression=compression,
                write_fmd=True,
""")]}
META = {"property": "S03", "needs": "process dies between the writing of new row groups and the final metadata of an overlapping write",
 "what_it_breaks": "dataset then holds old and new rows: neither before nor after state"}
DEMO = '''
import oups.store.writer as w
ps = ParquetSet(TMP, Indexer)
k = Indexer("a")
cfg = dict(ordered_on="ts", duplicates_on="ts")
ps[k] = cfg, DataFrame({"ts": np.arange(6), "v": np.arange(6)})


class Die(BaseException):
    pass


def die(*a, **k):
    raise Die()


orig = w.write_metadata
w.write_metadata = die
try:
    ps[k] = cfg, DataFrame({"ts": [3, 4, 9], "v": [30, 40, 90]})
    fail("not reached")
except Die:
    pass
w.write_metadata = orig
got = ParquetSet(TMP, Indexer)[k].pdf
if got.v.tolist() != list(range(6)) and got.v.tolist() != [0, 1, 2, 30, 40, 5, 90]:
    fail(got)
'''
