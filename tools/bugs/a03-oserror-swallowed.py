EDITS = {"oups/aggstream/aggstream.py": [("            except SeedPreException as sce:\n", "            except (SeedPreException, OSError) as sce:\n                # Seed may be read from disk on the fly.\n")]}
META = {"property": "A03", "needs": "a file operation fails while writing intermediate results of a key",
 "what_it_breaks": "final write still records the progress, while results of that key (and rows not aggregated by it) are lost: restart silently misses them"}
DEMO = '''
from oups import AggStream
from pandas import Grouper

import oups.store.writer as wr

seed = DataFrame({"ts": [T(m) for m in range(0, 400, 2)], "v": np.arange(1, 201)})
agg = {"s": ("v", "sum")}
bin_by = Grouper(key="ts", freq="30T", closed="left", label="left")
chunks = [seed.iloc[i : i + 4] for i in range(0, 200, 4)]
ps = ParquetSet(TMP, Indexer)
AggStream(store=ps, keys=Indexer("ref"), ordered_on="ts", agg=agg, bin_by=bin_by).agg(chunks, trim_start=True, discard_last=True)
ref = ps[Indexer("ref")].pdf
orig = wr.write_metadata
for n in range(1, 16):
    a, b = Indexer("a%d" % n), Indexer("b%d" % n)
    keys = {a: dict(bin_by=bin_by), b: dict(bin_by=bin_by)}
    kw = dict(ordered_on="ts", agg=agg, max_in_memory_size=0.0001)
    left = [n]

    def bad(*x, **k):
        left[0] -= 1
        if not left[0]:
            raise OSError("no space left")
        return orig(*x, **k)

    wr.write_metadata = bad
    try:
        AggStream(store=ps, keys=keys, **kw).agg(chunks, trim_start=True, discard_last=True)
    except Exception as e:
        print(n, repr(e))
    wr.write_metadata = orig
    try:
        s = AggStream(store=ParquetSet(TMP, Indexer), keys=keys, **kw)
        s.agg(chunks, trim_start=True, discard_last=True)
    except ValueError as e:
        # Refused explicitly.
        print(n, repr(e))
        continue
    for k in (a, b):
        got = ps[k].pdf
        if got.ts.tolist() != ref.ts.tolist() or got.s.tolist() != ref.s.tolist():
            fail(n, k, got, ref)
'''
