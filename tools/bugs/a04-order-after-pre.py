EDITS = {"oups/aggstream/aggstream.py": [("""        if not seed_chunk[ordered_on].is_monotonic_increasing:
            # Currently un-eased to silently modify seed data without knowing
            # if it makes sense, so leaving this row commented.
            # seed_chunk.sort_values(by=ordered_on, inplace=True)
            # Instead, raise an exception.
            raise SeedPreException("seed data is not in ascending order.")
""", ""), ("        # Step 2 / If a previous remainder,", """        if not seed_chunk[ordered_on].is_monotonic_increasing:
            # Currently un-eased to silently modify seed data without knowing
            # if it makes sense, so leaving this row commented.
            # seed_chunk.sort_values(by=ordered_on, inplace=True)
            # Instead, raise an exception.
            raise SeedPreException("seed data is not in ascending order.")
        # Step 2 / If a previous remainder,""")]}
META = {"property": "A04", "needs": "an unordered chunk after at least one good one, with a 'pre' function keeping state in its buffer, then restart on the repaired seed",
 "what_it_breaks": "pre buffer recorded includes the rejected chunk"}
DEMO = '''
from oups import AggStream
from oups.aggstream.aggstream import SeedPreException
from pandas import Grouper

seed = DataFrame({"ts": [T(m) for m in range(0, 40, 2)], "v": np.arange(1, 21)})
ps = ParquetSet(TMP, Indexer)
k = Indexer("k")


def pre(on, buffer):
    buffer["n"] = buffer.get("n", 0) + len(on)


conf = dict(ordered_on="ts", agg={"s": ("v", "sum")}, bin_by=Grouper(key="ts", freq="10T", closed="left", label="left"), pre=pre)
bad = seed.iloc[10:].iloc[::-1].reset_index(drop=True)
try:
    AggStream(store=ps, keys=k, **conf).agg([seed.iloc[:10], bad], trim_start=True, discard_last=True)
    fail("no exception")
except SeedPreException:
    pass
n = AggStream(store=ParquetSet(TMP, Indexer), keys=k, **conf).seed_config["pre_buffer"]
if n != {"n": 10}:
    fail(n)
'''
