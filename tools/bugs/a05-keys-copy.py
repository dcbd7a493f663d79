EDITS = {"oups/store/collection.py": [("        if key not in self:\n            # If no trouble", "        if key not in (keys := self._keys.copy()):\n            # Previous set of keys is possibly being iterated over.\n            self._keys = keys\n            # If no trouble")]}
META = {"property": "A05", "needs": "two new keys written in parallel, one thread being interrupted between its copy of the set of keys and the setting of it",
 "what_it_breaks": "a key written is not in the catalogue of keys"}
DEMO = '''
import threading
from sortedcontainers import SortedSet

ps = ParquetSet(TMP, Indexer)
barrier = threading.Barrier(2)


class Keys(SortedSet):
    def copy(self):
        res = SortedSet(self)
        try:
            # The other thread gets there as well.
            barrier.wait(20)
        except threading.BrokenBarrierError:
            pass
        return res


ps._keys = Keys()
keys = [Indexer("a"), Indexer("b")]
threads = [threading.Thread(target=ps.set, args=(k, DataFrame({"v": np.arange(3)}))) for k in keys]
for t in threads:
    t.start()
for t in threads:
    t.join()
if list(ps.keys) != keys:
    fail(ps.keys)
'''
