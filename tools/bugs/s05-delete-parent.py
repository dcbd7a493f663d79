EDITS = {"oups/store/collection.py": [("            while (upper_dir != basepath) and (not listdir(upper_dir)):\n                rmdir(upper_dir)\n", "            while (upper_dir != basepath) and not any(\n                is_parquet_file(file) or \".\" not in file for file in listdir(upper_dir)\n            ):\n                rmtree(upper_dir)\n")]}
META = {"property": "S05", "needs": "a key with nested levels is deleted, as the last of its branch, while a foreign file with an extension lies in the parent directory",
 "what_it_breaks": "deleting a key removes a foreign file"}
DEMO = '''
from oups import sublevel


@sublevel
class Sub:
    b: str


@toplevel
class Nested:
    a: str
    s: Sub


ps = ParquetSet(TMP, Nested)
k = Nested("x", Sub("z"))
ps[k] = DataFrame({"ts": np.arange(6)})
open(f"{TMP}/x/notes.txt", "w").write("hello")
del ps[k]
if not os.path.exists(f"{TMP}/x/notes.txt"):
    fail("file removed")
'''
