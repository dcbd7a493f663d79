"""Writes /verif/properties.jsonl (kept as code only so that the text is easy to edit)."""
import json, os
W = "oups/store/writer.py"; COL = "oups/store/collection.py"; ROU = "oups/store/router.py"
IDX = "oups/store/indexer.py"; UT = "oups/store/utils.py"
AS = "oups/aggstream/aggstream.py"; CS = "oups/aggstream/cumsegagg.py"
JC = "oups/aggstream/jcumsegagg.py"; SB = "oups/aggstream/segmentby.py"; AU = "oups/aggstream/utils.py"
P = []
def add(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": m.strip(), "where": ", ".join(files)} for m in mechanism.split(";")]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook or "none: Python-level seams (builtins.open, os.*, joblib) are replaced before oups is imported"
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

add("S01", "Ordered updates neither lose, duplicate nor misorder rows",
    "After any history of writes to a key made with `ordered_on` (each batch non-empty and ascending; overlapping, preceding, following or falling in gaps of what is stored; pandas or vaex; any `max_row_group_size` and `max_nirgs`; no `duplicates_on`), the dataset read back holds exactly the rows ever written, each once and with all its column values (nulls included) and column names (single or multi-level) unchanged, in ascending order of `ordered_on`. Store and process may be reopened between any two writes. Writes that do not use `ordered_on` append: the rows read back are the batches in the order they were written. Frames (sliced, filtered, sorted, with virtual columns, with any index or order of columns) and parameters given are left as they were.",
    ["histories", "inputs", "configurations"],
    "every history of write calls, every position of the new range relative to recorded row groups, every row-group size, coalescing threshold and reopen point",
    "The tests run a handful of 2-3 write histories at fixed positions; the branch taken depends on (first overlapping row group, last overlapping row group, tail coalescing, row counts), whose product and history the tests do not cover.",
    [W, COL], "write(): overlap search with row-group statistics, coalescing of the incomplete tail, merge of recorded and new rows, re-sorting of row groups",
    [("ParquetFile.fmd.row_groups", "recorded row groups, their order and statistics")],
    ["ParquetSet[key].pdf after every operation"])
add("S02", "Duplicate replacement: the latest row of each identity wins, nothing else goes",
    "With `ordered_on` and `duplicates_on` set the same way on every write of a history, the dataset read back holds, for each distinct combination of the `ordered_on` and `duplicates_on` columns ever written, the row of the latest batch that contained it and no row of an earlier batch for it; no other row is dropped, and rows are in ascending order of `ordered_on`. When a batch itself holds several rows of one identity, the last of them is always kept. `duplicates_on=[]` means identity over all columns.",
    ["histories", "inputs", "configurations"],
    "every history of overlapping / gap / appended batches, every row-group size and coalescing threshold, every form of duplicates_on",
    "Dedup is per rewritten row group, so correctness depends on row-group boundaries produced by the whole earlier history; tests check single hand-made boundaries.",
    [W], "iter_dataframe(): sharp row-group boundaries and keep-last; write(): which recorded row groups are re-read and merged",
    [("ParquetFile.fmd.row_groups", "boundaries that decide which duplicates meet")],
    ["ParquetSet[key].pdf after every operation"])
add("S03", "An interrupted or failing write to an existing dataset is all-or-nothing",
    "If the process dies, or one file-system operation fails, at any point of a write (append, insertion, update with or without duplicates, metadata only) to a dataset that already holds data, then after reopening the store the key is still listed and every read path returns exactly the content and user metadata from before the write or exactly those from after it; if the write call returned normally it is the latter, and data, metadata and listing of all other keys are unchanged. When the interrupted write was the one creating the dataset, reading the key either fails explicitly or shows leading rows of the new data only.",
    ["crash_points", "fault_sequences", "histories"],
    "every file-system operation of every kind of write as crash point (before, after, or in the middle of the bytes it writes) or as failing operation, from every reachable dataset state",
    "No test injects a fault; the guarantee is about each of the 10-60 file operations of a write and about the state left behind, not about a return value.",
    [W, ROU, COL], "order of part-file creation, metadata commit and deletion of superseded part files in write()",
    [("_metadata", "the file that defines the committed dataset"), ("part.*.parquet", "row-group files, possibly left over")],
    ["ParquetSet reopened after the crash: keys, pdf, vdf, pf, metadata"])
add("S04", "After a failed or interrupted operation the store recovers by ordinary use",
    "After any sequence of failed or interrupted writes and deletions, once faults stop, reopening the store always succeeds, and re-issuing the operation (a write repeated with the same arguments if its content is not there yet, a deletion if the key is still listed; a dataset whose creation was interrupted is first deleted when it is listed) succeeds, and leaves exactly the content that a fault-free history of the operations that took effect would have left. Later writes, reads and deletions of this and other keys then behave as if the faults had never happened.",
    ["fault_sequences", "crash_points", "histories"],
    "every sequence of faults and crashes over multi-operation, multi-key histories, followed by recovery and further work",
    "Tests never continue after a failure; left-over files, half-deleted directories and process-global state only matter to later operations.",
    [W, COL, ROU, UT], "part-file numbering, presence test of an existing dataset, cleanup in __delitem__, OUPS_METADATA global",
    [("left-over part files", "files written before the failure and never committed"), ("OUPS_METADATA", "process-global pending metadata")],
    ["keys, pdf and metadata after recovery and after every later operation"])
add("S05", "The key catalogue mirrors the disk and datasets are isolated",
    "At any time between operations, the keys of a ParquetSet (contents, length, membership, sorted iteration) are exactly the keys written and not deleted since, a ParquetSet freshly opened on the same directory finds exactly these same keys whatever the order in which the operating system lists directories and whatever foreign files or directories lie around, and deleting a key removes its data and the directories it leaves empty but nothing of any other key or foreign file. Writing or deleting one key leaves the data and metadata of every other key unchanged. This holds for any values of fields a key accepts, any character separating them and any base directory; a key that would not lead to a directory of its own is refused.",
    ["histories", "configurations", "inputs"],
    "every history of writes, overwrites, deletions and reopenings over single- and multi-level keys sharing directories, every directory-listing order, foreign entries",
    "Tests use two or three keys in one directory-listing order; sharing of intermediate directories and interplay of delete/re-create depend on the history.",
    [COL, UT, IDX], "get_keys()/files_at_depth() scan, from_path()/to_path(), __delitem__ upward pruning",
    [("ParquetSet._keys", "in-memory catalogue"), ("directory tree", "durable catalogue")],
    ["keys / len / in / iter of live and of reopened ParquetSet, directory tree"])
add("S06", "Every read path returns the same dataset",
    "At any time between operations, including after interrupted or failed writes that left files behind, the pandas frame, the vaex frame and the fastparquet handle of a key present the same rows in the same order with the same values, and `min_max` of a column of numbers or timestamps equals the minimum and maximum of the non-null values read. `pdf`, `vdf` and `min_max` of a handle obtained before a write also show the dataset as it is after it. This holds whatever the order in which the operating system lists the dataset's files.",
    ["histories", "fault_sequences", "configurations"],
    "every dataset state reachable by histories of appends, insertions, updates, deletions and interrupted writes; every directory-listing order",
    "Tests compare read paths on freshly created datasets; the paths find their files differently (directory listing vs. metadata), so they can only diverge on states produced by long histories, many row groups (numeric vs. lexicographic file order) or faults.",
    [ROU, W], "ParquetHandle.vdf listing and ordering of files vs. ParquetFile metadata; statistics-based min_max",
    [("part file names", "order used by the vaex path"), ("_metadata", "order used by the pandas path")],
    ["pdf, vdf, pf.to_pandas(), min_max of the handle"])
add("S07", "Metadata updates persist, merge as documented and stay with their key",
    "After any history of writes, user metadata and library-specific metadata read for a key equal the fold of the updates applied to it (a value adds or replaces an entry, `None` removes it, entries not mentioned are kept), survive later data writes (including the first one, when metadata was set before any data), row-group rewrites, reopening and restarts, and never show up under another key. A metadata update attached to a write that failed or was interrupted before taking effect is not applied by any later write.",
    ["histories", "fault_sequences"],
    "every history of metadata-carrying writes over several keys, with failures and crashes in between",
    "Tests apply two or three updates to one key without failure; the pending metadata lives in a process-global dictionary, so leaks only show in multi-key or failing histories.",
    [W, ROU], "write_metadata(): merge of pending (OUPS_METADATA) and user-defined metadata into the file's key-value metadata",
    [("OUPS_METADATA", "pending library metadata by key"), ("key_value_metadata", "committed metadata")],
    ["ParquetSet[key].metadata and the library-specific metadata of the handle"])
add("S08", "Row groups stay bounded in size and number",
    "With `max_row_group_size` set and distinct `ordered_on` values (or no `ordered_on`), no row group ever written exceeds that size; and with `max_nirgs` set on every write, any history of in-order appends keeps the number of row groups within 2 * rows / max_row_group_size + max_nirgs + 2. Whatever the history before, an in-order append, or an update that reaches the end, made with `max_nirgs` leaves at the end of the dataset no more incomplete row groups (90% of `max_row_group_size` or less) than `max_nirgs` (at least 1), or than the rows of those it found, of those it overlaps and its own make at that size. With `max_nirgs=None`, an append that overlaps nothing leaves recorded row groups untouched. Row groups are compressed as the writes ask for. In the absence of faults, the directory of a dataset holds no other files than those of its row groups and metadata.",
    ["histories", "configurations"],
    "every length of history, batch size, row-group size and coalescing threshold",
    "It is a bound over unboundedly long histories; tests check row-group counts of 2-3 hand-made steps.",
    [W], "coalescing decision and row-group splitting in write()/iter_dataframe()",
    [("ParquetFile.row_groups", "sizes of recorded row groups")],
    ["row-group sizes of pf after every operation"])
add("S09", "An operation that is refused changes nothing",
    "A write that is refused (it raises) leaves every key of the store as it was: keys listed, rows on every read path, user and library metadata, in this process and for a store opened later, and the data and parameters given to it; what it asked for has no effect on later writes. This holds for a column to order on that is absent or a tuple, duplicates to look for without column to order on (on an existing dataset) or with an absent column, columns that are not those already recorded (missing, added, renamed: always refused), values that can't be encoded in whichever row group, metadata that can't be recorded, unknown compression or parameter, and keys, data or tuples of another type; a creation refused for its parameters leaves no file. Reading a key that was never written raises, and neither that nor deleting it creates, lists or removes anything.",
    ["histories", "inputs", "fault_sequences"],
    "every history of writes with refused operations at any position of it, whatever the way data would have been written (append, insertion, update, coalescing), pandas or vaex",
    "Tests check that an exception is raised, on a fresh dataset; what is left behind depends on how far the write went, and only shows on other read paths or in later operations.",
    [W, COL, ROU], "checks made by write() and ParquetSet.set() before, and after, part files are written",
    [("OUPS_METADATA", "pending library metadata, dropped when a write fails"), ("_metadata", "written last")],
    ["every read path, keys and metadata after each operation"])
add("A01", "Bins do not depend on how the seed is chunked or restarted",
    "For any ordered seed and any binning (time grouper of any frequency, calendar ones included / closed / label / origin, or callable), the bins a streamed aggregation leaves in the store after all the seed was fed are those of a single aggregation of the whole seed: same labels, values, null bins and order, each bin once. This holds however the seed is cut into chunks, whichever calls make an intermediate or final write, and wherever a new process and stream object take over, with trimmed head and discarded last index value or with plain continuation.",
    ["inputs", "histories", "configurations"],
    "every seed, every cutting into chunks, calls and restarts, every binning and aggregation configuration",
    "Tests have about a dozen hand-made seeds with hand-chosen cuts; cuts interact with bin edges, equal timestamps, empty bins, days and filters.",
    [AS, CS, SB, JC], "segmentation and aggregation buffers carried between chunks and persisted in metadata; duplicate replacement on the last, in-progress bin",
    [("segagg_buffer", "last bin label/end, restart key, last partial result"), ("restart_index", "seed index from which to resume")],
    ["ParquetSet[key].pdf after each final write"])
add("A02", "Snapshots do not depend on how the seed is chunked or restarted",
    "For any ordered seed aggregated with time-based snapshots (recorded alone or together with the bins), the snapshots left in the store after all the seed was fed are those of a single aggregation of the whole seed: at each snapshot instant, the aggregation of the rows of the in-progress bin seen so far, null when there is none, each snapshot once and in order. This holds however the seed is cut into chunks, calls, final writes and restarts.",
    ["inputs", "histories", "configurations"],
    "every seed, every cutting into chunks, calls and restarts, every bin/snapshot frequency combination and closed side",
    "Snapshot state (empty snapshots, bin ending between two snapshots, equal ends) crosses chunk borders in ways hand-made tests only sample.",
    [AS, CS, SB, JC], "mergesort of bin and snapshot ends, forwarding of partial results, snapshot restart key",
    [("segagg_buffer", "bin and snapshot restart state and partial result")],
    ["snapshot key and bin key datasets after each final write"])
add("A03", "A crash while aggregating leads to an exact resume or an explicit refusal",
    "If the process dies, or a file operation fails, at any point of a streamed aggregation (first run or later run, intermediate or final write, one or several keys, bins and snapshots), then a new process re-creating the stream on the store either refuses with an error to resume, or, when fed the seed again with `trim_start`, ends with exactly the results of an uninterrupted aggregation for every key. It never silently ends with missing, doubled or partial bins or snapshots.",
    ["crash_points", "fault_sequences", "histories"],
    "every file operation of every write of every run as crash or failure point, any number of crashes, any number of keys",
    "No test interrupts an aggregation; the guarantee depends on the order between result data, restart metadata and the several keys' datasets.",
    [AS, W], "restart index and buffers stored with the results of each key; check of a common restart index when a stream is created",
    [("restart_index", "durable progress of each key"), ("OUPS_METADATA", "pending progress")],
    ["datasets of all keys after resume, exceptions at stream creation"])
add("A04", "A failing seed check keeps the last good results and resumes exactly",
    "If the user's `pre` check raises on some chunk, or a chunk is not ordered, the aggregation call raises SeedPreException after having written, for every key, exactly the results and restart state of the chunks that precede it; repairing the seed and re-feeding it with `trim_start`, in the same or a new process, ends with exactly the results, and the `pre` buffer, of a run without failure (what the successful `pre` calls left in it). Any number of such failures may occur.",
    ["histories", "fault_sequences", "inputs"],
    "every position and number of failing checks over every cutting of the seed, one or several keys, with or without filters",
    "One test fails one check at one position.",
    [AS], "exception handling around the seed iterator and final write in AggStream.agg()",
    [("pre_buffer", "user buffer carried between chunks"), ("restart_index", "progress written after a failing check")],
    ["datasets after the failing call and after resume; pre buffer seen by the user function"])
add("A05", "Parallel equals sequential aggregation under every thread interleaving",
    "With several keys aggregated in parallel, the datasets, restart metadata and catalogue of keys left in the store are the same as when keys are processed one after the other, whatever the interleaving of the worker threads, and no interleaving deadlocks or raises. A stream re-created on the store resumes identically.",
    ["schedules", "inputs"],
    "every interleaving of the worker threads of every aggregation loop and final write, any number of keys and jobs",
    "Tests run whatever interleaving the machine happens to produce, in practice almost none, as tasks are short.",
    [AS, COL, W], "joblib threads running agg_iter / post-and-write for each key; shared ParquetSet catalogue and OUPS_METADATA",
    [("ParquetSet._keys", "sorted set mutated by all threads"), ("OUPS_METADATA", "dict mutated by all threads"), ("agg_buffers", "per-key state")],
    ["datasets, metadata and keys after each call"], "joblib.Parallel is replaced by a simulated thread pool before oups is imported")
add("A06", "Each key only sees its own filter and configuration",
    "When several keys with different filters, binnings, aggregations, write settings and post functions are aggregated over the same seed, each key's dataset is the one obtained by aggregating alone the rows its filter accepts, including when a filter accepts nothing for some chunks, calls or runs. Configuration and buffers of one key never influence another, and parameters of the stream are used by exactly the keys which do not set them.",
    ["inputs", "histories", "configurations"],
    "every seed, cutting and restart point, every set of filters and key configurations",
    "Tests have three keys and one seed; chunks rejected by all or some filters, and their effect on the common restart point, are sampled once or twice.",
    [AS, AU], "filter loop of the seed iterator, per-filter application to keys, per-key configuration and buffers",
    [("filter_apps", "filter to keys mapping"), ("agg_buffers", "per-key state")],
    ["datasets of all keys after each final write"])
add("A07", "User buffers are carried exactly across chunks, writes and restarts",
    "The buffer given to `pre`, to a user binning callable and to `post` holds, at each call, exactly what the same function left in it at its previous successful call for that stream (and key; after a restart, as of the last final write that recorded progress), across chunks, intermediate and final writes, restarts in a new process, and concurrent processing of other keys; buffers are never shared between keys or reset. `post` receives each completed bin, in order.",
    ["histories", "inputs", "configurations"],
    "every cutting into chunks, writes and restarts, number of keys, buffer contents that can be pickled",
    "Tests check one user buffer over one restart.",
    [AS, W, ROU], "pre_buffer, segagg_buffer and post_buffer kept in memory and pickled in file metadata at final write",
    [("pre_buffer / post_buffer / segagg_buffer", "user state")],
    ["values recorded by instrumented user functions"])
add("A08", "Memory limits and write partitioning do not change results",
    "The results and restart metadata of a streamed aggregation are the same whatever `max_in_memory_size` (how often partial results are flushed), `max_row_group_size` and `max_nirgs` are set to, for bins, snapshots or both, with or without `post`, across restarts.",
    ["configurations", "histories", "inputs"],
    "every memory limit, row-group size and coalescing threshold, from flushing after each chunk to never",
    "Tests flush at most once or twice; the flush point is a function of accumulated memory use.",
    [AS, W], "memory accounting and intermediate write in agg_iter(); exclusion of the in-progress row; duplicate replacement at next write",
    [("agg_in_memory_size", "accumulated result size"), ("bin_res_buffer / snap_res_buffer", "results not yet written")],
    ["datasets after each final write"])
add("A09", "Streams over one store do not disturb each other, and can feed one another",
    "Several aggregation streams over one store, through one ParquetSet or one each, whatever the order in which their calls are made, each leave the results of their own seed: a call of one changes neither results, restart metadata, `pre` buffer nor user metadata of keys of others, nor datasets written by the user, and these do not change its own. This holds over process restarts, and when one is killed in the middle of a call (its stream then resumes exactly, or refuses to). Chunks of the seed are left as they were given, so that they can feed another stream. A stream fed, at any times, with the bins another one recorded so far ends with the aggregation of all but the last of those bins. User metadata set on keys of a stream is kept by its later writes.",
    ["histories", "schedules", "crash_points"],
    "every order of calls of several streams, user writes, restarts and crashes, with any cutting of seeds, and streams fed from datasets other streams are extending",
    "Tests run a single stream per store, once or twice; what streams of one process share (pending metadata, configuration, store) only matters when their calls are interleaved.",
    [AS, W, COL], "pending metadata by key (OUPS_METADATA), restart metadata in key's dataset, buffers of AggStream",
    [("OUPS_METADATA", "pending restart metadata of keys"), ("restart_index, buffers", "recorded with the main key of each stream")],
    ["datasets and metadata of all keys after every call"])
add("C01", "Chunked cumulative segmentation and aggregation equals a single pass",
    "Feeding an ordered frame to `cumsegagg` chunk by chunk with one buffer (optionally pickled and restored between any two calls, as a restart does) and stitching the outputs by label, keeping the last, gives the bins and snapshots of one call on the whole frame, for time-based bins (of fixed length, or calendar periods), row-count bins and callables, time-based or listed snapshots, and every accepted aggregation function and column type. Inputs are not modified.",
    ["inputs", "histories", "configurations"],
    "every frame, every cutting, every pickling point, every bin/snapshot configuration",
    "Tests check hand-made cuts of hand-made frames.",
    [CS, SB, JC], "buffer of the segmentation functions and last partial result, jitted aggregation loop",
    [("buffer", "restart keys, last labels and last partial result")],
    ["return values of cumsegagg"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
