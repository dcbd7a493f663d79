"""Writes /verif/MANIFEST.json and known_findings.json (kept as code so that texts are easy to edit)."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation: seeded search over {}, checked against {}"
NOTES = {
    "S01": ("histories of writes, reopenings and configurations, store under the simulated file system", "a reference list of rows",
            "Seeded sampling: no proof. Real oups, fastparquet, pandas and vaex code on a scratch directory. Rows are identified by a unique id carried in a column."),
    "S02": ("histories of overlapping writes with duplicates_on", "a reference dictionary of the latest row per identity", "Seeded sampling. As S01."),
    "S03": ("states, kinds of write, and crash points / I/O errors of each write", "the content before or after the write on every read path",
            "Seeded sampling of states; within each, each fault kind at evenly spread positions over the file operations of the write. Process-kill model: completed system calls survive, no power loss."),
    "S04": ("multi-key histories of faults, crashes, retries and recoveries", "a reference model of the store and absence of left-over state",
            "Seeded sampling. Recovery is by ordinary use once faults stop; process-kill model."),
    "S05": ("multi-key histories, directory-listing orders, foreign entries, reopenings", "a reference set of keys and datasets", "Seeded sampling. Directory-listing order is decided by the simulator."),
    "S06": ("histories with interrupted writes, directory-listing orders, read paths", "each other read path and the reference rows", "Seeded sampling. C++ readers run for real on the files the simulator left."),
    "S07": ("histories of metadata updates over keys with failures and crashes in between", "a reference fold of the updates", "Seeded sampling. Process-global state is reset only when a process restart is simulated."),
    "S08": ("histories of appends and row-group settings", "the documented bounds on sizes and number of row groups", "Seeded sampling. The bound is checked after each write."),
    "S09": ("histories of writes with refused operations at any position", "a reference model in which refused operations do not exist", "Seeded sampling. Types of columns other than those recorded are not covered: fastparquet casts them."),
    "A01": ("seeds, chunkings, calls, process lives and configurations", "pandas aggregation of the whole seed", "Seeded sampling. Numba kernels are interpreted in most runs, compiled in the others."),
    "A02": ("seeds, chunkings, calls, process lives and snapshot configurations", "a brute-force reference of snapshots of the whole seed", "As A01."),
    "A03": ("aggregation histories and crash points / I/O errors of their last life, then resume", "the results of a run without failure, or an explicit refusal", "Seeded sampling; process-kill model; faults in C++ readers are not injected."),
    "A04": ("aggregation histories with failing user checks, retried in same or new process", "results, restart index and buffer of the chunks that precede the failing one", "Seeded sampling."),
    "A05": ("thread interleavings of aggregation and writes, one task running at a time under a seeded scheduler", "the sequential execution of the same history",
            "Seeded sampling of interleavings at source lines of oups and sortedcontainers, fastparquet calls and file operations; code of numpy/pandas/pyarrow/vaex is atomic between scheduling points."),
    "A06": ("sets of keys with filters and shared configuration objects, chunkings and restarts", "a reference of each key aggregated alone", "Seeded sampling."),
    "A07": ("histories of chunks, writes, restarts and thread interleavings with instrumented user functions", "what each function left in its buffer, and reference bins and snapshots", "Seeded sampling."),
    "A08": ("memory limits, row-group sizes and coalescing thresholds over aggregation histories", "results and restart metadata without limits", "Seeded sampling."),
    "A09": ("interleaved calls of several streams, some fed with results of others, user operations, restarts and crashes", "each stream's own reference, and what was recorded for other keys before each call", "Seeded sampling. As A01."),
    "C01": ("frames, cuttings, pickling points and bin/snapshot configurations", "single-pass results and a brute-force reference", "Seeded sampling. Both compiled and interpreted kernels."),
}
FIXED = [
    ("S01", "43f5aac", "write() with only 'max_nirgs' set raised TypeError ('max_row_group_size' compared while None)"),
    ("S01", "9848c64", "coalescing ignored a first row group at index 0, or coalesced an empty tail"),
    ("S01", "f04479f", "data falling before or between row groups was appended after them: rows not in order"),
    ("S02", "f04479f", "row groups re-sorted by their maximum could be misplaced after an insertion"),
    ("S03", "b837e02", "a write interrupted between data, removal of row groups and metadata left a dataset that is unreadable or with lost rows"),
    ("S04", "b837e02", "a failed write left a dataset on which the same write could not be repeated"),
    ("S06", "b837e02", "read paths disagreed after an interrupted write, or once part files were renamed"),
    ("S06", "bd9cc11", "min_max() raised, or returned no value, for a column with a row group of null values only"),
    ("S01", "f35824c", "integers larger than 2**53 of a column with null values were altered when row groups are updated, or written from vaex"),
    ("S01", "e0d948c", "null values of a batch with only null values in a column of strings became strings 'nan' when row groups are updated"),
    ("S01", "141dbec", "'cmidx_expand' expanded column names of first row group only: creation failed with several row groups"),
    ("S01", "8a2417c", "creation failed with only null values in first row group of a column of strings"),
    ("C01", "03faaa5", "restart failed with calendar frequencies of several periods when a chunk was within a single bin that began before"),
    ("A06", "5990411", "'filters' listing the filter id that means no filter, with None as documented, raised TypeError"),
    ("S05", "24ae576", "keys of a schema with a letter, '|' or another special character as fields separator were not found again when opening the store"),
    ("S05", "926a421", "a key with an empty string as first field of a level was not found again, or written out of the store directory"),
    ("S05", "c047b6e", "reading (vaex) or updating a dataset which path has characters of patterns failed, or read rows of other keys"),
    ("S05", "d2c5384", "opening a store listed keys for directories that are not keys, or failed on them"),
    ("S05", "c3b372b", "deleting the last key removed the base directory and its empty parents"),
    ("S09", "d2e26d8", "data with other columns than those recorded was appended without some of them, or made the dataset unreadable"),
    ("S07", "40983c7", "metadata set before any data is written was lost when data is first written"),
    ("S07", "88182f9", "'None' was kept as value of library-specific metadata, falsy values were not added"),
    ("S07", "641dd26", "library-specific metadata of a key was added to the user's dict and leaked to the next key written with it"),
    ("S07", "6662e96", "library-specific metadata of a failed write was recorded by a later one"),
    ("C01", "1c97b24", "bins were not aligned on the same origin after restart for origins 'start' and 'start_day'"),
    ("C01", "3bac6f4", "restart on listed snapshots raised when they are given as a Series, or when none was given yet"),
    ("A01", "018cc7e", "an intermediate or first write with only an in-progress bin wrote an empty frame, raising or losing restart metadata"),
    ("A02", "018cc7e", "same with an in-progress snapshot"),
    ("A08", "018cc7e", "same with a low memory limit"),
    ("A01", "5889da0", "restart metadata was not recorded when last seed index is 0"),
    ("A01", "8e71624", "an empty chunk in the seed raised IndexError"),
    ("A01", "07c7f63", "a seed iterator without any chunk raised StopIteration"),
    ("A06", "54d54fd", "keys' configurations given by the user were emptied: not usable for a second key or stream"),
    ("A06", "bd1d8f5", "user's list of columns identifying duplicates was extended in-place, with effect on other keys sharing it"),
    ("A05", "942f013", "catalogue of keys could lose a key or raise when several threads write new keys"),
    ("A03", "543a2d9", "a crash between bins and snapshots left restart metadata telling that both are written"),
    ("A03", "70ed534", "a crash between the first writes of two keys let the stream resume silently incomplete for the second one"),
    ("A03", "99699a9", "a crash while creating a dataset left a partly written '_metadata', on which reading never ended"),
    ("A03", "b4f0d3f", "restart metadata of a failed final write was recorded by an intermediate write of a later attempt"),
    ("A04", "004482b", "changes made to its buffer by a `pre` that then raised were kept and recorded"),
]
FINDINGS = []
NA = []


def main():
    props = [json.loads(x)["id"] for x in open(f"{HERE}/properties.jsonl")]
    checks = []
    for p in props:
        if p not in NOTES or not os.path.exists(f"{HERE}/sim/p_{p.lower()}.py"):
            continue
        over, ref, note = NOTES[p]
        checks.append({"property": p, "quick_cmd": f"python3 check.py {p} --tier quick", "thorough_cmd": f"python3 check.py {p} --tier thorough",
                       "evidence_file": f"evidence/{p}.json", "technique": TECH.format(over, ref), "level": "exploration", "level_note": note})
    assert {c["property"] for c in checks} == set(props), set(props) - {c["property"] for c in checks}
    json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import fastparquet, joblib, numba, pandas, vaex'", "checks": checks, "not_applicable": NA,
               "notes": "All checks run /repo's code as it is, in one process, on a simulated file system in front of a scratch directory; no hook in /repo. "
                        "VERIF_SEED selects the base seed. Replays: python3 check.py <ID> --replay <file>."}, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
    known = {x[:7] for x in log if " fix: " in x}
    for _, c, _ in FIXED:
        assert c in known, c
    assert known == {c for _, c, _ in FIXED}, known - {c for _, c, _ in FIXED}
    json.dump({"findings": FINDINGS, "fixed": [f"fixed: property={p} {c} {w}" for p, c, w in FIXED]}, open(f"{HERE}/known_findings.json", "w"), indent=1)


main()
