From 43f5aaca758eb23194cce768ae446cce271b164d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:12 +0000
Subject: [PATCH 01/35] fix: use default max row group size when only
 'max_nirgs' is set

---
 oups/store/writer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 871f3a4..4ffad30 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -506,6 +506,8 @@ def write(
                     if rrg_end_idx == n_rrgs:
                         rrg_end_idx = None
         if max_nirgs is not None:
+            if max_row_group_size is None:
+                max_row_group_size = MAX_ROW_GROUP_SIZE
             # Number of incomplete row groups at end of recorded data.
             # Initialize number of rows with number to be written.
             total_rows_in_irgs = len(data)
-- 
2.43.0


From 9848c64292668de42fc1dcb6ee25ce86d1ce1cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:45 +0000
Subject: [PATCH 02/35] fix: coalesce from the first row group, and do not
 coalesce an empty tail

When overlapping row groups start at index 0, 'rrg_start_idx' is falsy and
incomplete row groups at the tail were coalesced without the overlapping ones,
or the wrong branch was taken. When no row group is incomplete, with
'max_nirgs=0', an empty list of files was opened.
---
 oups/store/writer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 4ffad30..9a26f85 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -519,16 +519,16 @@ def write(
             rrg_start_idx_tmp += 1
             # Confirm or not coalescing of incomplete row groups.
             n_irgs = n_rrgs - rrg_start_idx_tmp
-            if total_rows_in_irgs >= max_row_group_size or n_irgs >= max_nirgs:
-                if rrg_start_idx and (
-                    not rrg_end_idx or (rrg_end_idx and rrg_start_idx_tmp < rrg_end_idx)
+            if n_irgs and (total_rows_in_irgs >= max_row_group_size or n_irgs >= max_nirgs):
+                if rrg_start_idx is not None and (
+                    rrg_end_idx is None or rrg_start_idx_tmp < rrg_end_idx
                 ):
                     # 1st case checked: case 'ordered_on' is used with potential
                     # insertion of new data in existing one, in row groups not at
                     # the tail, in which case coalescing of end data would not be
                     # performed.
                     rrg_start_idx = min(rrg_start_idx_tmp, rrg_start_idx)
-                elif not rrg_end_idx:
+                elif rrg_end_idx is None:
                     # 2nd case checked: case 'ordered_on' is not used. New data is
                     # necessarily appended in this case.
                     rrg_start_idx = rrg_start_idx_tmp
-- 
2.43.0


From f04479fb342250c43e870d6fbc2c8c357d7a835e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:21 +0000
Subject: [PATCH 03/35] fix: keep order of row groups when new data falls
 before or between them

New data overlapping no row group but preceding some was appended at the tail,
or coalesced with a tail it does not belong to. Rewritten row groups were sorted
by max of 'ordered_on', which is not unique.
---
 oups/store/writer.py | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 9a26f85..2e17ccf 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -15,7 +15,6 @@ from typing import Dict, Hashable, List, Tuple, Union
 from fastparquet import ParquetFile
 from fastparquet import write as fp_write
 from fastparquet.api import filter_row_groups
-from fastparquet.api import statistics
 from fastparquet.util import update_custom_metadata
 from numpy import searchsorted as np_searchsorted
 from numpy import unique as np_unique
@@ -458,6 +457,9 @@ def write(
         # Identify overlaps in row groups between new data and recorded data.
         # Recorded row group start and end indexes.
         rrg_start_idx, rrg_end_idx = None, None
+        # Index at which to insert new data if it overlaps no recorded row group
+        # and precedes some of them.
+        rrg_insert_idx = None
         pf = ParquetFile(dirpath)
         n_rrgs = len(pf.row_groups)
         if duplicates_on is not None:
@@ -505,6 +507,12 @@ def write(
                     rrg_end_idx = rrgs_idx[-1] + 1
                     if rrg_end_idx == n_rrgs:
                         rrg_end_idx = None
+            elif rrgs_after_idx := filter_row_groups(
+                pf,
+                [[(ordered_on, ">", end)]],
+                as_idx=True,
+            ):
+                rrg_insert_idx = rrgs_after_idx[0]
         if max_nirgs is not None:
             if max_row_group_size is None:
                 max_row_group_size = MAX_ROW_GROUP_SIZE
@@ -528,9 +536,12 @@ def write(
                     # the tail, in which case coalescing of end data would not be
                     # performed.
                     rrg_start_idx = min(rrg_start_idx_tmp, rrg_start_idx)
-                elif rrg_end_idx is None:
-                    # 2nd case checked: case 'ordered_on' is not used. New data is
-                    # necessarily appended in this case.
+                elif rrg_end_idx is None and (
+                    rrg_insert_idx is None or rrg_start_idx_tmp <= rrg_insert_idx
+                ):
+                    # 2nd case checked: case 'ordered_on' is not used, or new data
+                    # does not precede a row group that is not coalesced. New data
+                    # is then appended, or inserted within coalesced row groups.
                     rrg_start_idx = rrg_start_idx_tmp
         if rrg_start_idx is None:
             # Case 'appending' (no overlap with recorded data identified).
@@ -544,6 +555,12 @@ def write(
                 compression=compression,
                 write_fmd=False,
             )
+            if rrg_insert_idx is not None:
+                # Position new row groups before those they precede.
+                rgs = list(pf.fmd.row_groups)
+                pf.fmd.row_groups = (
+                    rgs[:rrg_insert_idx] + rgs[n_rrgs:] + rgs[rrg_insert_idx:n_rrgs]
+                )
         else:
             # Case 'updating' (with existing row groups removal).
             # Read row groups that have impacted data as a vaex dataframe.
@@ -572,15 +589,15 @@ def write(
                 compression=compression,
                 write_fmd=False,
             )
+            n_new_rgs = len(pf.fmd.row_groups) - n_rrgs
             # Remove row groups of data that is overlapping.
             pf.remove_row_groups(overlapping_rgs, write_fmd=False)
             if rrg_end_idx is not None:
                 # New data has been inserted in the middle of existing row groups.
-                # Sorting row groups based on 'max' in 'ordered_on'.
-                ordered_on_idx = pf.columns.index(ordered_on)
-                pf.fmd.row_groups = sorted(
-                    pf.fmd.row_groups,
-                    key=lambda rg: statistics(rg.columns[ordered_on_idx])["max"],
+                # Position new row groups in place of those they replace.
+                rgs = list(pf.fmd.row_groups)
+                pf.fmd.row_groups = (
+                    rgs[:rrg_start_idx] + rgs[-n_new_rgs:] + rgs[rrg_start_idx:-n_new_rgs]
                 )
             # Rename partition files, and write fmd.
             pf._sort_part_names(write_fmd=False)
-- 
2.43.0


From b837e0291e6419723c16514823db3ba1be5cc4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:40 +0000
Subject: [PATCH 04/35] fix: make a write to an existing dataset all-or-nothing

Part files superseded by a write were removed, and remaining ones renamed, before
metadata was written, in place. An interruption or an error in between left a
dataset referring to missing files, or whose read paths disagreed.
Metadata is now written aside and renamed, superseded files are removed
afterwards, and 'vdf' reads the files listed in metadata.
---
 oups/store/router.py | 13 +++++--------
 oups/store/writer.py | 29 ++++++++++++++++++++++++-----
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/oups/store/router.py b/oups/store/router.py
index 2422a5b..0822606 100644
--- a/oups/store/router.py
+++ b/oups/store/router.py
@@ -6,13 +6,11 @@ Created on Wed Dec 26 22:30:00 2021.
 
 """
 from functools import cached_property
-from os import scandir
 
 from cloudpickle import loads
 from fastparquet import ParquetFile
 from vaex import open_many
 
-from oups.store.defines import DIR_SEP
 from oups.store.writer import OUPS_METADATA_KEY
 
 
@@ -76,12 +74,11 @@ class ParquetHandle:
         """
         Return handle to data through a vaex dataframe.
         """
-        # To circumvent vaex lexicographic filename sorting to order row
-        # groups, ordering the list of files is required.
-        files = [file.name for file in scandir(self._dirpath) if file.name[-7:] == "parquet"]
-        files.sort(key=lambda x: int(x[5:-8]))
-        prefix_dirpath = f"{str(self._dirpath)}{DIR_SEP}".__add__
-        return open_many(map(prefix_dirpath, files))
+        # Files and their order are those defined by metadata. Other files, left
+        # over by an interrupted write, are not part of the dataset.
+        # A file may contain several row groups.
+        pf = ParquetFile(self._dirpath)
+        return open_many(list(dict.fromkeys(map(pf.row_group_filename, pf.row_groups))))
 
     def min_max(self, col: str) -> tuple:
         """
diff --git a/oups/store/writer.py b/oups/store/writer.py
index 2e17ccf..fbd76ee 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -8,6 +8,8 @@ Created on Wed Dec  6 22:30:00 2021.
 from ast import literal_eval
 from os import listdir as os_listdir
 from os import path as os_path
+from os import remove as os_remove
+from os import replace as os_replace
 from pickle import dumps
 from pickle import loads
 from typing import Dict, Hashable, List, Tuple, Union
@@ -43,6 +45,8 @@ OUPS_METADATA = {}
 # In a fastparquet `ParquetFile`, oups-specific metadata is stored as value for
 # key `OUPS_METADATA_KEY`.
 OUPS_METADATA_KEY = "oups"
+# Suffix of metadata files while being written.
+TMP_SUFFIX = ".tmp"
 
 
 def iter_dataframe(
@@ -319,7 +323,11 @@ def write_metadata(
 
     if metadata:
         update_custom_metadata(pf, metadata)
-    pf._write_common_metadata()
+    # Write aside, then rename, so that a write that is interrupted or fails
+    # leaves dataset as it was. Renaming '_metadata' is what commits the write.
+    pf._write_common_metadata(open_with=lambda path, mode: open(f"{path}{TMP_SUFFIX}", mode))
+    for path in (f"{pf.fn[:-9]}_common_metadata", pf.fn):
+        os_replace(f"{path}{TMP_SUFFIX}", path)
 
 
 def write(
@@ -452,6 +460,8 @@ def write(
             all_cols = data.get_column_names()
         if ordered_on not in all_cols:
             raise ValueError(f"column '{ordered_on}' does not exist in input data.")
+    # Files to remove once new metadata is written.
+    superseded_files = []
     if os_path.isdir(dirpath) and any(file.endswith(".parquet") for file in os_listdir(dirpath)):
         # Case updating an existing dataset.
         # Identify overlaps in row groups between new data and recorded data.
@@ -590,8 +600,13 @@ def write(
                 write_fmd=False,
             )
             n_new_rgs = len(pf.fmd.row_groups) - n_rrgs
-            # Remove row groups of data that is overlapping.
-            pf.remove_row_groups(overlapping_rgs, write_fmd=False)
+            # Remove row groups of data that is overlapping. Removal of files is
+            # postponed until metadata not referring to them is written.
+            pf.remove_row_groups(
+                overlapping_rgs,
+                write_fmd=False,
+                remove_with=superseded_files.extend,
+            )
             if rrg_end_idx is not None:
                 # New data has been inserted in the middle of existing row groups.
                 # Position new row groups in place of those they replace.
@@ -599,8 +614,6 @@ def write(
                 pf.fmd.row_groups = (
                     rgs[:rrg_start_idx] + rgs[-n_new_rgs:] + rgs[rrg_start_idx:-n_new_rgs]
                 )
-            # Rename partition files, and write fmd.
-            pf._sort_part_names(write_fmd=False)
     else:
         # Case initiating a new dataset.
         iter_data = iter_dataframe(data, max_row_group_size)
@@ -632,3 +645,9 @@ def write(
         )
     # Manage and write metadata.
     write_metadata(pf=pf, metadata=metadata, md_key=md_key)
+    for file in superseded_files:
+        try:
+            os_remove(file)
+        except OSError:
+            # Write is done. A file left over is not part of dataset.
+            pass
-- 
2.43.0


From d2c5384f18687007f2cc1fccc79ea27dddc18893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 05/35] fix: list as keys only directories a key actually leads
 to

A directory which name is parsed into a key having another path (for instance
'a-01') was listed as a dataset, which could then neither be read nor deleted.
---
 oups/store/collection.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/oups/store/collection.py b/oups/store/collection.py
index 6063968..6fbbbf5 100644
--- a/oups/store/collection.py
+++ b/oups/store/collection.py
@@ -81,7 +81,13 @@ def get_keys(basepath: str, indexer: Type[dataclass]) -> SortedSet:
             for path, files in paths_files
             if (
                 any((is_parquet_file(file) for file in files))
-                and (key := indexer.from_path(DIR_SEP.join(path.rsplit(DIR_SEP, depth)[1:])))
+                and (
+                    key := indexer.from_path(
+                        subpath := DIR_SEP.join(path.rsplit(DIR_SEP, depth)[1:]),
+                    )
+                )
+                # Keep only keys which lead back to this directory.
+                and key.to_path == subpath
             )
         ],
     )
-- 
2.43.0


From c3b372b7ee3dbc70311a2669e67671bc6faa882d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:08 +0000
Subject: [PATCH 06/35] fix: do not remove base directory and its parents when
 deleting the last key

With a base path ending with a separator, or which is not a string, it was not
recognized when walking up to remove empty directories.
---
 oups/store/collection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oups/store/collection.py b/oups/store/collection.py
index 6fbbbf5..fe37558 100644
--- a/oups/store/collection.py
+++ b/oups/store/collection.py
@@ -274,7 +274,8 @@ class ParquetSet:
         if key in self._keys:
             # Keep track of intermediate partition folders, in case one get
             # empty.
-            basepath = self._basepath
+            # 'normpath' to compare paths that possibly end with a separator.
+            basepath = os_path.normpath(self._basepath)
             dirpath = os_path.join(basepath, key.to_path)
             rmtree(dirpath)
             self._keys.remove(key)
-- 
2.43.0


From 88182f9b7a338284a1c0b3ecbf993840ce1c637a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:22 +0000
Subject: [PATCH 07/35] fix: merge library-specific metadata as documented for
 'None' and falsy values

---
 oups/store/writer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index fbd76ee..9132dba 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -309,11 +309,13 @@ def write_metadata(
                     else:
                         # Case 'update'.
                         existing_oups_spec_md[key] = value
-                elif value:
+                elif value is not None:
                     # Case 'add'.
                     existing_oups_spec_md[key] = value
         else:
-            existing_oups_spec_md = new_oups_spec_md
+            existing_oups_spec_md = {
+                key: value for key, value in new_oups_spec_md.items() if value is not None
+            }
         del OUPS_METADATA[md_key]
 
         if metadata:
-- 
2.43.0


From 641dd26598dbb0bc7f3bc5d4272e17857a2d50d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 08/35] fix: do not add library-specific metadata to the user's
 metadata dict

---
 oups/store/writer.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 9132dba..75d3254 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -318,10 +318,9 @@ def write_metadata(
             }
         del OUPS_METADATA[md_key]
 
-        if metadata:
-            metadata[OUPS_METADATA_KEY] = dumps(existing_oups_spec_md)
-        else:
-            metadata = {OUPS_METADATA_KEY: dumps(existing_oups_spec_md)}
+        # A new dict, not to have this metadata in that of the user, that may
+        # re-use it for another dataset.
+        metadata = (metadata or {}) | {OUPS_METADATA_KEY: dumps(existing_oups_spec_md)}
 
     if metadata:
         update_custom_metadata(pf, metadata)
-- 
2.43.0


From 6662e960c0ff5357e1ef39442a30ddb9f974d9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 09/35] fix: drop pending library-specific metadata when the
 write it belongs to fails

---
 oups/store/collection.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/oups/store/collection.py b/oups/store/collection.py
index fe37558..9cded7a 100644
--- a/oups/store/collection.py
+++ b/oups/store/collection.py
@@ -21,6 +21,7 @@ from oups.store.indexer import is_toplevel
 from oups.store.router import ParquetHandle
 from oups.store.utils import files_at_depth
 from oups.store.utils import strip_path_tail
+from oups.store.writer import OUPS_METADATA
 from oups.store.writer import write
 
 
@@ -200,10 +201,14 @@ class ParquetSet:
         """
         if not isinstance(key, self._indexer):
             raise TypeError(f"{key} is not an instance of {self._indexer.__name__}.")
-        if not isinstance(data, (pDataFrame, vDataFrame)):
-            raise TypeError("data should be a pandas or vaex dataframe.")
-        dirpath = os_path.join(self._basepath, key.to_path)
-        write(dirpath=dirpath, data=data, md_key=key, **kwargs)
+        try:
+            if not isinstance(data, (pDataFrame, vDataFrame)):
+                raise TypeError("data should be a pandas or vaex dataframe.")
+            dirpath = os_path.join(self._basepath, key.to_path)
+            write(dirpath=dirpath, data=data, md_key=key, **kwargs)
+        finally:
+            # If write failed, a later one is not to write this metadata.
+            OUPS_METADATA.pop(key, None)
         if key not in self:
             # If no trouble from writing, add key.
             self._keys.add(key)
-- 
2.43.0


From 1c97b24202b7f64c9561ef82545b234f1fa05609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 10/35] fix: keep bins aligned on the same origin when
 restarting segmentation

---
 oups/aggstream/segmentby.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/oups/aggstream/segmentby.py b/oups/aggstream/segmentby.py
index a36fd42..04cbf49 100644
--- a/oups/aggstream/segmentby.py
+++ b/oups/aggstream/segmentby.py
@@ -30,6 +30,7 @@ from pandas import concat as pconcat
 from pandas import date_range
 from pandas.core.resample import TimeGrouper
 from pandas.core.resample import _get_timestamp_range_edges as gtre
+from pandas.tseries.offsets import Tick
 
 
 # Some constants.
@@ -46,6 +47,7 @@ KEY_LAST_BIN_LABEL = "last_bin_label"
 KEY_LAST_BIN_END = "last_bin_end"
 KEY_RESTART_KEY = "restart_key"
 KEY_LAST_ON_VALUE = "last_on_value"
+KEY_ORIGIN = "origin"
 # Keys for 'bin_by' when a dict
 KEY_ON_COLS = "on_cols"
 KEY_BIN_BY = "bin_by"
@@ -207,13 +209,27 @@ def by_scale(
         # to use 'closed' provided.
         if closed is None:
             closed = by.closed
+        # In case 'origin' is relative to first value in data, bins at restart
+        # have to be aligned on the same origin as at first iteration.
+        origin = buffer.get(KEY_ORIGIN, by.origin) if buffer else by.origin
+        if origin == "start":
+            origin = first
+        elif (
+            origin == "start_day"
+            and isinstance(by.freq, Tick)
+            and Timedelta(days=1) % Timedelta(by.freq)
+        ):
+            # A day is not a multiple of 'freq'.
+            origin = first.normalize()
+        if buffer is not None and origin is not by.origin:
+            buffer[KEY_ORIGIN] = origin
         start, end = gtre(
             first=first,
             last=on.iloc[-1],
             freq=by.freq,
             closed=closed,
             unit=first.unit,
-            origin=by.origin,
+            origin=origin,
             offset=by.offset,
         )
         edges = date_range(start, end, freq=by.freq)
-- 
2.43.0


From 018cc7e45520fc56f978d8f88f528f79454bb843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:37 +0000
Subject: [PATCH 11/35] fix: do not write empty results when only in-progress
 bin or snapshot is available

---
 oups/aggstream/aggstream.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 7560311..91bcab2 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -809,18 +809,16 @@ def _post_n_write_agg_chunks(
                 KEY_POST_BUFFER: post_buffer,
             },
         }
-    # When there is no result, 'main_res' is None.
-    if isinstance(main_res, DataFrame):
+    # When there is no result, 'main_res' is None. It is empty if in-progress bin
+    # or snapshot, kept aside, is the only one.
+    is_main_res = isinstance(main_res, DataFrame)
+    if is_main_res and not main_res.empty:
         # Record data (with metadata possibly updated).
         if agg_res_type is AggResType.BOTH:
             store[main_key] = (
                 write_config | {KEY_MAX_ROW_GROUP_SIZE: write_config[KEY_MAX_ROW_GROUP_SIZE][0]},
                 main_res,
             )
-            store[snap_key] = (
-                write_config | {KEY_MAX_ROW_GROUP_SIZE: write_config[KEY_MAX_ROW_GROUP_SIZE][1]},
-                snap_res,
-            )
         else:
             store[main_key] = write_config, main_res
     elif last_seed_index:
@@ -832,6 +830,11 @@ def _post_n_write_agg_chunks(
             # In case no Parquet file exist yet, need to initiate one to start
             # storing metadata.
             store[main_key] = DataFrame()
+    if is_main_res and agg_res_type is AggResType.BOTH and not snap_res.empty:
+        store[snap_key] = (
+            write_config | {KEY_MAX_ROW_GROUP_SIZE: write_config[KEY_MAX_ROW_GROUP_SIZE][1]},
+            snap_res,
+        )
     if initial_agg_res:
         # If there have been results, they have been processed (either written
         # directly or through 'post()'). Time to reset aggregation buffers and
@@ -898,6 +901,11 @@ def agg_iter(
         if (
             agg_in_memory_size + agg_mean_in_memory_group_size
             > keys_config[KEY_MAX_IN_MEMORY_SIZE_B]
+        ) and not all(
+            # If in-progress bin (and snapshot) is all there is so far, there is
+            # nothing to write yet.
+            res.empty
+            for res in (*bin_res_buffer, *agg_buffers[KEY_SNAP_RES_BUFFER])
         ):
             # For next iteration, chances are that 'agg_in_memory_size' will be
             # larger than threshold. Time to write results from previous
-- 
2.43.0


From 5889da041767ca52e65d732ddd995fa54ae0991b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:54 +0000
Subject: [PATCH 12/35] fix: record restart metadata when last seed index is 0

---
 oups/aggstream/aggstream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 91bcab2..445cf0f 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -789,7 +789,7 @@ def _post_n_write_agg_chunks(
         initial_agg_res = False
         main_res = None
     main_key, snap_key = key if isinstance(key, tuple) else (key, None)
-    if last_seed_index:
+    if last_seed_index is not None:
         # If 'last_seed_index', set oups metadata.
         # It is possible there is no result yet to write for different reasons:
         # - new seed data has been streamed and needs to be taken into account,
@@ -821,7 +821,7 @@ def _post_n_write_agg_chunks(
             )
         else:
             store[main_key] = write_config, main_res
-    elif last_seed_index:
+    elif last_seed_index is not None:
         # If no result, metadata is possibly to be written, as this is the
         # flag indicating the last 'aggstream' local iteration.
         try:
-- 
2.43.0


From 8e71624484da001d8dac06f2466011c5bf093b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 13/35] fix: skip empty seed chunks

---
 oups/aggstream/aggstream.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 445cf0f..afc62ce 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -531,6 +531,9 @@ def _iter_data(
         trim_start = False
     seed_remainder = None
     for seed_chunk in seed:
+        if seed_chunk.empty:
+            # Nothing to aggregate in this chunk.
+            continue
         # Check seed chunk is ordered on 'ordered_on'.
         # This re-ordering is made because for 'trim_start' and
         # 'discard_last', this ordering is required.
-- 
2.43.0


From 54d54fd247ef4ff21791866b46d48e9aa80c0ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:25 +0000
Subject: [PATCH 14/35] fix: do not remove parameters from user's keys'
 configuration

---
 oups/aggstream/aggstream.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index afc62ce..3148b75 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -171,9 +171,9 @@ def _init_keys_config(
     agg_pd = {}
     for key, key_conf_in in keys_config.items():
         # Parameters in 'key_conf_in' take precedence over those in
-        # 'keys_default'. Additionally, with this step, 'key_conf_in' is a
-        # deep copy, and when parameters are popped, it does not affect
-        # the initial 'key_conf_in'.
+        # 'keys_default'. 'key_conf_in' is first copied, so that when parameters
+        # are popped, it does not affect the initial 'key_conf_in'.
+        key_conf_in = dict(key_conf_in)
         try:
             bin_by = key_conf_in.pop(KEY_BIN_BY)
         except KeyError:
-- 
2.43.0


From bd1d8f51823e4ecce582ac3955c28cc43043f770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:18 +0000
Subject: [PATCH 15/35] fix: do not modify user's list of columns to identify
 duplicates

---
 oups/store/writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 75d3254..5065d32 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -115,7 +115,7 @@ def iter_dataframe(
         elif isinstance(duplicates_on, list):
             if duplicates_on and sharp_on not in duplicates_on:
                 # Case 'not an empty list', and 'ordered_on' not in.
-                duplicates_on.append(sharp_on)
+                duplicates_on = [*duplicates_on, sharp_on]
         elif duplicates_on != sharp_on:
             # Case 'duplicates_on' is a single column name, but not
             # 'sharp_on'.
@@ -489,7 +489,7 @@ def write(
             elif isinstance(duplicates_on, list):
                 if duplicates_on and ordered_on not in duplicates_on:
                     # Case 'not an empty list', and 'ordered_on' not in.
-                    duplicates_on.append(ordered_on)
+                    duplicates_on = [*duplicates_on, ordered_on]
             elif duplicates_on != ordered_on:
                 # Case 'duplicates_on' is a single column name, but not
                 # 'ordered_on'.
-- 
2.43.0


From 942f01357b15e5d622cc3ebbc9e55a358a1069c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:14 +0000
Subject: [PATCH 16/35] fix: protect list of keys when written from several
 threads

---
 oups/store/collection.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/oups/store/collection.py b/oups/store/collection.py
index 9cded7a..e29ca5b 100644
--- a/oups/store/collection.py
+++ b/oups/store/collection.py
@@ -10,6 +10,7 @@ from os import listdir
 from os import path as os_path
 from os import rmdir
 from shutil import rmtree
+from threading import Lock
 from typing import Tuple, Type, Union
 
 from pandas import DataFrame as pDataFrame
@@ -25,6 +26,10 @@ from oups.store.writer import OUPS_METADATA
 from oups.store.writer import write
 
 
+# 'AggStream' writes different keys of a same store from several threads.
+KEYS_LOCK = Lock()
+
+
 def is_parquet_file(file: str) -> bool:
     """
     Assess extension to be that of a parquet file.
@@ -211,7 +216,8 @@ class ParquetSet:
             OUPS_METADATA.pop(key, None)
         if key not in self:
             # If no trouble from writing, add key.
-            self._keys.add(key)
+            with KEYS_LOCK:
+                self._keys.add(key)
         return
 
     def __setitem__(
-- 
2.43.0


From 543a2d9afc09b179c191584fda1814d9d80f5823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:31 +0000
Subject: [PATCH 17/35] fix: write snapshots before bins, whose metadata tells
 both are written

---
 oups/aggstream/aggstream.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 3148b75..1d25798 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -815,6 +815,13 @@ def _post_n_write_agg_chunks(
     # When there is no result, 'main_res' is None. It is empty if in-progress bin
     # or snapshot, kept aside, is the only one.
     is_main_res = isinstance(main_res, DataFrame)
+    if is_main_res and agg_res_type is AggResType.BOTH and not snap_res.empty:
+        # Snapshots are written before bins, as restart metadata, recorded with
+        # bins, is to tell that both are written.
+        store[snap_key] = (
+            write_config | {KEY_MAX_ROW_GROUP_SIZE: write_config[KEY_MAX_ROW_GROUP_SIZE][1]},
+            snap_res,
+        )
     if is_main_res and not main_res.empty:
         # Record data (with metadata possibly updated).
         if agg_res_type is AggResType.BOTH:
@@ -833,11 +840,6 @@ def _post_n_write_agg_chunks(
             # In case no Parquet file exist yet, need to initiate one to start
             # storing metadata.
             store[main_key] = DataFrame()
-    if is_main_res and agg_res_type is AggResType.BOTH and not snap_res.empty:
-        store[snap_key] = (
-            write_config | {KEY_MAX_ROW_GROUP_SIZE: write_config[KEY_MAX_ROW_GROUP_SIZE][1]},
-            snap_res,
-        )
     if initial_agg_res:
         # If there have been results, they have been processed (either written
         # directly or through 'post()'). Time to reset aggregation buffers and
-- 
2.43.0


From 70ed5345db7016e8a335c28135a582c9dc513a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:52 +0000
Subject: [PATCH 18/35] fix: refuse to restart aggregation when only some of
 the keys have results

---
 oups/aggstream/aggstream.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 1d25798..8b83914 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -317,6 +317,7 @@ def _init_buffers(
     pre_buffer = {}
     agg_buffers = {}
     seed_index_restart_set = set()
+    n_keys_with_res = 0
     for key in keys:
         # Default values for aggregation counters and buffers.
         # 'agg_in_memory_size' : number of rows in aggregation result.
@@ -349,6 +350,7 @@ def _init_buffers(
             # - metadata related to post-processing of prior
             # aggregation results, to be used by 'post'. If not used,
             # it is an empty dict.
+            n_keys_with_res += 1
             seed_index_restart_set.add(aggstream_md[KEY_RESTART_INDEX])
             if KEY_PRE_BUFFER in aggstream_md:
                 pre_buffer = aggstream_md[KEY_PRE_BUFFER]
@@ -362,6 +364,13 @@ def _init_buffers(
             agg_buffers[key][KEY_SEGAGG_BUFFER] = {}
             agg_buffers[key][KEY_POST_BUFFER] = {}
 
+    if seed_index_restart_set and len(keys) > n_keys_with_res:
+        # Aggregation on remaining keys cannot start from this index. This can
+        # result from a 1st aggregation interrupted while writing results.
+        raise ValueError(
+            "not possible to aggregate on multiple keys with existing "
+            "aggregation results for some keys only.",
+        )
     if len(seed_index_restart_set) > 1:
         raise ValueError(
             "not possible to aggregate on multiple keys with existing "
-- 
2.43.0


From 004482b0a4ca311302729a6c4f74d76207ff426d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:32 +0000
Subject: [PATCH 19/35] fix: restore 'pre' buffer when user-defined check fails

---
 oups/aggstream/aggstream.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 8b83914..e744956 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -7,6 +7,7 @@ Created on Wed Nov 15 21:30:00 2023.
 """
 from collections import ChainMap
 from collections import namedtuple
+from copy import deepcopy
 from dataclasses import dataclass
 from enum import Enum
 from itertools import chain
@@ -555,11 +556,15 @@ def _iter_data(
         # Step 1 / Seed pre-processing by user.
         if pre:
             # Apply user checks.
+            prev_pre_buffer = deepcopy(pre_buffer)
             try:
                 pre(on=seed_chunk, buffer=pre_buffer)
             except Exception as e:
                 # Stop iteration in case of failing pre.
                 # Aggregation has been run up to the last valid chunk.
+                # 'pre_buffer' is restored as it was then.
+                pre_buffer.clear()
+                pre_buffer.update(prev_pre_buffer)
                 raise SeedPreException(str(e))
         # Step 2 / If a previous remainder, concatenate it to give current
         # DataFrame its 'final' length.
-- 
2.43.0


From 07c7f635b622d0c6a36aca82e634a4684414bb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:32 +0000
Subject: [PATCH 20/35] fix: accept a seed iterator without any chunk

---
 oups/aggstream/aggstream.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index e744956..f32677b 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -1399,7 +1399,11 @@ class AggStream:
 
         """
         remainder = iter(seed)
-        first = next(remainder)
+        try:
+            first = next(remainder)
+        except StopIteration:
+            # No seed data.
+            return []
         # Recompose seed with 1st item materialized.
         seed = chain([first], remainder)
         seed_dtypes = first.dtypes.to_dict()
-- 
2.43.0


From 99699a961432cbccb7cd1158a7b1720bc6da1fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:05 +0000
Subject: [PATCH 21/35] fix: do not leave a file partly written when creating a
 dataset

---
 oups/store/writer.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 5065d32..2a11380 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -625,15 +625,27 @@ def write(
         # limitations.
         if isinstance(chunk.columns, MultiIndex):
             check_cmidx(chunk.columns)
+        # Write aside, then rename, so that a write that is interrupted or fails
+        # does not leave in dataset a file partly written, that may not be read.
+        new_files = []
+
+        def open_aside(path, mode):
+            new_files.append(path)
+            return open(f"{path}{TMP_SUFFIX}", mode)
+
         fp_write(
             dirpath,
             chunk,
             row_group_offsets=max_row_group_size,
             compression=compression,
             file_scheme="hive",
+            open_with=open_aside,
             write_index=False,
             append=False,
         )
+        # Row group file last: without it, there is no dataset yet.
+        for path in reversed(new_files):
+            os_replace(f"{path}{TMP_SUFFIX}", path)
         # Re-open to write remaining chunks.
         pf = ParquetFile(dirpath)
         # Appending remaining chunks.
-- 
2.43.0


From b4f0d3f677d03980a2fe17131f0be1a7a9db12e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:37 +0000
Subject: [PATCH 22/35] fix: drop pending restart metadata when snapshots or
 metadata fail to be written

---
 oups/aggstream/aggstream.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index f32677b..04b54bd 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -806,6 +806,16 @@ def _post_n_write_agg_chunks(
         initial_agg_res = False
         main_res = None
     main_key, snap_key = key if isinstance(key, tuple) else (key, None)
+    # When there is no result, 'main_res' is None. It is empty if in-progress bin
+    # or snapshot, kept aside, is the only one.
+    is_main_res = isinstance(main_res, DataFrame)
+    if is_main_res and agg_res_type is AggResType.BOTH and not snap_res.empty:
+        # Snapshots are written before bins, as restart metadata, recorded with
+        # bins, is to tell that both are written.
+        store[snap_key] = (
+            write_config | {KEY_MAX_ROW_GROUP_SIZE: write_config[KEY_MAX_ROW_GROUP_SIZE][1]},
+            snap_res,
+        )
     if last_seed_index is not None:
         # If 'last_seed_index', set oups metadata.
         # It is possible there is no result yet to write for different reasons:
@@ -826,16 +836,6 @@ def _post_n_write_agg_chunks(
                 KEY_POST_BUFFER: post_buffer,
             },
         }
-    # When there is no result, 'main_res' is None. It is empty if in-progress bin
-    # or snapshot, kept aside, is the only one.
-    is_main_res = isinstance(main_res, DataFrame)
-    if is_main_res and agg_res_type is AggResType.BOTH and not snap_res.empty:
-        # Snapshots are written before bins, as restart metadata, recorded with
-        # bins, is to tell that both are written.
-        store[snap_key] = (
-            write_config | {KEY_MAX_ROW_GROUP_SIZE: write_config[KEY_MAX_ROW_GROUP_SIZE][1]},
-            snap_res,
-        )
     if is_main_res and not main_res.empty:
         # Record data (with metadata possibly updated).
         if agg_res_type is AggResType.BOTH:
@@ -854,6 +854,9 @@ def _post_n_write_agg_chunks(
             # In case no Parquet file exist yet, need to initiate one to start
             # storing metadata.
             store[main_key] = DataFrame()
+        finally:
+            # If write failed, a later one is not to write this metadata.
+            OUPS_METADATA.pop(main_key, None)
     if initial_agg_res:
         # If there have been results, they have been processed (either written
         # directly or through 'post()'). Time to reset aggregation buffers and
-- 
2.43.0


From 3bac6f48e15173a67fc8344c3815019cd7cf3d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 23/35] fix: restart on listed snapshots given as a Series, or
 without any yet

---
 oups/aggstream/segmentby.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/oups/aggstream/segmentby.py b/oups/aggstream/segmentby.py
index 04cbf49..5a507b0 100644
--- a/oups/aggstream/segmentby.py
+++ b/oups/aggstream/segmentby.py
@@ -23,6 +23,7 @@ from numpy import ndenumerate
 from numpy import nonzero
 from numpy import zeros
 from pandas import DataFrame as pDataFrame
+from pandas import Index as pIndex
 from pandas import IntervalIndex
 from pandas import Series as pSeries
 from pandas import Timedelta
@@ -247,17 +248,22 @@ def by_scale(
                 )
         else:
             chunk_labels = chunk_ends = by
+        # Values are accessed by position, including once first ones are trimmed.
+        # It is not possible with an index of a Series.
+        chunk_labels, chunk_ends = pIndex(chunk_labels), pIndex(chunk_ends)
         if buffer:
             # In case at previous iteration, there has been no snapshot,
             # 'buffer' will not contain 'KEY_RESTART_KEY', but will contain
             # 'KEY_LAST_ON_VALUE'.
-            if KEY_RESTART_KEY in buffer and buffer[KEY_RESTART_KEY] != chunk_ends[0]:
+            if KEY_RESTART_KEY in buffer and (
+                chunk_ends.empty or buffer[KEY_RESTART_KEY] != chunk_ends[0]
+            ):
                 # In case of restart, if first value in 'chunk_ends' is not the
                 # the one that was used in last at last iteration, try first to
                 # trim values in 'by' that are earlier than 'restart_key'.
                 n_chunk_ends_init = len(chunk_ends)
                 chunk_ends = chunk_ends[chunk_ends >= buffer[KEY_RESTART_KEY]]
-                if buffer[KEY_RESTART_KEY] != chunk_ends[0]:
+                if chunk_ends.empty or buffer[KEY_RESTART_KEY] != chunk_ends[0]:
                     raise ValueError(
                         f"'by' needs to contain value {buffer[KEY_RESTART_KEY]} "
                         "to restart correctly.",
@@ -295,8 +301,9 @@ def by_scale(
                         "2nd chunk end in 'by' has to be larger than value "
                         f"{buffer[KEY_LAST_ON_VALUE]} to restart correctly.",
                     )
-                if (closed == RIGHT and chunk_ends[0] < last_on_value) or (
-                    closed == LEFT and chunk_ends[0] <= last_on_value
+                if not chunk_ends.empty and (
+                    (closed == RIGHT and chunk_ends[0] < last_on_value)
+                    or (closed == LEFT and chunk_ends[0] <= last_on_value)
                 ):
                     # At previous iteration, if last value in 'on' is later
                     # than first chunk end, then this chunk should not be
-- 
2.43.0


From bd9cc111c1a25527771c5c1249f713047965f1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:23 +0000
Subject: [PATCH 24/35] fix: min and max of a column with null values

Min and max are not available for a row group with only null values in a column:
'min_max' raised, or returned no value for a datetime column.
---
 oups/store/router.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/oups/store/router.py b/oups/store/router.py
index 0822606..419bd9e 100644
--- a/oups/store/router.py
+++ b/oups/store/router.py
@@ -9,6 +9,7 @@ from functools import cached_property
 
 from cloudpickle import loads
 from fastparquet import ParquetFile
+from fastparquet.api import statistics
 from vaex import open_many
 
 from oups.store.writer import OUPS_METADATA_KEY
@@ -92,11 +93,17 @@ class ParquetHandle:
         Returns
         -------
         tuple
-            Min and max values of column.
+            Min and max values of column, not accounting for null values. ``None``
+            if not available from statistics.
 
         """
-        pf_stats = ParquetFile(self._dirpath).statistics
-        return (min(pf_stats["min"][col]), max(pf_stats["max"][col]))
+        pf = ParquetFile(self._dirpath)
+        # Statistics are retrieved row group per row group: for a row group with
+        # only null values in the column, min and max are not available.
+        pf_stats = [statistics(pf[rg_idx]) for rg_idx in range(len(pf.row_groups))]
+        mins = [min_ for stats in pf_stats if (min_ := stats["min"][col][0]) is not None]
+        maxs = [max_ for stats in pf_stats if (max_ := stats["max"][col][0]) is not None]
+        return (min(mins, default=None), max(maxs, default=None))
 
     @property
     def metadata(self) -> dict:
-- 
2.43.0


From f35824cca95cd78bd56fe95ee33e947bda2bfb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:35 +0000
Subject: [PATCH 25/35] fix: do not alter integers when there are null values

With vaex, a column of integers with null values is converted to 'float64' in pandas: when
updating existing row groups, or writing a vaex dataframe, values larger than 2**53 were altered.
---
 oups/store/writer.py | 54 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 52 insertions(+), 2 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 2a11380..03ba593 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -23,6 +23,7 @@ from numpy import unique as np_unique
 from pandas import DataFrame as pDataFrame
 from pandas import Index
 from pandas import MultiIndex
+from pandas import array as pandas_array
 from vaex import from_pandas
 from vaex import open_many
 from vaex.dataframe import DataFrame as vDataFrame
@@ -49,6 +50,54 @@ OUPS_METADATA_KEY = "oups"
 TMP_SUFFIX = ".tmp"
 
 
+def nullable_int_dtypes(data: vDataFrame) -> Dict[str, str]:
+    """
+    Identify columns of integers with null values.
+
+    Parameters
+    ----------
+    data : vDataFrame
+        Dataframe which columns are to be identified.
+
+    Returns
+    -------
+    Dict[str, str]
+        Column names, and related pandas dtypes.
+
+    """
+    return {
+        col: dtype.numpy.name.replace("int", "Int").replace("u", "U")
+        for col in data.get_column_names()
+        if (dtype := data.data_type(col)).is_integer
+        and (data.is_masked(col) or data.evaluate(col, array_type="arrow").null_count)
+    }
+
+
+def to_pandas(data: vDataFrame, int_dtypes: Dict[str, str]) -> pDataFrame:
+    """
+    Convert a vaex dataframe into a pandas dataframe.
+
+    Parameters
+    ----------
+    data : vDataFrame
+        Dataframe to convert.
+    int_dtypes : Dict[str, str]
+        Pandas dtypes of columns of integers with null values. With vaex, these
+        columns are otherwise converted to 'float64', which cannot represent all
+        integers.
+
+    Returns
+    -------
+    pDataFrame
+        Pandas dataframe.
+
+    """
+    df = data.to_pandas_df()
+    for col, dtype in int_dtypes.items():
+        df[col] = pandas_array(data[col].tolist(), dtype=dtype)
+    return df
+
+
 def iter_dataframe(
     data: Union[pDataFrame, vDataFrame],
     max_row_group_size: int = None,
@@ -101,6 +150,7 @@ def iter_dataframe(
         # Drop any possible lazy indexing, to make the length of data equals
         # its filtered length.
         data = data.extract()
+        int_dtypes = nullable_int_dtypes(data)
     elif sharp_on or isinstance(duplicates_on, list):
         raise TypeError("vaex dataframe required when using 'sharp_on' and/or 'duplicates_on'.")
     # TODO: if dropping duplicates over the full dataset with vaex, then remove
@@ -158,10 +208,10 @@ def iter_dataframe(
                 # This removes then the constraints to have 'sharp_on' set and
                 # and in 'duplicates_on'. Duplicates are then dropped over the
                 # full dataset to be written.
-                yield data[start:end].to_pandas_df().drop_duplicates(duplicates_on, keep="last")
+                yield to_pandas(data[start:end], int_dtypes).drop_duplicates(duplicates_on, keep="last")
         else:
             for start, end in zip(starts, ends):
-                yield data[start:end].to_pandas_df()
+                yield to_pandas(data[start:end], int_dtypes)
     else:
         for start, end in zip(starts, ends):
             yield data.iloc[start:end]
-- 
2.43.0


From e0d948cdf2f3c3fd52b4cf0fa834d01d074f9b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:07 +0000
Subject: [PATCH 26/35] fix: do not turn null values into strings

With vaex, a column with only null values is one of floats: when updating existing row groups,
null values of a column of strings were then turned into strings 'nan'.
---
 oups/store/writer.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 03ba593..e1468a1 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -24,6 +24,8 @@ from pandas import DataFrame as pDataFrame
 from pandas import Index
 from pandas import MultiIndex
 from pandas import array as pandas_array
+from pandas import isna
+from pyarrow import nulls as pa_nulls
 from vaex import from_pandas
 from vaex import open_many
 from vaex.dataframe import DataFrame as vDataFrame
@@ -628,9 +630,18 @@ def write(
             overlapping_rgs = pf[rrg_start_idx:rrg_end_idx].row_groups
             files = [pf.row_group_filename(rg) for rg in overlapping_rgs]
             recorded = open_many(files)
-            if isinstance(data, pDataFrame):
-                # Convert to vaex.
-                data = from_pandas(data)
+            # Convert to vaex.
+            data = from_pandas(data) if isinstance(data, pDataFrame) else data.copy()
+            for col in data.get_column_names():
+                # With vaex, a column with only null values is one of floats in data,
+                # while it may be one of strings in recorded data.
+                if (
+                    (rec_dtype := recorded.data_type(col)).is_arrow
+                    and not rec_dtype.is_float
+                    and data.data_type(col).is_float
+                    and isna(data.evaluate(col, array_type="numpy")).all()
+                ):
+                    data[col] = pa_nulls(len(data), type=rec_dtype.arrow)
             # For concatenation of numpy 'timedelta64' to arrow 'time64', check
             # https://github.com/vaexio/vaex/issues/2024
             data = recorded.concat(data)
-- 
2.43.0


From 141dbec8ff89f47a99049b37b0e338bbb1ea0c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:35 +0000
Subject: [PATCH 27/35] fix: expand column index in all row groups

With 'cmidx_expand', column index was only expanded in first row group, and names that are not
representations of a tuple were split into characters, or not accepted. List of level names given
by user was completed in-place.
---
 oups/store/writer.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index e1468a1..1defb73 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -260,9 +260,11 @@ def to_midx(idx: Index, levels: List[str] = None) -> MultiIndex:
             # Get max number of levels.
             max_levels = max(len(tup), max_levels)
             idx_temp.append(tup)
-        except ValueError:
+        except (SyntaxError, TypeError, ValueError):
+            # Not the representation of a tuple.
             # Keep value as string, enclosed in a tuple.
-            idx_temp.append(tuple(val))
+            max_levels = max(1, max_levels)
+            idx_temp.append((val,))
     # Generate names of levels if required.
     diff = 0
     if levels is None:
@@ -272,7 +274,8 @@ def to_midx(idx: Index, levels: List[str] = None) -> MultiIndex:
     elif (len_lev := len(levels)) < max_levels:
         diff = max_levels - len_lev
     if diff > 0:
-        levels.extend([f"l{i}" for i in range(len_lev, max_levels)])
+        # A new list, not to modify that of the user.
+        levels = [*levels, *[f"l{i}" for i in range(len_lev, max_levels)]]
     # Equalize length of tuples.
     tuples = [(*t, *[""] * n) if (n := (max_levels - len(t))) else t for t in idx_temp]
     return MultiIndex.from_tuples(tuples, names=levels)
@@ -679,9 +682,13 @@ def write(
     else:
         # Case initiating a new dataset.
         iter_data = iter_dataframe(data, max_row_group_size)
-        chunk = next(iter_data)
         if cmidx_expand:
-            chunk.columns = to_midx(chunk.columns, cmidx_levels)
+            # In all chunks.
+            iter_data = (
+                chunk.set_axis(to_midx(chunk.columns, cmidx_levels), axis="columns")
+                for chunk in iter_data
+            )
+        chunk = next(iter_data)
         # In case multi-index is used, check that it complies with fastparquet
         # limitations.
         if isinstance(chunk.columns, MultiIndex):
-- 
2.43.0


From 8a2417c4682bcdf4c682e9125430148be88d335c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:53 +0000
Subject: [PATCH 28/35] fix: create dataset with only null values in first row
 group

Encoding of a column of strings was set from first row group. With only null values in it, column
was encoded as bytes, and following row groups failed to be written.
---
 oups/store/writer.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 1defb73..9c3d78d 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -18,6 +18,7 @@ from fastparquet import ParquetFile
 from fastparquet import write as fp_write
 from fastparquet.api import filter_row_groups
 from fastparquet.util import update_custom_metadata
+from fastparquet.writer import infer_object_encoding
 from numpy import searchsorted as np_searchsorted
 from numpy import unique as np_unique
 from pandas import DataFrame as pDataFrame
@@ -689,6 +690,18 @@ def write(
                 for chunk in iter_data
             )
         chunk = next(iter_data)
+        # Identify type of objects from all data, as there may be only null values
+        # in first chunk. Encoding in dataset is set with this chunk.
+        object_encoding = dict.fromkeys(chunk.columns, "infer")
+        for col_idx, col in enumerate(chunk.columns):
+            if chunk.dtypes.iloc[col_idx] == "O":
+                if isinstance(data, pDataFrame):
+                    object_encoding[col] = infer_object_encoding(data.iloc[:, col_idx])
+                elif (
+                    chunk.iloc[:, col_idx].isna().all()
+                    and data.data_type(data.get_column_names()[col_idx]).is_string
+                ):
+                    object_encoding[col] = "utf8"
         # In case multi-index is used, check that it complies with fastparquet
         # limitations.
         if isinstance(chunk.columns, MultiIndex):
@@ -707,6 +720,7 @@ def write(
             row_group_offsets=max_row_group_size,
             compression=compression,
             file_scheme="hive",
+            object_encoding=object_encoding,
             open_with=open_aside,
             write_index=False,
             append=False,
-- 
2.43.0


From 03faaa5bfccbce1fbb3176878ebfbc65d957c0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:00 +0000
Subject: [PATCH 29/35] fix: restart in a bin which is not of a fixed length

---
 oups/aggstream/segmentby.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oups/aggstream/segmentby.py b/oups/aggstream/segmentby.py
index 5a507b0..091e9ce 100644
--- a/oups/aggstream/segmentby.py
+++ b/oups/aggstream/segmentby.py
@@ -366,7 +366,10 @@ def by_scale(
                 else:
                     # If there is a single incomplete bin, take first element
                     # in 'on'.
-                    buffer[KEY_RESTART_KEY] = on.iloc[0]
+                    # If bins are not of a fixed length (weeks, months...), at
+                    # restart, it does not give the start of the bin if this
+                    # one started earlier. Keep then the same value.
+                    buffer[KEY_RESTART_KEY] = on.iloc[0] if isinstance(by.freq, Tick) else first
             else:
                 # Take last end
                 # - either if 'by' is a TimeGrouper, as it is enough for
-- 
2.43.0


From 599041121309555846f821a213735b41a1db8ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:50 +0000
Subject: [PATCH 30/35] fix: accept the filter id meaning no filter when it is
 listed in filters

---
 oups/aggstream/aggstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 04b54bd..f7b1156 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -1288,7 +1288,7 @@ class AggStream:
             # Check if only an "AND" part has been provided. If yes, enclose it
             # in an outer list.
             filters = {
-                filt_id: [filters_] if isinstance(filters_[0], tuple) else filters_
+                filt_id: [filters_] if filters_ and isinstance(filters_[0], tuple) else filters_
                 for filt_id, filters_ in filters.items()
             }
         # Set default values for keys' config.
-- 
2.43.0


From 24ae576f2faa081fb489d948eaa26d49e5ad2482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:09 +0000
Subject: [PATCH 31/35] fix: accept any character as fields separator

---
 oups/store/indexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oups/store/indexer.py b/oups/store/indexer.py
index 5c25abb..d0aa200 100644
--- a/oups/store/indexer.py
+++ b/oups/store/indexer.py
@@ -194,7 +194,7 @@ def _dataclass_instance_from_str(cls: Type[dataclass], string: str) -> Union[dat
     types = _dataclass_fields_types_to_lists(cls)
     # Split string depending 'fields_sep' and 'DIR_SEP', into different fields.
     fields_sep = cls.fields_sep
-    strings_as_list = re.split(rf"{DIR_SEP}|\{fields_sep}", string)
+    strings_as_list = re.split(rf"{DIR_SEP}|{re.escape(fields_sep)}", string)
     # Manages last level first.
     level_types = types.pop()  # remove last element
     level_length = len(level_types)
-- 
2.43.0


From 926a42185a27aa54406984a2b879e0845f3dcc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:59 +0000
Subject: [PATCH 32/35] fix: name directories of keys with empty strings so
 that they are found again

---
 oups/store/indexer.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/oups/store/indexer.py b/oups/store/indexer.py
index d0aa200..8f03def 100644
--- a/oups/store/indexer.py
+++ b/oups/store/indexer.py
@@ -100,6 +100,15 @@ last position.",
             else:
                 # If not a dataclass instance.
                 field_as_str = str(field)
+                if not field_as_str and (
+                    number_of_fields == 1
+                    or (number_of_fields == 2 and _is_dataclass_instance(fields_[-1]))
+                ):
+                    # The only field of a level is the name of a directory.
+                    raise ValueError(
+                        "an empty string is not possible as the only field of \
+a level.",
+                    )
                 if any((symb in field_as_str for symb in forbidden_chars)):
                     raise ValueError(
                         f"use of a forbidden character among \
@@ -139,7 +148,7 @@ def _dataclass_instance_to_str(toplevel: dataclass, as_path: bool = False) -> st
     for fields_ in _dataclass_instance_to_lists(toplevel):
         # Relying on the fact that only the tail can be a dataclass instance.
         to_str.append(toplevel.fields_sep.join(map(str, fields_[:-1])))
-    if to_str[-1]:
+    if len(fields_) > 1:
         to_str[-1] += f"{toplevel.fields_sep}{str(fields_[-1])}"
     else:
         to_str[-1] = str(fields_[-1])
-- 
2.43.0


From c047b6e72334a237500850f00a1212415a0b3a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:12 +0000
Subject: [PATCH 33/35] fix: read files of datasets which path is like a
 pattern

---
 oups/store/router.py | 5 ++++-
 oups/store/writer.py | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/oups/store/router.py b/oups/store/router.py
index 419bd9e..2f01d0b 100644
--- a/oups/store/router.py
+++ b/oups/store/router.py
@@ -6,6 +6,7 @@ Created on Wed Dec 26 22:30:00 2021.
 
 """
 from functools import cached_property
+from glob import escape as glob_escape
 
 from cloudpickle import loads
 from fastparquet import ParquetFile
@@ -79,7 +80,9 @@ class ParquetHandle:
         # over by an interrupted write, are not part of the dataset.
         # A file may contain several row groups.
         pf = ParquetFile(self._dirpath)
-        return open_many(list(dict.fromkeys(map(pf.row_group_filename, pf.row_groups))))
+        files = dict.fromkeys(map(pf.row_group_filename, pf.row_groups))
+        # Paths are not patterns.
+        return open_many([glob_escape(file) for file in files])
 
     def min_max(self, col: str) -> tuple:
         """
diff --git a/oups/store/writer.py b/oups/store/writer.py
index 9c3d78d..1798bab 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -6,6 +6,7 @@ Created on Wed Dec  6 22:30:00 2021.
 
 """
 from ast import literal_eval
+from glob import escape as glob_escape
 from os import listdir as os_listdir
 from os import path as os_path
 from os import remove as os_remove
@@ -633,7 +634,8 @@ def write(
             # Read row groups that have impacted data as a vaex dataframe.
             overlapping_rgs = pf[rrg_start_idx:rrg_end_idx].row_groups
             files = [pf.row_group_filename(rg) for rg in overlapping_rgs]
-            recorded = open_many(files)
+            # Paths are not patterns.
+            recorded = open_many([glob_escape(file) for file in files])
             # Convert to vaex.
             data = from_pandas(data) if isinstance(data, pDataFrame) else data.copy()
             for col in data.get_column_names():
-- 
2.43.0


From d2e26d86f07abb1362f18ef7126c3b93bff397a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:15 +0000
Subject: [PATCH 34/35] fix: refuse data which columns are not those of the
 dataset

---
 oups/store/writer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 1798bab..c7924a4 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -529,6 +529,13 @@ def write(
         # and precedes some of them.
         rrg_insert_idx = None
         pf = ParquetFile(dirpath)
+        # If columns were not the same, depending how data is written, some would
+        # be lost without notice, or would not be readable any longer.
+        cols = data.columns if isinstance(data, pDataFrame) else data.get_column_names()
+        if set(map(str, cols)) != set(pf.columns):
+            raise ValueError(
+                f"columns of data {list(cols)} are not those already recorded {pf.columns}.",
+            )
         n_rrgs = len(pf.row_groups)
         if duplicates_on is not None:
             if not ordered_on:
-- 
2.43.0


From 40983c7666610733a78255b6e44c95a9879af994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:47 +0000
Subject: [PATCH 35/35] fix: keep metadata of a dataset without data when data
 is first written

---
 oups/store/writer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index c7924a4..50f46b1 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -715,6 +715,12 @@ def write(
         # limitations.
         if isinstance(chunk.columns, MultiIndex):
             check_cmidx(chunk.columns)
+        # A dataset without data yet may have metadata, that is to be kept.
+        recorded_md = {}
+        if os_path.isfile(os_path.join(dirpath, "_metadata")):
+            pf = ParquetFile(dirpath)
+            if not pf.row_groups:
+                recorded_md = {k: v for k, v in pf.key_value_metadata.items() if k != "pandas"}
         # Write aside, then rename, so that a write that is interrupted or fails
         # does not leave in dataset a file partly written, that may not be read.
         new_files = []
@@ -733,6 +739,7 @@ def write(
             open_with=open_aside,
             write_index=False,
             append=False,
+            custom_metadata=recorded_md,
         )
         # Row group file last: without it, there is no dataset yet.
         for path in reversed(new_files):
-- 
2.43.0

