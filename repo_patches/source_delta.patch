From 5a4c0df448b58a3c1027ac0a425a0e5c6d49891b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:49 +0000
Subject: [PATCH 01/50] fix: keep the stored record following the merged period
 by one time unit

merge_time_series dropped (or raised IndexError on) an existing record
located exactly one time unit after the last inserted record.
---
 zcollection/merging/time_series.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zcollection/merging/time_series.py b/zcollection/merging/time_series.py
index 099add0..a25405c 100644
--- a/zcollection/merging/time_series.py
+++ b/zcollection/merging/time_series.py
@@ -56,7 +56,7 @@ def _merge_time_series(
         # pylint: disable=comparison-with-callable
         indices = numpy.where(
             # comparison between ndarray and datetime64
-            existing_axis > intersection.end())[0]  # type: ignore
+            existing_axis > intersection.last)[0]  # type: ignore
         # pylint: enable=comparison-with-callable
         return inserted_ds.concat(
             existing_ds.isel({partitioning_dim: indices}), partitioning_dim)
@@ -81,7 +81,7 @@ def _merge_time_series(
 
     # pylint: disable=comparison-with-callable
     # comparison between ndarray and datetime64
-    index = numpy.where(existing_axis > intersection.end())[0]  # type: ignore
+    index = numpy.where(existing_axis > intersection.last)[0]  # type: ignore
     # pylint: enable=comparison-with-callable
     after: dataset.Dataset = existing_ds.isel(
         {partitioning_dim: slice(index[0], index[-1] + 1, None)})
-- 
2.43.0


From 194bdc0f22f8c51078f1da56a8bd56d4d8bfb7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:49 +0000
Subject: [PATCH 02/50] fix: detect interleaved partition keys of in-memory
 datasets

A key coming back after another one (1, 2, 1) was not detected and the
rows were stored in the wrong partition.
---
 zcollection/partitioning/abc.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/zcollection/partitioning/abc.py b/zcollection/partitioning/abc.py
index 5eb2fc9..8fba7aa 100644
--- a/zcollection/partitioning/abc.py
+++ b/zcollection/partitioning/abc.py
@@ -121,8 +121,13 @@ def unique_and_check_monotony(arr: ArrayLike) -> tuple[NDArray, NDArray]:
     index: NDArray
     indices: NDArray
 
-    index, indices = numpy.unique(arr, axis=0, return_index=True)
-    if not numpy.all(numpy.diff(indices) > 0):
+    inverse: NDArray
+
+    index, indices, inverse = numpy.unique(arr,
+                                           axis=0,
+                                           return_index=True,
+                                           return_inverse=True)
+    if not numpy.all(numpy.diff(inverse.ravel()) >= 0):
         raise ValueError('index is not monotonic')
     return index, indices
 
-- 
2.43.0


From 4656fd1e13dfbcac5d1b1bc257bf9c3a8bf83601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:40 +0000
Subject: [PATCH 03/50] fix: splitting an empty sequence yields no section

Copying or updating with an empty selection, or inserting an empty dataset,
raised ZeroDivisionError or ValueError.
---
 zcollection/dask_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zcollection/dask_utils.py b/zcollection/dask_utils.py
index 40c6b75..66e535b 100644
--- a/zcollection/dask_utils.py
+++ b/zcollection/dask_utils.py
@@ -68,11 +68,12 @@ def split_sequence(sequence: Sequence[Any],
     Returns:
         Iterator of sequences.
     """
-    sections = len(sequence) if sections is None else sections
-    if sections <= 0:
+    if sections is not None and sections <= 0:
         raise ValueError('The number of sections must be greater than zero.')
     length: int = len(sequence)
-    sections = min(sections, length)
+    if length == 0:
+        return
+    sections = length if sections is None else min(sections, length)
 
     size: int
     extras: int
-- 
2.43.0


From 3be819817dea4a5daa43d973d079d5513f6a00f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:40 +0000
Subject: [PATCH 04/50] fix: select the non-partitioned variables with the
 partitioning dimension

The name of the axis variable was used instead of the name of its dimension:
inserting failed when they differ.
---
 zcollection/collection/__init__.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index ee83f64..d8a3d5b 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -49,7 +49,7 @@ _LOGGER: logging.Logger = logging.getLogger(__name__)
 
 def _write_immutable_dataset(
     zds: dataset.Dataset,
-    axis: str,
+    dim: str,
     path: str,
     fs: fsspec.AbstractFileSystem,
     synchronizer: sync.Sync,
@@ -58,11 +58,11 @@ def _write_immutable_dataset(
 
     Args:
         zds: The dataset to write.
-        axis: The partitioning axis.
+        dim: The partitioning dimension.
         path: The path to the immutable dataset.
         fs: The file system that the partition is stored on.
     """
-    immutable_dataset = zds.select_variables_by_dims((axis, ), predicate=False)
+    immutable_dataset = zds.select_variables_by_dims((dim, ), predicate=False)
     assert len(immutable_dataset.variables) != 0, (
         'The dataset to insert does not contain any variable '
         'that is not split.')
@@ -379,11 +379,13 @@ class Collection(ReadOnlyCollection):
             # On the first call, we store the immutable variables in
             # a directory located at the root of the collection.
             if not self.fs.exists(self._immutable):
-                _write_immutable_dataset(ds, self.axis, self._immutable,
-                                         self.fs, self.synchronizer)
+                _write_immutable_dataset(ds, self.partition_properties.dim,
+                                         self._immutable, self.fs,
+                                         self.synchronizer)
 
             # Remove the variables that should not be partitioned.
-            ds = ds.select_variables_by_dims((self.axis, ))
+            ds = ds.select_variables_by_dims(
+                (self.partition_properties.dim, ))
 
         # Process the partitions to insert or update by batches to avoid
         # memory issues.
-- 
2.43.0


From 94cad87e10e9ea2fa6c7dc33797a1b4e0ff76b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:40 +0000
Subject: [PATCH 05/50] fix: attach the non-partitioned variables to overlap
 windows

The partition itself was merged into the window, which raised an error.
---
 zcollection/collection/detail.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/collection/detail.py b/zcollection/collection/detail.py
index d2cb9fe..04c0849 100644
--- a/zcollection/collection/detail.py
+++ b/zcollection/collection/detail.py
@@ -243,7 +243,7 @@ def _load_dataset_with_overlap(
 
     if immutable:
         zds.merge(
-            open_zarr_group(partition,
+            open_zarr_group(immutable,
                             fs,
                             delayed=delayed,
                             selected_variables=selected_variables))
-- 
2.43.0


From 7134436aa379e01bf55b66bbdac95b6f9a6f4172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:31 +0000
Subject: [PATCH 06/50] fix: parse only the last components of a partition path

A collection stored below a directory named like one of its partitioning keys
(/data/year=2020/collection) could not be listed, and a key was recognized
inside a longer name.
---
 zcollection/partitioning/abc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zcollection/partitioning/abc.py b/zcollection/partitioning/abc.py
index 8fba7aa..6f17544 100644
--- a/zcollection/partitioning/abc.py
+++ b/zcollection/partitioning/abc.py
@@ -265,7 +265,9 @@ class Partitioning(metaclass=abc.ABCMeta):
 
     def _regex(self) -> re.Pattern:
         """Return a regular expression that matches the partitioning scheme."""
-        return re.compile('.'.join(f'({item})=(.*)' for item in self._keys()))
+        return re.compile(r'\b' +
+                          '.'.join(rf'({re.escape(item)})=(-?\d+)'
+                                   for item in self._keys()) + '$')
 
     @abc.abstractmethod
     def _split(
-- 
2.43.0


From ba7ea091976378fcf4f196289aeeedabcb8c4f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:31 +0000
Subject: [PATCH 07/50] fix: hide the temporary directory of a merge and keep
 it in the collection

If the process stopped while a partition was rewritten, the temporary directory
left at the root made the listing of the partitions fail. When the path of the
collection contained a '=', the directory was created outside the collection.
---
 zcollection/merging/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/zcollection/merging/__init__.py b/zcollection/merging/__init__.py
index 7a39e3e..bdc4adf 100644
--- a/zcollection/merging/__init__.py
+++ b/zcollection/merging/__init__.py
@@ -89,7 +89,9 @@ def _rename(
 
 def _extract_root_dirname(dirname: str, sep: str) -> str:
     """Extracts the root directory name from a partition name."""
-    parts = filter(lambda x: '=' not in x, dirname.split(sep))
+    parts = dirname.split(sep)
+    while parts and '=' in parts[-1]:
+        parts.pop()
     return sep.join(parts)
 
 
@@ -109,10 +111,11 @@ def _update_fs(
         synchronizer: The instance handling access to critical resources.
     """
     # Building a temporary directory to store the new data. The name of the
-    # temporary directory is the hash of the partition name.
+    # temporary directory is the hash of the partition name. It is hidden, so
+    # it's never listed as a partition.
     temp: str = fs_utils.join_path(
         _extract_root_dirname(dirname, fs.sep),
-        hashlib.sha256(dirname.encode()).hexdigest())
+        '.' + hashlib.sha256(dirname.encode()).hexdigest())
     if fs.exists(temp):
         fs.rm(temp, recursive=True)
 
-- 
2.43.0


From 2a5d658a66ffc1eb16b428ff28edf5fd9ea5072b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:01 +0000
Subject: [PATCH 08/50] fix: copy to the file system of the collection by
 default

Without the filesystem argument, the target path was taken as the name of a
file system and the copy failed.
---
 zcollection/collection/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index d8a3d5b..e08947e 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -724,7 +724,7 @@ class Collection(ReadOnlyCollection):
         """
         _LOGGER.info('Copying of the collection to %r', target)
         if filesystem is None:
-            filesystem = fs_utils.get_fs(target)
+            filesystem = self.fs
         client: dask.distributed.Client = dask_utils.get_client()
         npartitions = npartitions or dask_utils.dask_workers(client,
                                                              cores_only=True)
-- 
2.43.0


From 0192baea0f458ae2870a2e8d3a08d55c4ab18cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:01 +0000
Subject: [PATCH 09/50] fix: copy the non-partitioned variables and empty
 collections

A copied collection containing non-partitioned variables could not be loaded,
and copying an empty selection failed because the target did not exist.
---
 zcollection/collection/__init__.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index e08947e..5bdb335 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -747,8 +747,17 @@ class Collection(ReadOnlyCollection):
             tuple(map(lambda arg: partial(*arg), args))
 
         client.gather(client.map(worker_task, args))
+        # Then the variables that are not partitioned.
+        if self._immutable is not None and self.fs.exists(self._immutable):
+            partial(
+                self._immutable,
+                fs_utils.join_path(
+                    target,
+                    os.path.relpath(self._immutable,
+                                    self.partition_properties.dir)))
         # Then the remaining files in the root directory (config, metadata,
         # etc.)
+        filesystem.makedirs(target, exist_ok=True)
         fs_utils.copy_files([
             item['name']
             for item in self.fs.listdir(self.partition_properties.dir,
-- 
2.43.0


From 6cda56b3a01743c48af788eaf8742b5db5d67c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:23 +0000
Subject: [PATCH 10/50] fix: overlap of a view reduced to a single partition

---
 zcollection/view/detail.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index 4892d73..5fd9f55 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -342,7 +342,8 @@ def _select_overlap(
     # Build the dataset for the selected partitions.
     groups: list[dataset.Dataset] = [ds for ds, _ in selected_datasets]
     zds: dataset.Dataset = groups.pop(0)
-    zds = zds.concat(groups, view_ref.partition_properties.dim)
+    if groups:
+        zds = zds.concat(groups, view_ref.partition_properties.dim)
 
     return zds, calculate_slice(selected_datasets)
 
-- 
2.43.0


From 53b4d42df13d8cec7f400cbb4c312dca7daac479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:52 +0000
Subject: [PATCH 11/50] fix: report a partition without readable metadata as
 invalid

---
 zcollection/storage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zcollection/storage.py b/zcollection/storage.py
index af8d28f..32db782 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -23,6 +23,7 @@ import numcodecs.abc
 import numcodecs.blosc
 import numpy
 import zarr
+import zarr.errors
 
 from . import dataset, meta, sync
 from .fs_utils import join_path
@@ -468,6 +469,7 @@ def check_zarr_group(
         for _, array in store.arrays():
             data: NDArray = array[...]  # type: ignore
             del data
-    except (ValueError, TypeError, RuntimeError):
+    except (KeyError, ValueError, TypeError, RuntimeError,
+            zarr.errors.MetadataError):
         return False
     return True
-- 
2.43.0


From fa49e50df59164b6f723f0b31a170c1f0f04a7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:52 +0000
Subject: [PATCH 12/50] fix: write again the non-partitioned variables after a
 failed insertion

---
 zcollection/collection/__init__.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 5bdb335..df6aa5b 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -67,11 +67,17 @@ def _write_immutable_dataset(
         'The dataset to insert does not contain any variable '
         'that is not split.')
     _LOGGER.info('Creating the immutable dataset: %s', path)
-    storage.write_zarr_group(immutable_dataset,
-                             path,
-                             fs,
-                             synchronizer,
-                             distributed=False)
+    try:
+        storage.write_zarr_group(immutable_dataset,
+                                 path,
+                                 fs,
+                                 synchronizer,
+                                 distributed=False)
+    except Exception:
+        # An incomplete dataset must be written again by the next insertion.
+        if fs.exists(path):
+            fs.rm(path, recursive=True)
+        raise
 
 
 def _infer_callable(
@@ -378,7 +384,8 @@ class Collection(ReadOnlyCollection):
 
             # On the first call, we store the immutable variables in
             # a directory located at the root of the collection.
-            if not self.fs.exists(self._immutable):
+            if not self.fs.exists(
+                    fs_utils.join_path(self._immutable, '.zmetadata')):
                 _write_immutable_dataset(ds, self.partition_properties.dim,
                                          self._immutable, self.fs,
                                          self.synchronizer)
-- 
2.43.0


From 87b49034a8b861bbca165c13f37867b47cd2fef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:32 +0000
Subject: [PATCH 13/50] fix: insert again a partition whose creation was
 interrupted

---
 zcollection/collection/detail.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zcollection/collection/detail.py b/zcollection/collection/detail.py
index 04c0849..5f90b8d 100644
--- a/zcollection/collection/detail.py
+++ b/zcollection/collection/detail.py
@@ -430,7 +430,9 @@ def _insert(
     # The current partition does not exist, so we need to create
     # it and insert the dataset.
     try:
-        zarr.storage.init_group(store=fs.get_mapper(dirname))
+        # Discard what an interrupted insertion may have left.
+        zarr.storage.init_group(store=fs.get_mapper(dirname),
+                                overwrite=fs.isdir(dirname))
 
         # The synchronization is done by the caller.
         write_zarr_group(zds.isel(indexer), dirname, fs, sync.NoSync())
-- 
2.43.0


From 86e892429f2f97b5cce0be8d1835abc77bc07909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:54 +0000
Subject: [PATCH 14/50] fix: hold the lock until all tasks of a failed
 transaction are finished

---
 zcollection/storage.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/zcollection/storage.py b/zcollection/storage.py
index 32db782..2364714 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -70,17 +70,17 @@ def execute_transaction(
     if not futures:
         return None
     awaitables: Iterable[Any] = []
-    try:
-        with synchronizer:
+    with synchronizer:
+        try:
             awaitables = client.compute(futures,
                                         **kwargs)  # type: ignore[arg-type]
             return client.gather(awaitables)
-    except:  # noqa: E722
-        # Before throwing the exception, we wait until all future scheduled
-        # ones finished.
-        dask.distributed.wait(awaitables)
-        dask.distributed.wait(futures)
-        raise
+        except:  # noqa: E722
+            # Before throwing the exception and releasing the lock, we wait
+            # until all future scheduled ones finished.
+            dask.distributed.wait(awaitables)
+            dask.distributed.wait(futures)
+            raise
 
 
 def _to_zarr(array: dask.array.core.Array, mapper: fsspec.FSMap, path: str,
-- 
2.43.0


From 9d2db800708423b3871afdc13d92dc5fb0fbd12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:58 +0000
Subject: [PATCH 15/50] fix: start the tasks of a transaction once its lock is
 held

---
 zcollection/collection/__init__.py | 26 +++++-----
 zcollection/dask_utils.py          | 21 +++++++-
 zcollection/view/__init__.py       | 78 ++++++++++++++++--------------
 3 files changed, 74 insertions(+), 51 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index df6aa5b..cbe009b 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -473,7 +473,7 @@ class Collection(ReadOnlyCollection):
 
         storage.execute_transaction(
             client, self.synchronizer,
-            client.map(self.fs.rm, folders, recursive=True))
+            dask_utils.delayed_map('rm', self.fs.rm, folders, recursive=True))
 
         def invalidate_cache(path) -> None:
             """Invalidate the cache."""
@@ -590,7 +590,7 @@ class Collection(ReadOnlyCollection):
             or dask_utils.dask_workers(client, cores_only=True))
         storage.execute_transaction(
             client, self.synchronizer,
-            client.map(local_func, tuple(batches), key=func.__name__))
+            dask_utils.delayed_map(func.__name__, local_func, batches))
         tuple(map(self.fs.invalidate_cache, selected_partitions))
 
     def drop_variable(
@@ -628,10 +628,9 @@ class Collection(ReadOnlyCollection):
                     'dataset.')
         client: dask.distributed.Client = dask_utils.get_client()
         bag: dask.bag.core.Bag = self._bag_from_partitions(lock=True)
-        awaitables: list[
-            dask.distributed.Future] = dask.distributed.futures_of(
-                bag.map(storage.del_zarr_array, variable, self.fs).persist())
-        storage.execute_transaction(client, self.synchronizer, awaitables)
+        storage.execute_transaction(
+            client, self.synchronizer,
+            bag.map(storage.del_zarr_array, variable, self.fs).to_delayed())
         del self.metadata.variables[variable]
         self._write_config()
 
@@ -685,14 +684,13 @@ class Collection(ReadOnlyCollection):
         }
         try:
             bag: dask.bag.core.Bag = self._bag_from_partitions(lock=True)
-            futures: list[
-                dask.distributed.Future] = dask.distributed.futures_of(
-                    bag.map(storage.add_zarr_array,
-                            variable,
-                            template.name,
-                            self.fs,
-                            chunks=chunks).persist())
-            storage.execute_transaction(client, self.synchronizer, futures)
+            storage.execute_transaction(
+                client, self.synchronizer,
+                bag.map(storage.add_zarr_array,
+                        variable,
+                        template.name,
+                        self.fs,
+                        chunks=chunks).to_delayed())
         except Exception:
             self.drop_variable(variable.name)
             raise
diff --git a/zcollection/dask_utils.py b/zcollection/dask_utils.py
index 66e535b..e3018fe 100644
--- a/zcollection/dask_utils.py
+++ b/zcollection/dask_utils.py
@@ -8,7 +8,7 @@ Dask utilities
 """
 from __future__ import annotations
 
-from typing import Any, Callable, Iterator, Sequence
+from typing import Any, Callable, Iterable, Iterator, Sequence
 import itertools
 import uuid
 
@@ -103,3 +103,22 @@ def simple_delayed(name: str, func: Callable) -> dask_Delayed:
         }}, {name: set()}),
         None,
     )
+
+
+def delayed_map(name: str, func: Callable, iterable: Iterable[Any],
+                **kwargs) -> list[dask_Delayed]:
+    """Create the lazy tasks applying a function to each item of an iterable.
+
+    Unlike :py:meth:`dask.distributed.Client.map`, the tasks start only when
+    they are computed.
+
+    Args:
+        name: name of the function
+        func: function to be delayed
+        iterable: items to process
+        **kwargs: keyword arguments of the function
+
+    Returns:
+        list of delayed tasks
+    """
+    return [simple_delayed(name, func)(item, **kwargs) for item in iterable]
diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index f878511..2c02d22 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -118,9 +118,10 @@ class View:
         client: dask.distributed.Client = dask_utils.get_client()
         storage.execute_transaction(
             client, self.synchronizer,
-            client.map(
+            dask_utils.delayed_map(
+                'write_checksum',
                 _write_checksum,
-                tuple(args),
+                args,
                 base_dir=self.base_dir,
                 view_ref=self.view_ref,
                 fs=self.fs,
@@ -283,20 +284,22 @@ class View:
         try:
             storage.execute_transaction(
                 client, self.synchronizer,
-                client.map(_create_zarr_array,
-                           tuple(args),
-                           base_dir=self.base_dir,
-                           fs=self.fs,
-                           template=template.name,
-                           variable=variable))
+                dask_utils.delayed_map('create_zarr_array',
+                                       _create_zarr_array,
+                                       args,
+                                       base_dir=self.base_dir,
+                                       fs=self.fs,
+                                       template=template.name,
+                                       variable=variable))
         except Exception:
             storage.execute_transaction(
                 client, self.synchronizer,
-                client.map(_drop_zarr_zarr,
-                           tuple(self.partitions()),
-                           fs=self.fs,
-                           variable=variable.name,
-                           ignore_errors=True))
+                dask_utils.delayed_map('drop_zarr_array',
+                                       _drop_zarr_zarr,
+                                       self.partitions(),
+                                       fs=self.fs,
+                                       variable=variable.name,
+                                       ignore_errors=True))
             raise
 
         self._write_config()
@@ -328,10 +331,11 @@ class View:
 
         storage.execute_transaction(
             client, self.synchronizer,
-            client.map(_drop_zarr_zarr,
-                       tuple(self.partitions()),
-                       fs=self.fs,
-                       variable=variable.name))
+            dask_utils.delayed_map('drop_zarr_array',
+                                   _drop_zarr_zarr,
+                                   self.partitions(),
+                                   fs=self.fs,
+                                   variable=variable.name))
 
     def load(
         self,
@@ -527,12 +531,12 @@ class View:
         batchs: Iterator[Sequence[Any]] = dask_utils.split_sequence(
             datasets_list, npartitions
             or dask_utils.dask_workers(client, cores_only=True))
-        awaitables: list[dask.distributed.Future] = client.map(
-            wrap_function,
-            tuple(batchs),
-            key=func.__name__,
-            base_dir=self.base_dir)
-        storage.execute_transaction(client, self.synchronizer, awaitables)
+        storage.execute_transaction(
+            client, self.synchronizer,
+            dask_utils.delayed_map(func.__name__,
+                                   wrap_function,
+                                   batchs,
+                                   base_dir=self.base_dir))
 
     # pylint: disable=duplicate-code
     # false positive, no code duplication
@@ -740,13 +744,14 @@ class View:
         client: dask.distributed.Client = dask_utils.get_client()
         unsynchronized_partition = storage.execute_transaction(
             client, self.synchronizer,
-            client.map(_sync,
-                       partitions,
-                       base_dir=self.base_dir,
-                       fs=self.fs,
-                       view_ref=self.view_ref,
-                       metadata=self.metadata,
-                       dry_run=True))
+            dask_utils.delayed_map('sync',
+                                   _sync,
+                                   partitions,
+                                   base_dir=self.base_dir,
+                                   fs=self.fs,
+                                   view_ref=self.view_ref,
+                                   metadata=self.metadata,
+                                   dry_run=True))
         return len(
             tuple(
                 filter(lambda item: item is not None,
@@ -791,12 +796,13 @@ class View:
         client: dask.distributed.Client = dask_utils.get_client()
         synchronized_partition: list[str | None] = storage.execute_transaction(
             client, self.synchronizer,
-            client.map(_sync,
-                       partitions,
-                       base_dir=self.base_dir,
-                       fs=self.fs,
-                       view_ref=self.view_ref,
-                       metadata=self.metadata))
+            dask_utils.delayed_map('sync',
+                                   _sync,
+                                   partitions,
+                                   base_dir=self.base_dir,
+                                   fs=self.fs,
+                                   view_ref=self.view_ref,
+                                   metadata=self.metadata))
 
         partition_ids = tuple(
             dict(self.view_ref.partitioning.parse(
-- 
2.43.0


From a56a529ee2faa09de32c5853744111ff7430c41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:58 +0000
Subject: [PATCH 16/50] fix: report a released process lock as not locked

---
 zcollection/sync.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/zcollection/sync.py b/zcollection/sync.py
index 74467dc..fc48281 100644
--- a/zcollection/sync.py
+++ b/zcollection/sync.py
@@ -70,4 +70,10 @@ class ProcessSync(Sync):
 
     def is_locked(self) -> bool:
         """Returns True if the lock is acquired, False otherwise."""
-        return self.lock.exists()
+        if self.lock.acquired:
+            return True
+        # The file remains after the lock is released.
+        if self.lock.exists() and not self.lock.acquire(blocking=False):
+            return True
+        self.__exit__(None, None, None)
+        return False
-- 
2.43.0


From 2272adc8f2f7b4a87f0b458c90101509f81aee27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:58 +0000
Subject: [PATCH 17/50] fix: refuse to repair a collection opened in read-only
 mode

---
 zcollection/collection/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index cbe009b..c103ef4 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -789,6 +789,8 @@ class Collection(ReadOnlyCollection):
         Returns:
             A list of invalid partitions.
         """
+        if fix and self.is_readonly():
+            self._unsupported_operation()
         partitions = tuple(self.partitions(filters=filters))
         if not partitions:
             return []
-- 
2.43.0


From caf3caa714dd93244d15dc8de735ff601fa788d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:58 +0000
Subject: [PATCH 18/50] fix: refuse to drop the axis and handle collections
 without partitions

---
 zcollection/collection/__init__.py | 15 ++++++++-------
 zcollection/collection/abc.py      |  2 +-
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index c103ef4..228449a 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -616,16 +616,17 @@ class Collection(ReadOnlyCollection):
         if variable in self.partitioning.variables:
             raise ValueError(
                 f'The variable {variable!r} is part of the partitioning.')
+        if variable == self.axis:
+            raise ValueError(
+                f'The variable {variable!r} is the axis of the collection.')
         if variable not in self.metadata.variables:
             raise ValueError(
                 f'The variable {variable!r} does not exist in the collection.')
-        if self._immutable:
-            zds: dataset.Dataset = storage.open_zarr_group(
-                self._immutable, self.fs)
-            if variable in zds.variables:
-                raise ValueError(
-                    f'The variable {variable!r} is part of the immutable '
-                    'dataset.')
+        if self.partition_properties.dim not in self.metadata.variables[
+                variable].dimensions:
+            raise ValueError(
+                f'The variable {variable!r} is part of the immutable '
+                'dataset.')
         client: dask.distributed.Client = dask_utils.get_client()
         bag: dask.bag.core.Bag = self._bag_from_partitions(lock=True)
         storage.execute_transaction(
diff --git a/zcollection/collection/abc.py b/zcollection/collection/abc.py
index e7d5bd9..00464c8 100644
--- a/zcollection/collection/abc.py
+++ b/zcollection/collection/abc.py
@@ -674,7 +674,7 @@ class ReadOnlyCollection:
         """
         partitions: list[str] = [*self.partitions(filters=filters, **kwargs)]
         return dask.bag.core.from_sequence(seq=partitions,
-                                           npartitions=len(partitions))
+                                           npartitions=len(partitions) or 1)
 
     def iterate_on_records(
         self,
-- 
2.43.0


From a11edc43aa0997f1a57e09b6f099452db424efae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:35 +0000
Subject: [PATCH 19/50] fix: store the data types of a sequence partitioning

---
 zcollection/partitioning/sequence.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zcollection/partitioning/sequence.py b/zcollection/partitioning/sequence.py
index 194c6ea..c4c3577 100644
--- a/zcollection/partitioning/sequence.py
+++ b/zcollection/partitioning/sequence.py
@@ -124,6 +124,14 @@ class Sequence(abc.Partitioning):
                 for item, (ix, start) in zip(index, enumerate(indices[:-1])))
         # pylint: enable=arguments-differ
 
+    def get_config(self) -> dict[str, Any]:
+        """Return the configuration of the partitioning scheme.
+
+        Returns:
+            The configuration of the partitioning scheme.
+        """
+        return {**super().get_config(), 'dtype': self._dtype}
+
     def encode(
         self,
         partition: tuple[tuple[str, int], ...],
-- 
2.43.0


From 051d8337b1c7dabdf23949287e35f9a4ef9b37f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:14 +0000
Subject: [PATCH 20/50] fix: keep the configuration of a view in step with its
 variables

---
 zcollection/view/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index 2c02d22..099e55c 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -259,9 +259,9 @@ class View:
                 or variable.name in self.metadata.variables):
             raise ValueError(f'Variable {variable.name} already exists')
         client: dask.distributed.Client = dask_utils.get_client()
-        self.metadata.add_variable(variable)
         template: meta.Variable = \
             self.view_ref.metadata.search_same_dimensions_as(variable)
+        self.metadata.add_variable(variable)
 
         existing_partitions: set[str] = {
             pathlib.Path(path).relative_to(self.base_dir).as_posix()
@@ -270,6 +270,7 @@ class View:
 
         if len(existing_partitions) == 0:
             _LOGGER.info('No partitions found, skipping variable creation')
+            self._write_config()
             return
 
         args = filter(lambda item: item[0] in existing_partitions,
@@ -300,6 +301,7 @@ class View:
                                        fs=self.fs,
                                        variable=variable.name,
                                        ignore_errors=True))
+            del self.metadata.variables[variable.name]
             raise
 
         self._write_config()
-- 
2.43.0


From 92d22d4970fec20af5ac5d33959c9c2558d68a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:14 +0000
Subject: [PATCH 21/50] fix: create the variables of the partitions added to a
 view by sync

---
 zcollection/view/__init__.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index 099e55c..a229b64 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -790,7 +790,6 @@ class View:
         if filters is not None:
             self.filters = filters
             self._write_config()
-            self._init_partitions(filters)
 
         partitions = tuple(self.view_ref.partitions(relative=True))
         _LOGGER.info('%d partitions to synchronize', len(partitions))
-- 
2.43.0


From 3581c58c6544ab33205f5caedaf6a119e03d26d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:14 +0000
Subject: [PATCH 22/50] fix: synchronize a view whose reference has no
 partition

---
 zcollection/view/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index a229b64..d2a922a 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -757,7 +757,7 @@ class View:
         return len(
             tuple(
                 filter(lambda item: item is not None,
-                       unsynchronized_partition))) == 0
+                       unsynchronized_partition or ()))) == 0
 
     def sync(
         self,
@@ -809,5 +809,5 @@ class View:
             dict(self.view_ref.partitioning.parse(
                 item))  # type: ignore[arg-type] # item is filtered
             for item in filter(lambda item: item is not None,
-                               synchronized_partition))
+                               synchronized_partition or ()))
         return lambda item: item in partition_ids
-- 
2.43.0


From fc5a916909fe7976529dc6a0f63c4a4c79c58288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:14 +0000
Subject: [PATCH 23/50] fix: apply the filters, the indexer and the selection
 when loading a view

---
 zcollection/view/__init__.py |  2 +-
 zcollection/view/detail.py   | 37 ++++++++++--------------------------
 2 files changed, 11 insertions(+), 28 deletions(-)

diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index d2a922a..837d92b 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -374,7 +374,7 @@ class View:
                     self.view_ref,
                     filters,
                     indexer,
-                    partitions=self.partitions()))
+                    partitions=self.partitions(filters=filters)))
             if len(arguments) == 0:
                 return None
         else:
diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index 5fd9f55..615c861 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -182,11 +182,11 @@ def _load_one_dataset(
     if zds is None:
         return None
 
-    # If the user has not selected any variables in the reference view. In this
-    # case, the dataset is built from all the variables selected in the view.
-    if len(zds.dimensions) == 0:
-        return dataset.Dataset(
-            [
+    # Merge the variables selected in the view with those of the reference.
+    zds = dataset.Dataset(
+        [
+            *zds.variables.values(),
+            *(
                 open_zarr_array(
                     zarr.open(  # type: ignore[arg-type]
                         fs.get_mapper(join_path(base_dir, partition,
@@ -194,30 +194,13 @@ def _load_one_dataset(
                         mode='r',
                     ),
                     variable,
-                    delayed=delayed) for variable in variables
-            ],
-            attrs=zds.attrs), partition
-
-    # pylint: disable=expression-not-assigned
-    # We use the set notation to evaluate the generator.
-    {
-        zds.add_variable(  # type: ignore[func-returns-value]
-            item.metadata(),
-            item.array,
-        )
-        for item in (
-            open_zarr_array(
-                zarr.open(  # type: ignore[arg-type]
-                    fs.get_mapper(join_path(base_dir, partition, variable)),
-                    mode='r',
-                ),
-                variable,
-                delayed=delayed) for variable in variables)
-    }
-    # pylint: enable=expression-not-assigned
+                    delayed=delayed) for variable in variables)
+        ],
+        attrs=zds.attrs,
+        delayed=delayed)
 
     # Apply indexing if needed.
-    if len(slices):
+    if len(slices) and len(zds.variables):
         dim: str = view_ref.partition_properties.dim
         ds_list: list[dataset.Dataset] = [
             zds.isel({dim: indexer}) for indexer in slices
-- 
2.43.0


From 1d1c43ed9ee0890982559aef3c1d26332de1031c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:20 +0000
Subject: [PATCH 24/50] fix: forget the index entries of a partition that
 became empty

---
 zcollection/indexing/abc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zcollection/indexing/abc.py b/zcollection/indexing/abc.py
index 22ab1e1..19e26c6 100644
--- a/zcollection/indexing/abc.py
+++ b/zcollection/indexing/abc.py
@@ -273,8 +273,11 @@ class Indexer(abc.ABC):
         # List of new partitions indexed.
         partitions = []
         for partition, data in bag.compute():
+            # Memoize the updated partitions.
+            partitions.append(tuple(
+                (name, value) for name, value in partition))
             length = data.size
-            # If the current item is empty, skip it.
+            # If the current item is empty, there is nothing to add.
             if length == 0:
                 continue
             # Create a new table with the indexed data.
@@ -287,9 +290,6 @@ class Indexer(abc.ABC):
                 (name,
                  pyarrow.nulls(length, type=self._type[name]).fill_null(value))
                 for name, value in partition)
-            # Memoize the updated partitions.
-            partitions.append(tuple(
-                (name, value) for name, value in partition))
             tables.append(pyarrow.Table.from_pydict(data))
 
         # If no new data, skip the update.
-- 
2.43.0


From 8b352c5ddec0f453e17ecdc8bae740249bf2acef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:20 +0000
Subject: [PATCH 25/50] fix: keep all the rows of the index slices nested in
 another one

---
 zcollection/indexing/abc.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/zcollection/indexing/abc.py b/zcollection/indexing/abc.py
index 19e26c6..74483bb 100644
--- a/zcollection/indexing/abc.py
+++ b/zcollection/indexing/abc.py
@@ -378,20 +378,26 @@ class Indexer(abc.ABC):
         start = table[self.START].to_numpy()
         stop = table[self.STOP].to_numpy()
 
+        # The chunks corresponding to the partitioning keys
+        chunks: Any = [
+            numpy.where(numpy.roll(values, 1) != values)[0]
+            for values in data.values()
+        ]
+
+        # A slice may be nested in a previous one: keep the furthest end.
+        stop = numpy.concatenate([
+            numpy.maximum.accumulate(item) for item in numpy.split(
+                stop, numpy.unique(numpy.concatenate(chunks)))
+        ])
+
         # Calculate the indexes of each contiguous slice.
         # index = [0,     1, ...,   69,    70, ...,   134]
         # start = [817, 823, ..., 2320, 17333, ..., 19337]
         # stop  = [832, 874, ..., 2396, 17420, ..., 19389]
         # chunks = [0, 70, 134]
-        chunks: Any = [[0],
-                       numpy.where(start[1:] - stop[:-1] > 0)[0] + 1,
-                       [len(table)]]
-
-        # Adds the chunks corresponding to the partitioning keys
-        chunks += [
-            numpy.where(numpy.roll(values, 1) != values)[0]
-            for values in data.values()
-        ]
+        chunks += [[0],
+                   numpy.where(start[1:] - stop[:-1] > 0)[0] + 1,
+                   [len(table)]]
 
         # Finally, we build the list of indexes of the different chunks found.
         chunks = numpy.unique(numpy.concatenate(chunks))
-- 
2.43.0


From ca23d6cfc98428486236c007224e3c9233f90943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:20 +0000
Subject: [PATCH 26/50] fix: query the index with the invert operator and with
 strings

---
 zcollection/indexing/abc.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/zcollection/indexing/abc.py b/zcollection/indexing/abc.py
index 74483bb..e217f81 100644
--- a/zcollection/indexing/abc.py
+++ b/zcollection/indexing/abc.py
@@ -433,6 +433,10 @@ class Indexer(abc.ABC):
         logical_op = logical_op or 'and'
         if logical_op not in ('and', 'and_not', 'invert', 'or', 'xor'):
             raise ValueError(f'Invalid logical operator: {logical_op}')
+        invert: bool = logical_op == 'invert'
+        if invert:
+            # Select the rows which don't match all the columns.
+            logical_op = 'and'
         if logical_op in ('and', 'or'):
             logical_op += '_'
         function = getattr(pyarrow.compute, logical_op)
@@ -443,7 +447,9 @@ class Indexer(abc.ABC):
 
         # Transform the columns values into a list if they are not iterable.
         values = {
-            k: [v] if not isinstance(v, Iterable) else v
+            k:
+            [v] if isinstance(v, (bytes, str)) or not isinstance(v, Iterable)
+            else v
             for k, v in columns.items()
         }
 
@@ -460,6 +466,8 @@ class Indexer(abc.ABC):
                                           value, type=self._type[name]))
                 for name, value in values.items()
             ])
+            if invert:
+                mask = pyarrow.compute.invert(mask)  # type:ignore
             # pylint: disable=no-member
             table = table.filter(mask)
 
-- 
2.43.0


From 8c430cb986460e6757bd883c0f79142f33179745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:50 +0000
Subject: [PATCH 27/50] fix: compare the age of the partitions in universal
 time

---
 zcollection/collection/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 228449a..6ca5833 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -447,7 +447,7 @@ class Collection(ReadOnlyCollection):
             >>> collection.drop_partitions(
             ...     timedelta=datetime.timedelta(days=30))
         """
-        now: datetime.datetime = datetime.datetime.now()
+        now = datetime.datetime.now(tz=datetime.timezone.utc)
         client: dask.distributed.Client = dask_utils.get_client()
         folders = list(self.partitions(filters=filters, lock=True))
 
@@ -459,9 +459,9 @@ class Collection(ReadOnlyCollection):
                               timedelta: datetime.timedelta) -> bool:
             """Return whether the partition was created before the
             timedelta."""
-            created: datetime.datetime = self.fs.created(path)
-            if created.tzinfo is not None:
-                created = created.replace(tzinfo=None)
+            # A date without time zone is a local time.
+            created: datetime.datetime = self.fs.created(path).astimezone(
+                datetime.timezone.utc)
             return now - created > timedelta
 
         if timedelta is not None:
-- 
2.43.0


From 46e675859262285d256645e3babacb042f8de6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:35 +0000
Subject: [PATCH 28/50] fix: report a partition with an undecodable chunk as
 invalid

---
 zcollection/storage.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zcollection/storage.py b/zcollection/storage.py
index 2364714..5b96900 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -10,8 +10,11 @@ from __future__ import annotations
 
 from typing import Any, Iterable, Sequence
 import collections
+import gzip
 import json
 import logging
+import lzma
+import zlib
 
 import dask.array.core
 import dask.base
@@ -469,7 +472,8 @@ def check_zarr_group(
         for _, array in store.arrays():
             data: NDArray = array[...]  # type: ignore
             del data
-    except (KeyError, ValueError, TypeError, RuntimeError,
+    except (KeyError, ValueError, TypeError, RuntimeError, EOFError,
+            gzip.BadGzipFile, lzma.LZMAError, zlib.error,
             zarr.errors.MetadataError):
         return False
     return True
-- 
2.43.0


From 89b68fd967b655af2da9427b55b153a1b78fa91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:44 +0000
Subject: [PATCH 29/50] fix: hold the lock while removing the invalid
 partitions

---
 zcollection/collection/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 6ca5833..3a7bccd 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -810,7 +810,8 @@ class Collection(ReadOnlyCollection):
                 invalid_partitions.append(partition)
 
         if fix and invalid_partitions:
-            for item in invalid_partitions:
-                _LOGGER.info('Removing invalid partition: %s', item)
-                self.fs.rm(item, recursive=True)
+            with self.synchronizer:
+                for item in invalid_partitions:
+                    _LOGGER.info('Removing invalid partition: %s', item)
+                    self.fs.rm(item, recursive=True)
         return invalid_partitions
-- 
2.43.0


From 054b3c0397d02c9f5c39c20f01691a4d608670c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:14 +0000
Subject: [PATCH 30/50] fix: keep the path of a process lock sent to another
 process

---
 zcollection/sync.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zcollection/sync.py b/zcollection/sync.py
index fc48281..4999d2a 100644
--- a/zcollection/sync.py
+++ b/zcollection/sync.py
@@ -10,6 +10,7 @@ from __future__ import annotations
 
 from typing import Callable
 import abc
+import os
 import threading
 
 import fasteners
@@ -66,7 +67,8 @@ class ProcessSync(Sync):
             pass
 
     def __reduce__(self) -> tuple[Callable, tuple[str]]:
-        return (ProcessSync, (str(self.lock.path), ))
+        # The path is stored as bytes by fasteners.
+        return (ProcessSync, (os.fsdecode(self.lock.path), ))
 
     def is_locked(self) -> bool:
         """Returns True if the lock is acquired, False otherwise."""
-- 
2.43.0


From 928386e51c2a528cb20f9d0cd57c1bbfe3f7fed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:01 +0000
Subject: [PATCH 31/50] fix: never reuse the result of a previous storage task

---
 zcollection/collection/__init__.py | 26 +++++++++++++++-----------
 zcollection/dask_utils.py          |  2 +-
 zcollection/storage.py             |  1 +
 zcollection/view/__init__.py       |  1 +
 zcollection/view/detail.py         |  1 +
 5 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 3a7bccd..942d218 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -18,7 +18,6 @@ import os
 import types
 import warnings
 
-import dask.bag.core
 import dask.distributed
 import dask.utils
 import fsspec
@@ -628,10 +627,13 @@ class Collection(ReadOnlyCollection):
                 f'The variable {variable!r} is part of the immutable '
                 'dataset.')
         client: dask.distributed.Client = dask_utils.get_client()
-        bag: dask.bag.core.Bag = self._bag_from_partitions(lock=True)
         storage.execute_transaction(
             client, self.synchronizer,
-            bag.map(storage.del_zarr_array, variable, self.fs).to_delayed())
+            dask_utils.delayed_map('del_zarr_array',
+                                   storage.del_zarr_array,
+                                   self.partitions(lock=True),
+                                   name=variable,
+                                   fs=self.fs))
         del self.metadata.variables[variable]
         self._write_config()
 
@@ -684,14 +686,15 @@ class Collection(ReadOnlyCollection):
             for dim in self.metadata.chunks
         }
         try:
-            bag: dask.bag.core.Bag = self._bag_from_partitions(lock=True)
             storage.execute_transaction(
                 client, self.synchronizer,
-                bag.map(storage.add_zarr_array,
-                        variable,
-                        template.name,
-                        self.fs,
-                        chunks=chunks).to_delayed())
+                dask_utils.delayed_map('add_zarr_array',
+                                       storage.add_zarr_array,
+                                       self.partitions(lock=True),
+                                       variable=variable,
+                                       template=template.name,
+                                       fs=self.fs,
+                                       chunks=chunks))
         except Exception:
             self.drop_variable(variable.name)
             raise
@@ -752,7 +755,7 @@ class Collection(ReadOnlyCollection):
             """Function call on each worker to copy the partitions."""
             tuple(map(lambda arg: partial(*arg), args))
 
-        client.gather(client.map(worker_task, args))
+        client.gather(client.map(worker_task, args, pure=False))
         # Then the variables that are not partitioned.
         if self._immutable is not None and self.fs.exists(self._immutable):
             partial(
@@ -800,7 +803,8 @@ class Collection(ReadOnlyCollection):
             _check_partition,
             partitions,
             fs=self.fs,
-            partitioning_strategy=self.partitioning)
+            partitioning_strategy=self.partitioning,
+            pure=False)
         invalid_partitions: list[str] = []
         for item in dask.distributed.as_completed(futures):
             partition, valid = item.result()  # type: ignore
diff --git a/zcollection/dask_utils.py b/zcollection/dask_utils.py
index e3018fe..7651a48 100644
--- a/zcollection/dask_utils.py
+++ b/zcollection/dask_utils.py
@@ -106,7 +106,7 @@ def simple_delayed(name: str, func: Callable) -> dask_Delayed:
 
 
 def delayed_map(name: str, func: Callable, iterable: Iterable[Any],
-                **kwargs) -> list[dask_Delayed]:
+                /, **kwargs) -> list[dask_Delayed]:
     """Create the lazy tasks applying a function to each item of an iterable.
 
     Unlike :py:meth:`dask.distributed.Client.map`, the tasks start only when
diff --git a/zcollection/storage.py b/zcollection/storage.py
index 5b96900..98575b2 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -265,6 +265,7 @@ def write_zarr_group(
                     chunks=zds.chunks,
                     dirname=dirname,
                     fs=fs,
+                    pure=False,
                 )
                 execute_transaction(
                     client,
diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index 837d92b..b554cbf 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -391,6 +391,7 @@ class View:
             selected_variables=self.view_ref.metadata.select_variables(
                 selected_variables),
             view_ref=client.scatter(self.view_ref),
+            pure=False,
             variables=self.metadata.select_variables(selected_variables))
 
         # The load function returns the path to the partitions and the loaded
diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index 615c861..63f7430 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -263,6 +263,7 @@ def _load_datasets_list(
         selected_variables=view_ref.metadata.select_variables(
             keep_variables=selected_variables),
         view_ref=client.scatter(view_ref),
+        pure=False,
         variables=metadata.select_variables(selected_variables))
 
     return filter(lambda item: item is not None,
-- 
2.43.0


From 63828d466cf8b41498d5d0fd03768a00c073526d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:01 +0000
Subject: [PATCH 32/50] fix: hold the lock while removing an incomplete
 immutable dataset

---
 zcollection/collection/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 942d218..0822ceb 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -74,8 +74,9 @@ def _write_immutable_dataset(
                                  distributed=False)
     except Exception:
         # An incomplete dataset must be written again by the next insertion.
-        if fs.exists(path):
-            fs.rm(path, recursive=True)
+        with synchronizer:
+            if fs.exists(path):
+                fs.rm(path, recursive=True)
         raise
 
 
-- 
2.43.0


From 1a77f0ebefa6ccac31bbb79f029b3193e3deb7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:55 +0000
Subject: [PATCH 33/50] fix: delete rows of datasets with variables without the
 axis

---
 zcollection/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zcollection/dataset.py b/zcollection/dataset.py
index 5fd2dbc..2a6aac6 100644
--- a/zcollection/dataset.py
+++ b/zcollection/dataset.py
@@ -149,7 +149,7 @@ def _delete_delayed_vars(self: Dataset, indexer: slice | Sequence[int],
             var,  # type: ignore[arg-type]
             dask.array.routines.delete(var.array, indexer,
                                        var.dimensions.index(axis)))
-        for var in self.variables.values()
+        if axis in var.dimensions else var for var in self.variables.values()
     ]
 
 
@@ -160,7 +160,7 @@ def _delete_vars(self: Dataset, indexer: slice | Sequence[int],
         _duplicate_array(
             var,  # type: ignore[arg-type]
             numpy.delete(var.array, indexer, var.dimensions.index(axis)))
-        for var in self.variables.values()
+        if axis in var.dimensions else var for var in self.variables.values()
     ]
 
 
-- 
2.43.0


From 6995b6df764607bc85ca011733a5d0842f192636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:55 +0000
Subject: [PATCH 34/50] fix: refuse to concatenate variables of incompatible
 shapes

---
 zcollection/variable/abc.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/zcollection/variable/abc.py b/zcollection/variable/abc.py
index 01aa236..fa9d22a 100644
--- a/zcollection/variable/abc.py
+++ b/zcollection/variable/abc.py
@@ -77,7 +77,7 @@ def concat(
     if not all(isinstance(item, type(self)) for item in other):
         raise ValueError(f'other must be a sequence of {type(self)}')
 
-    try:
+    if dim in self.dimensions:
         axis: int = self.dimensions.index(dim)
         return new_variable(
             type(self),
@@ -90,18 +90,17 @@ def concat(
             fill_value=self.fill_value,
             filters=self.filters,
         )
-    except ValueError:
-        # If the concatenation dimension is not within the dimensions of the
-        # variable, then the original variable is returned (i.e.
-        # concatenation is not necessary).
-        return new_variable(type(self),
-                            name=self.name,
-                            array=self.array,
-                            dimensions=self.dimensions,
-                            attrs=self.attrs,
-                            compressor=self.compressor,
-                            fill_value=self.fill_value,
-                            filters=self.filters)
+    # If the concatenation dimension is not within the dimensions of the
+    # variable, then the original variable is returned (i.e.
+    # concatenation is not necessary).
+    return new_variable(type(self),
+                        name=self.name,
+                        array=self.array,
+                        dimensions=self.dimensions,
+                        attrs=self.attrs,
+                        compressor=self.compressor,
+                        fill_value=self.fill_value,
+                        filters=self.filters)
 
 
 def not_equal(first: Any, second: Any) -> bool:
-- 
2.43.0


From f067913009bce4b72be94bbaecaf45b3287f4dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:55 +0000
Subject: [PATCH 35/50] fix: persist a delayed array as an array

---
 zcollection/variable/delayed_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/variable/delayed_array.py b/zcollection/variable/delayed_array.py
index e9da492..c4745cf 100644
--- a/zcollection/variable/delayed_array.py
+++ b/zcollection/variable/delayed_array.py
@@ -238,7 +238,7 @@ class DelayedArray(Variable):
         Returns:
             The variable
         """
-        self.array = dask.base.persist(self.array, **kwargs)
+        self.array, = dask.base.persist(self.array, **kwargs)
         return self
 
     def compute(self, **kwargs) -> NDArray | NDMaskedArray:
-- 
2.43.0


From 1d4a761e5a75d8fb2d3f8a5b9e2c9cae4f13a670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:16 +0000
Subject: [PATCH 36/50] fix: refuse to add a variable whose data has another
 rank

---
 zcollection/dataset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zcollection/dataset.py b/zcollection/dataset.py
index 2a6aac6..1eb339a 100644
--- a/zcollection/dataset.py
+++ b/zcollection/dataset.py
@@ -339,6 +339,10 @@ class Dataset:
                 dtype=var.dtype) if self.delayed else numpy.full(
                     shape, var.fill_value, dtype=var.dtype)
         else:
+            if len(data.shape) != len(var.dimensions):
+                raise ValueError(
+                    f'variable {var.name} has dimensions {var.dimensions} '
+                    f'but its data has the shape {data.shape}')
             for dim, size in zip(var.dimensions, data.shape):
                 if size != self.dimensions[dim]:
                     raise ValueError(
-- 
2.43.0


From 8d18203eb966732c0def6fdf3ddec04d397f9794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:16 +0000
Subject: [PATCH 37/50] fix: leave the dataset unchanged when a merge is
 refused

---
 zcollection/dataset.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/zcollection/dataset.py b/zcollection/dataset.py
index 1eb339a..74974f2 100644
--- a/zcollection/dataset.py
+++ b/zcollection/dataset.py
@@ -703,13 +703,10 @@ class Dataset:
         if self.delayed != other.delayed:
             raise ValueError('cannot merge delayed and non-delayed data')
 
-        # Merge the variables
-        for name, var in other.variables.items():
-
-            # It's impossible to merge a variable with itself.
+        # It's impossible to merge a variable with itself.
+        for name in other.variables:
             if name in self.variables:
                 raise ValueError(f'variable {name} already exists')
-            self.variables[name] = var
 
         # If the dataset has common dimensions, they must be identical.
         same_dims: set[str] = set(self.dimensions) & set(other.dimensions)
@@ -717,6 +714,9 @@ class Dataset:
                                  for dim in same_dims):
             raise ValueError(f'dimensions {same_dims} are not identical')
 
+        # Merge the variables
+        self.variables.update(other.variables)
+
         # Merge the dimensions.
         self.dimensions.update(other.dimensions)
 
-- 
2.43.0


From 254f767d670e5441ce721ea42a913c3ba987700a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:35 +0000
Subject: [PATCH 38/50] fix: refuse to concatenate empty delayed arrays of
 incompatible shapes

---
 zcollection/variable/abc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zcollection/variable/abc.py b/zcollection/variable/abc.py
index fa9d22a..ee3a31f 100644
--- a/zcollection/variable/abc.py
+++ b/zcollection/variable/abc.py
@@ -79,6 +79,12 @@ def concat(
 
     if dim in self.dimensions:
         axis: int = self.dimensions.index(dim)
+        # Dask ignores the arrays without elements, whatever their shape.
+        for item in other:
+            if (item.shape[:axis], item.shape[axis + 1:]) != (
+                    self.shape[:axis], self.shape[axis + 1:]):
+                raise ValueError(
+                    f'variable {self.name} has conflicting dimensions')
         return new_variable(
             type(self),
             name=self.name,
-- 
2.43.0


From 78c433858b7988a361f159097f915302fd260f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:31 +0000
Subject: [PATCH 39/50] fix: create the group before writing its variables in
 parallel

---
 zcollection/storage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zcollection/storage.py b/zcollection/storage.py
index 98575b2..bc05a82 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -253,6 +253,9 @@ def write_zarr_group(
     """
     with synchronizer:
         if distributed:
+            # The group must exist before writing its variables in parallel,
+            # otherwise several tasks could try to create it together.
+            zarr.open_group(fs.get_mapper(dirname), mode='a')
             with dask.distributed.worker_client() as client:
                 iterables: list[tuple[str, Any]] = [
                     (name, client.scatter(variable))
-- 
2.43.0


From 7b8947c2a05170842c9ee12ba3e5700e71e78732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:19 +0000
Subject: [PATCH 40/50] fix: store arrays with a dimension of size zero

---
 zcollection/storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zcollection/storage.py b/zcollection/storage.py
index bc05a82..dce9e20 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -97,7 +97,8 @@ def _to_zarr(array: dask.array.core.Array, mapper: fsspec.FSMap, path: str,
         **kwargs: Additional keyword arguments to pass to the `zarr.create`
             function.
     """
-    chunks: list[tuple[int, ...]] = [chunk[0] for chunk in array.chunks]
+    # Zarr can't read an array with a chunk size of zero.
+    chunks: list[int] = [max(chunk[0], 1) for chunk in array.chunks]
     target: dask.array.core.Array = zarr.create(
         shape=array.shape,
         chunks=chunks,  # type: ignore[arg-type]
-- 
2.43.0


From c13ee5ddbc5469a4e0a93338499790d287712c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:19 +0000
Subject: [PATCH 41/50] fix: update an array without dimension

---
 zcollection/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/storage.py b/zcollection/storage.py
index dce9e20..e23d10c 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -380,7 +380,7 @@ def update_zarr_array(
                   numpy.ma.MaskedArray) and store.fill_value is not None:
         array = array.filled(store.fill_value)
 
-    store[:] = array
+    store[...] = array
 
     # Invalidate any cached directory information.
     fs.invalidate_cache(dirname)
-- 
2.43.0


From aa0545a4af63eb5794db1b3384177b9466d7a8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:34 +0000
Subject: [PATCH 42/50] fix: add an array with a dimension of size zero

---
 zcollection/storage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zcollection/storage.py b/zcollection/storage.py
index e23d10c..1ddda61 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -439,8 +439,9 @@ def add_zarr_array(
     shape: tuple[int, ...] = zarr.open(  # type: ignore[arg-type]
         fs.get_mapper(join_path(dirname, template))).shape
 
-    var_chunks: tuple[int | str, ...] = shape if chunks is None else tuple(
-        chunks.get(dim, shape[ix])  # type: ignore[misc]
+    # Zarr can't read an array with a chunk size of zero.
+    var_chunks: tuple[int | str, ...] = tuple(
+        (chunks or {}).get(dim, max(shape[ix], 1))  # type: ignore[misc]
         for ix, dim in enumerate(variable.dimensions))
 
     store: fsspec.FSMap = fs.get_mapper(join_path(dirname, variable.name))
-- 
2.43.0


From 7b1f0c9b2e3fa709fc948f34596bf4dcf3d3c3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:15 +0000
Subject: [PATCH 43/50] fix: report the failure to remove a replaced partition

---
 zcollection/merging/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zcollection/merging/__init__.py b/zcollection/merging/__init__.py
index bdc4adf..1f97628 100644
--- a/zcollection/merging/__init__.py
+++ b/zcollection/merging/__init__.py
@@ -79,7 +79,10 @@ def _rename(
         # directory to the destination directory and remove the source
         # directory. This is not efficient. So we use the shutil
         # implementation to rename the directory.
-        shutil.rmtree(dest, ignore_errors=True)
+        # If the destination is not completely removed, the source would be
+        # moved into it.
+        if fs.exists(dest):
+            shutil.rmtree(dest)
         shutil.move(source, dest)
         return
 
-- 
2.43.0


From 87f49c6e2b57550831267c7dd9c56683b7344dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:44 +0000
Subject: [PATCH 44/50] fix: parse partition names whose key starts with a
 non-word character

---
 zcollection/partitioning/abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/partitioning/abc.py b/zcollection/partitioning/abc.py
index 6f17544..d75a48d 100644
--- a/zcollection/partitioning/abc.py
+++ b/zcollection/partitioning/abc.py
@@ -265,7 +265,7 @@ class Partitioning(metaclass=abc.ABCMeta):
 
     def _regex(self) -> re.Pattern:
         """Return a regular expression that matches the partitioning scheme."""
-        return re.compile(r'\b' +
+        return re.compile(r'(?<!\w)' +
                           '.'.join(rf'({re.escape(item)})=(-?\d+)'
                                    for item in self._keys()) + '$')
 
-- 
2.43.0


From 9149b5b32cc4d8fe7e8f2f38f0728dd919ed2f4e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:27:49 +0000
Subject: [PATCH 45/50] fix: compute of a dataset whose masked chunks were
 persisted in memory

---
 zcollection/dataset.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/zcollection/dataset.py b/zcollection/dataset.py
index 74974f2..7dae076 100644
--- a/zcollection/dataset.py
+++ b/zcollection/dataset.py
@@ -597,13 +597,17 @@ class Dataset:
             *tuple(item.array for item in self.variables.values()), **kwargs)
 
         variables: list[Variable] = [
-            Array(item.name,
-                  array,
-                  item.dimensions,
-                  attrs=item.attrs,
-                  compressor=item.compressor,
-                  fill_value=item.fill_value,
-                  filters=item.filters)
+            Array(
+                item.name,
+                # The fill value of the masked arrays is lost when their
+                # chunks are concatenated.
+                array.filled(item.fill_value) if isinstance(
+                    array, numpy.ma.MaskedArray) else array,
+                item.dimensions,
+                attrs=item.attrs,
+                compressor=item.compressor,
+                fill_value=item.fill_value,
+                filters=item.filters)
             for item, array in zip(self.variables.values(), arrays)
         ]
         return Dataset(variables=variables,
-- 
2.43.0


From 57bbf6dffa95a11ec935592de23d9ae531342ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:16 +0000
Subject: [PATCH 46/50] fix: Dataset.to_zarr could not import the storage
 module

---
 zcollection/dataset.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/zcollection/dataset.py b/zcollection/dataset.py
index 7dae076..b38a6da 100644
--- a/zcollection/dataset.py
+++ b/zcollection/dataset.py
@@ -782,14 +782,26 @@ class Dataset:
         """
         if not self.delayed:
             raise ValueError('cannot write a non-delayed dataset to Zarr')
-        # pylint: disable=import-outside-toplevel, import-error
+        # pylint: disable=import-outside-toplevel
         # Avoid circular import
-        import storage
-        import sync
-
-        # pylint: enable=import-outside-toplevel, import-error
-        storage.write_zarr_group(self, path, fs or fsspec.filesystem('file'),
-                                 sync.NoSync(), parallel)
+        from . import dask_utils, storage, sync
+
+        # pylint: enable=import-outside-toplevel
+        fs = fs or fsspec.filesystem('file')
+        if parallel:
+            # The variables are written in parallel by the tasks of a worker.
+            dask_utils.get_client().submit(storage.write_zarr_group,
+                                           self,
+                                           path,
+                                           fs,
+                                           sync.NoSync(),
+                                           pure=False).result()
+        else:
+            storage.write_zarr_group(self,
+                                     path,
+                                     fs,
+                                     sync.NoSync(),
+                                     distributed=False)
 
     def __str__(self) -> str:
         return _dataset_repr(self)
-- 
2.43.0


From 464b56bb65afe657ae78f6232d06887646972369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:47 +0000
Subject: [PATCH 47/50] fix: keep the fill value when a compressed array is
 rechunked

---
 zcollection/compressed_array.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zcollection/compressed_array.py b/zcollection/compressed_array.py
index 109247b..2dfb797 100644
--- a/zcollection/compressed_array.py
+++ b/zcollection/compressed_array.py
@@ -175,12 +175,15 @@ class CompressedArray(numpy.lib.mixins.NDArrayOperatorsMixin):
         Returns:
             The rechunked array.
         """
-        return CompressedArray(
+        result = CompressedArray(
             zarr.array(self._array,
                        chunks=chunks,
                        compressor=self.compressor,
                        fill_value=self.fill_value,
                        filters=self.filters))
+        # The fill value is not restored from the zarr array.
+        result._fill_value = self._fill_value
+        return result
 
     def __array__(self, dtype=None) -> Array:
         """Return a numpy.ndarray of the array.
-- 
2.43.0


From d77fc60f7bc59305177e1552967914f81d58745a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:47 +0000
Subject: [PATCH 48/50] fix: mask each compressed operand with its own fill
 value

---
 zcollection/compressed_array.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/zcollection/compressed_array.py b/zcollection/compressed_array.py
index 2dfb797..0a041b0 100644
--- a/zcollection/compressed_array.py
+++ b/zcollection/compressed_array.py
@@ -205,11 +205,9 @@ class CompressedArray(numpy.lib.mixins.NDArrayOperatorsMixin):
     def _cast(self, obj: Any) -> Any:
         """Cast an object to a value compatible with numpy.ndarray."""
         if isinstance(obj, CompressedArray):
-            #: pylint: disable=protected-access
-            # obj is a CompressedArray, we can access its _array attribute.
-            return obj._array[...] if self._fill_value is None else \
-                numpy.ma.masked_equal(obj._array[...], self._fill_value)
-            #: pylint: enable=protected-access
+            # The missing values are those of obj: its fill value may differ
+            # from the one of this array.
+            return obj.__array__()
         if isinstance(obj, numpy.ndarray):
             return obj
         if isinstance(obj, dask.array.core.Array):
-- 
2.43.0


From 467a89abdb6fbda385c13754781199db50b268e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:48 +0000
Subject: [PATCH 49/50] fix: store the missing values of a compressed array as
 its fill value

---
 zcollection/compressed_array.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/zcollection/compressed_array.py b/zcollection/compressed_array.py
index 0a041b0..8fbd268 100644
--- a/zcollection/compressed_array.py
+++ b/zcollection/compressed_array.py
@@ -49,7 +49,7 @@ class CompressedArray(numpy.lib.mixins.NDArrayOperatorsMixin):
     ):
         self._fill_value = kwargs.get('fill_value', None)
         if isinstance(array, numpy.ndarray):
-            self._array = zarr.array(array, *args, **kwargs)
+            self._array = zarr.array(self._filled(array), *args, **kwargs)
         elif isinstance(array, zarr.Array):
             if args or kwargs:
                 raise ValueError('args or kwargs are not allowed when '
@@ -63,6 +63,14 @@ class CompressedArray(numpy.lib.mixins.NDArrayOperatorsMixin):
 
     __array_priority__ = 0
 
+    def _filled(self, values: Any) -> Any:
+        """Replace the masked values, if any, with the fill value: the mask is
+        not stored."""
+        if self._fill_value is not None and isinstance(values,
+                                                       numpy.ma.MaskedArray):
+            return values.filled(self._fill_value)
+        return values
+
     def __repr__(self) -> str:
         return f'<{self.__class__.__name__} ({self.shape}) {self.dtype}>'
 
@@ -102,7 +110,7 @@ class CompressedArray(numpy.lib.mixins.NDArrayOperatorsMixin):
             key: The key to set.
             value: The value to set.
         """
-        self._array[key] = value
+        self._array[key] = self._filled(value)
 
     @property
     def ndim(self) -> int:
-- 
2.43.0


From 2f9f6e580e63ae4e70f61af7159618261d0e656c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:48 +0000
Subject: [PATCH 50/50] fix: join compressed arrays with other arrays

---
 zcollection/compressed_array.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/zcollection/compressed_array.py b/zcollection/compressed_array.py
index 8fbd268..f7317a0 100644
--- a/zcollection/compressed_array.py
+++ b/zcollection/compressed_array.py
@@ -26,6 +26,16 @@ from .type_hints import DType, NDArray, NDMaskedArray
 Array = Union[NDArray, NDMaskedArray]
 
 
+def _decompress(obj: Any) -> Any:
+    """Replace the compressed arrays, even nested in sequences, with the arrays
+    they hold."""
+    if isinstance(obj, CompressedArray):
+        return obj.__array__()
+    if type(obj) in (list, tuple):
+        return type(obj)(_decompress(item) for item in obj)
+    return obj
+
+
 class CompressedArray(numpy.lib.mixins.NDArrayOperatorsMixin):
     """Hold a compressed array and provide a numpy.ndarray interface to it.
 
@@ -61,7 +71,9 @@ class CompressedArray(numpy.lib.mixins.NDArrayOperatorsMixin):
         else:
             raise TypeError('array must be a numpy.ndarray or a zarr.Array')
 
-    __array_priority__ = 0
+    # Greater than the priority of the masked arrays: when blocks are joined,
+    # dask must select the function handling the compressed arrays.
+    __array_priority__ = 20
 
     def _filled(self, values: Any) -> Any:
         """Replace the masked values, if any, with the fill value: the mask is
@@ -242,11 +254,11 @@ class CompressedArray(numpy.lib.mixins.NDArrayOperatorsMixin):
         Returns:
             The result of the numpy function.
         """
-        arrays: list[NDArray] = [
-            item.__array__() if isinstance(item, CompressedArray) else item
-            for item in args
-        ]
-        return func(*arrays, **kwargs)
+        # The arrays may be given in sequences, like in numpy.concatenate, or
+        # by name.
+        return func(*(_decompress(item) for item in args),
+                    **{k: _decompress(item)
+                       for k, item in kwargs.items()})
 
     def __array_ufunc__(
         self,
@@ -316,8 +328,12 @@ def dask_array_from_compressed_array(
 @dask.array.dispatch.concatenate_lookup.register(CompressedArray)
 def _concatenate_compressed_array(arrays, **kwargs) -> NDArray:
     dtype: DType | None = kwargs.get('dtype', None)
-    arr: list[NDArray] = [item.__array__(dtype=dtype) for item in arrays]
-    if any(tuple(item.fill_value is not None for item in arrays)):
+    # Some arrays may be already decompressed.
+    arr: list[NDArray] = [
+        item.__array__(dtype=dtype)
+        if isinstance(item, CompressedArray) else item for item in arrays
+    ]
+    if any(isinstance(item, numpy.ma.MaskedArray) for item in arr):
         return numpy.ma.concatenate(arr, **kwargs)
     return numpy.concatenate(arr, **kwargs)
 
-- 
2.43.0

