From 17a7605b34711d10503f8a4d13f9a411593f4f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 01/58] fix: FlatMapIterDataset replayed stale buffer after
 restoring an end-of-data state

---
 grain/_src/python/dataset/transformations/flatmap.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/flatmap.py b/grain/_src/python/dataset/transformations/flatmap.py
index 75a8ea6..7409a13 100644
--- a/grain/_src/python/dataset/transformations/flatmap.py
+++ b/grain/_src/python/dataset/transformations/flatmap.py
@@ -132,10 +132,10 @@ class _FlatMapDatasetIterator(dataset.DatasetIterator[T]):
       self._buffer = self._flat_map(element)
     except StopIteration:
       # Edge case: The iterator has run out of elements.
-      # We keep this EOF state.
-
+      # We keep this EOF state. Drop elements buffered before `set_state`, they
+      # must not be produced again.
+      self._buffer = []
       self._next_index_in_buffer = 0
-      pass
 
   def __str__(self) -> str:
     return f"FlatMapDatasetIterator(transform={self._transform_name})"
-- 
2.43.0


From e4d9113525c64acea788edc742956d591b31c2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 02/58] fix: RebatchIterDataset produced an empty batch after
 restoring at the end

---
 grain/_src/python/dataset/transformations/rebatch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/rebatch.py b/grain/_src/python/dataset/transformations/rebatch.py
index e6cfb25..4631e3f 100644
--- a/grain/_src/python/dataset/transformations/rebatch.py
+++ b/grain/_src/python/dataset/transformations/rebatch.py
@@ -145,6 +145,9 @@ class _RebatchDatasetIterator(dataset.DatasetIterator):
           raise ValueError(
               "Rebatching with starting batch size of 0 is not supported."
           )
+        if self._batch_idx >= len(self._current_batch[0]):
+          # The restored batch was fully consumed before the checkpoint.
+          continue
 
         if not to_concatenate:
           for _ in range(len(self._current_batch)):
-- 
2.43.0


From a89a5ba93bae9a423750958226a477eead2520fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 03/58] fix: raise ValueError from __next__ of every closed
 DatasetIterator

---
 grain/_src/python/dataset/transformations/cache.py               | 1 +
 grain/_src/python/dataset/transformations/flatmap.py             | 1 +
 grain/_src/python/dataset/transformations/limit.py               | 1 +
 grain/_src/python/dataset/transformations/mix.py                 | 1 +
 grain/_src/python/dataset/transformations/packing.py             | 1 +
 .../python/dataset/transformations/packing_concat_then_split.py  | 1 +
 grain/_src/python/dataset/transformations/process_prefetch.py    | 1 +
 grain/_src/python/dataset/transformations/rebatch.py             | 1 +
 grain/_src/python/dataset/transformations/repeat.py              | 1 +
 grain/_src/python/dataset/transformations/shuffle.py             | 1 +
 10 files changed, 10 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/cache.py b/grain/_src/python/dataset/transformations/cache.py
index 829dc51..82b38c3 100644
--- a/grain/_src/python/dataset/transformations/cache.py
+++ b/grain/_src/python/dataset/transformations/cache.py
@@ -60,6 +60,7 @@ class _InMemoryCacheDatasetIterator(dataset.DatasetIterator[T]):
 
   @stats.record_next_duration_if_output
   def __next__(self) -> T:
+    self._assert_not_closed()
     timer = stats.Timer()
     if self._cache_filled:
       with self._stats.record_self_time():
diff --git a/grain/_src/python/dataset/transformations/flatmap.py b/grain/_src/python/dataset/transformations/flatmap.py
index 7409a13..7b1aa4d 100644
--- a/grain/_src/python/dataset/transformations/flatmap.py
+++ b/grain/_src/python/dataset/transformations/flatmap.py
@@ -99,6 +99,7 @@ class _FlatMapDatasetIterator(dataset.DatasetIterator[T]):
       stage_category=dataset_stats.IPL_CAT_PREPROCESSING
   )
   def __next__(self):
+    self._assert_not_closed()
     timer = dataset_stats.Timer()
     while self._has_consumed_all_buffer_elements():
       # Stores the previous state so that we can checkpoint this iterator
diff --git a/grain/_src/python/dataset/transformations/limit.py b/grain/_src/python/dataset/transformations/limit.py
index a496318..1fd1c04 100644
--- a/grain/_src/python/dataset/transformations/limit.py
+++ b/grain/_src/python/dataset/transformations/limit.py
@@ -37,6 +37,7 @@ class _LimitDatasetIterator(dataset.DatasetIterator[T]):
   @stats.record_next_duration_if_output
   @stats.trace_input_pipeline_next(stage_category=stats.IPL_CAT_PREPROCESSING)
   def __next__(self):
+    self._assert_not_closed()
     if self._count_elements_read >= self._count:
       raise StopIteration
     value = next(self._parent)
diff --git a/grain/_src/python/dataset/transformations/mix.py b/grain/_src/python/dataset/transformations/mix.py
index 74cdb50..d73e261 100644
--- a/grain/_src/python/dataset/transformations/mix.py
+++ b/grain/_src/python/dataset/transformations/mix.py
@@ -209,6 +209,7 @@ class _MixedDatasetIterator(dataset.DatasetIterator[T]):
   @stats.record_next_duration_if_output
   @stats.trace_input_pipeline_next(stage_category=stats.IPL_CAT_PREPROCESSING)
   def __next__(self):
+    self._assert_not_closed()
     if self._stop:
       # Although there may be elements available in some parent datasets, do not
       # sample once stop signal is turned on.
diff --git a/grain/_src/python/dataset/transformations/packing.py b/grain/_src/python/dataset/transformations/packing.py
index 21a69b2..915194f 100644
--- a/grain/_src/python/dataset/transformations/packing.py
+++ b/grain/_src/python/dataset/transformations/packing.py
@@ -178,6 +178,7 @@ class PackingDatasetIterator(dataset.DatasetIterator):
       stage_category=dataset_stats.IPL_CAT_PREPROCESSING
   )
   def __next__(self):
+    self._assert_not_closed()
     timer = dataset_stats.Timer()
     if self._packed_batch is not None:
       # We have a packed batch, we emit one row at a time until exhausted.
diff --git a/grain/_src/python/dataset/transformations/packing_concat_then_split.py b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
index f54e2a6..95a34b6 100644
--- a/grain/_src/python/dataset/transformations/packing_concat_then_split.py
+++ b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
@@ -402,6 +402,7 @@ class _ConcatThenSplitDatasetIterator(dataset.DatasetIterator):
   @stats.record_next_duration_if_output
   @stats.trace_input_pipeline_next(stage_category=stats.IPL_CAT_PREPROCESSING)
   def __next__(self):
+    self._assert_not_closed()
     if self._packed_elements:
       self._state.elements_from_buffer_after_checkpoint += 1
       return self._stats.record_output_spec(self._packed_elements.popleft())
diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index 1bf3c8a..25a97c1 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -493,6 +493,7 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
 
   @dataset_stats.record_next_duration_if_output
   def __next__(self):
+    self._assert_not_closed()
     if self._exhausted:
       raise StopIteration
     timer = dataset_stats.Timer()
diff --git a/grain/_src/python/dataset/transformations/rebatch.py b/grain/_src/python/dataset/transformations/rebatch.py
index 4631e3f..d05b1b9 100644
--- a/grain/_src/python/dataset/transformations/rebatch.py
+++ b/grain/_src/python/dataset/transformations/rebatch.py
@@ -111,6 +111,7 @@ class _RebatchDatasetIterator(dataset.DatasetIterator):
   @stats.record_next_duration_if_output
   @stats.trace_input_pipeline_next(stage_category=stats.IPL_CAT_PREPROCESSING)
   def __next__(self):
+    self._assert_not_closed()
     timer = stats.Timer()
 
     batch_dim_needed = self._batch_size
diff --git a/grain/_src/python/dataset/transformations/repeat.py b/grain/_src/python/dataset/transformations/repeat.py
index e1d2cc5..050098b 100644
--- a/grain/_src/python/dataset/transformations/repeat.py
+++ b/grain/_src/python/dataset/transformations/repeat.py
@@ -111,6 +111,7 @@ class _RepeatDatasetIterator(dataset.DatasetIterator[T]):
 
   @stats.record_next_duration_if_output
   def __next__(self):
+    self._assert_not_closed()
     timer = stats.Timer()
     if self._epoch == self._num_epochs:
       raise StopIteration
diff --git a/grain/_src/python/dataset/transformations/shuffle.py b/grain/_src/python/dataset/transformations/shuffle.py
index 23e56c4..15b8696 100644
--- a/grain/_src/python/dataset/transformations/shuffle.py
+++ b/grain/_src/python/dataset/transformations/shuffle.py
@@ -216,6 +216,7 @@ class _WindowShuffleDatasetIterator(dataset.DatasetIterator[T]):
   @stats.record_next_duration_if_output
   @stats.trace_input_pipeline_next(stage_category=stats.IPL_CAT_PREPROCESSING)
   def __next__(self):
+    self._assert_not_closed()
     # Window is empty, fill up the next window.
     if not self._window:
       if self._parent_exhausted:
-- 
2.43.0


From 699504e902d94c3661773dbe65eaa9d9a7caea63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 04/58] fix: InterleaveIterDataset restored a stale exhausted
 marker and modified the restored state

---
 grain/_src/python/dataset/transformations/interleave.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index d1830f6..1589e2d 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -253,6 +253,7 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
 
   def set_state(self, state):
     exhausted = state["exhausted"]
+    self._exhausted_iterator_state = [None] * self._cycle_length
     for index_in_cycle, (index_in_datasets, it_state) in enumerate(
         zip(state["iterators_in_use_indices"], state["iterators_in_use_states"])
     ):
@@ -294,7 +295,8 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
     )
     self._next_index_in_cycle = state["next_index_in_cycle"]
     self._next_index_in_datasets = state["next_index_in_datasets"]
-    self._iterators_in_use_indices = state["iterators_in_use_indices"]
+    # Copy since these are updated during iteration and must not affect `state`.
+    self._iterators_in_use_indices = list(state["iterators_in_use_indices"])
     self._future_states = cast(dict[int, Any], state.get("future_states", {}))
 
   def set_shard_states(self, shard_states: Sequence[Any]) -> None:
-- 
2.43.0


From 6d1f9aa5c3bf571275b83d91a696f14fefcdc11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:33 +0000
Subject: [PATCH 05/58] fix: InterleaveIterDataset lost future shard states in
 snapshots and after a JSON round trip

---
 grain/_src/python/dataset/transformations/interleave.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index 1589e2d..400146c 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -17,7 +17,7 @@ import collections
 from collections.abc import Sequence
 import copy
 import functools
-from typing import Any, TypeVar, cast
+from typing import Any, TypeVar
 import weakref
 
 from absl import logging
@@ -204,7 +204,7 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
         "iterators_in_use_indices": self._iterators_in_use_indices.copy(),
         "iterators_in_use_states": iterators_in_use_states,
         "exhausted": exhausted,
-        "future_states": self._future_states,
+        "future_states": self._future_states.copy(),
     }
     return state
 
@@ -297,7 +297,10 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
     self._next_index_in_datasets = state["next_index_in_datasets"]
     # Copy since these are updated during iteration and must not affect `state`.
     self._iterators_in_use_indices = list(state["iterators_in_use_indices"])
-    self._future_states = cast(dict[int, Any], state.get("future_states", {}))
+    # Keys become strings if the state was serialized to JSON.
+    self._future_states = {
+        int(k): v for k, v in state.get("future_states", {}).items()
+    }
 
   def set_shard_states(self, shard_states: Sequence[Any]) -> None:
     active_states = []
-- 
2.43.0


From 389f3cf04f185cb92178733d2da5604066d3df50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:54 +0000
Subject: [PATCH 06/58] fix: InterleaveIterDataset.set_shard_states read
 exhausted shards again

---
 .../dataset/transformations/interleave.py     | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index 400146c..05f5e6f 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -141,6 +141,15 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
             continue
       with timer:
         if self._next_index_in_datasets < len(self._datasets):
+          if (
+              self._future_states.get(self._next_index_in_datasets, True)
+              is None
+          ):
+            # This shard was exhausted before elastic resizing.
+            next(self._prefetch_ds_iter).close()
+            self._future_states.pop(self._next_index_in_datasets)
+            self._next_index_in_datasets += 1
+            continue
           self._iterators_in_use[self._next_index_in_cycle] = next(
               self._prefetch_ds_iter
           )
@@ -224,7 +233,12 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
       # means the current shard has not yet started to be iterated on or have a
       # future state has been saved for it.
       if i >= next_index_in_datasets:
-        if i in self._future_states:
+        if self._future_states.get(i, True) is None:
+          shard_states[i] = {
+              "exhausted": 1,
+              "state": self._get_iterator_start_state(i),
+          }
+        elif i in self._future_states:
           shard_states[i] = {
               "exhausted": 0,
               "state": self._future_states[i],
@@ -336,6 +350,10 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
         exhausted.append(1)
         count += 1
       fill_index += 1
+    # Exhausted shards that are yet to be visited must not be read again.
+    for indx in range(next_index_in_datasets, len(shard_states)):
+      if shard_states[indx]["exhausted"]:
+        future_states[indx] = None
 
     new_state = {
         "next_index_in_cycle": 0,
-- 
2.43.0


From 382ccd8a7976de575ae8385fd719b2741070c91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 07/58] fix: InterleaveIterDataset.close left exhausted but
 kept iterators running

---
 grain/_src/python/dataset/transformations/interleave.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index 05f5e6f..d24b4bc 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -407,6 +407,9 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
     for iterator in self._iterators_in_use:
       if iterator is not None:
         iterator.close()
+    for exhausted_iterator in self._exhausted_iterators:
+      if exhausted_iterator is not None:
+        exhausted_iterator[1].close()
 
   def start_prefetch(self):
     for it in self._iterators_in_use:
-- 
2.43.0


From eda57302e7cc863c472a49fdfbe0c061ba7760fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 08/58] fix: PrefetchDatasetIterator position was off by one
 after an element failed

---
 .../dataset/transformations/prefetch.py       | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/prefetch.py b/grain/_src/python/dataset/transformations/prefetch.py
index 76449dd..17f8de2 100644
--- a/grain/_src/python/dataset/transformations/prefetch.py
+++ b/grain/_src/python/dataset/transformations/prefetch.py
@@ -261,7 +261,14 @@ class PrefetchDatasetIterator(dataset.DatasetIterator[T]):
           element = self._buffer.popleft()
           # Prefetch elements until the buffer is full again.
           self._fill_buffer()
-          element = element.result()
+          try:
+            element = element.result()
+          except BaseException:
+            # Restart prefetching from the failed element so that the position
+            # stays consistent with `get_state`.
+            self._cancel_buffered()
+            self._next_buffered_index = self._next_returned_index
+            raise
         else:
           # In case prefetch buffer size was decreased, we still want to consume
           # the already prefetched elements.
@@ -297,10 +304,13 @@ class PrefetchDatasetIterator(dataset.DatasetIterator[T]):
             f" range for dataset of length {self._dataset_length}."
         )
 
-      # Cancel all pending futures in the buffer.
-      while self._buffer:
-        future = self._buffer.popleft()
-        future.cancel()
+      self._cancel_buffered()
+
+  def _cancel_buffered(self):
+    # Cancel all pending futures in the buffer.
+    while self._buffer:
+      future = self._buffer.popleft()
+      future.cancel()
 
   def _get_next_index(self) -> int:
     return self._next_returned_index
-- 
2.43.0


From 2217e420f3a629ceda80c7022d76ea1d93435b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 09/58] fix: ProcessPrefetchIterDataset hung if the worker
 crashed with a pending set_state

---
 grain/_src/python/dataset/transformations/process_prefetch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index 25a97c1..3c07b87 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -515,6 +515,8 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
                 f"{self._prefetch_process.exitcode}. Search the logs above for "
                 "the source of the crash."
             )
+            # There is no worker left to acknowledge pending `set_state` calls.
+            break
           else:
             continue
         if isinstance(element, _SetStateIsDone):
-- 
2.43.0


From 366612f54fd2172f241d553c5d5c0748b657bf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 10/58] fix: ProcessPrefetchIterDataset hung if the worker
 failed with a pending set_state

---
 .../python/dataset/transformations/process_prefetch.py    | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index 3c07b87..079866a 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -296,7 +296,7 @@ def _put_dataset_elements_in_buffer(
     _clear_queue_and_maybe_unlink_shm(set_state_queue)
     grain_queue.add_element_to_queue(  # pytype: disable=wrong-arg-types
         (
-            None,
+            _WorkerFailed(),
             None,
             None,
             e,
@@ -314,6 +314,10 @@ class _SetStateIsDone:
   """Placeholder to indicate set_state has completed in worker process."""
 
 
+class _WorkerFailed:
+  """Placeholder to indicate that the worker stops because of an error."""
+
+
 def _close_if_alive(
     iterator_ref: weakref.ReferenceType[dataset.DatasetIterator],
 ):
@@ -521,7 +525,7 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
             continue
         if isinstance(element, _SetStateIsDone):
           self._set_state_count -= 1
-        elif self._set_state_count == 0:
+        elif self._set_state_count == 0 or isinstance(element, _WorkerFailed):
           break
         elif element is not None:
           # Unlink shared memory for the discarded element.
-- 
2.43.0


From 1e99c25abdd0845ef42c668c7aff21e12c9ec502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 11/58] fix: ElasticIterator.close did not close the underlying
 iterator

---
 grain/_src/python/dataset/elastic_iterator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/elastic_iterator.py b/grain/_src/python/dataset/elastic_iterator.py
index 5304259..c0cb2a3 100644
--- a/grain/_src/python/dataset/elastic_iterator.py
+++ b/grain/_src/python/dataset/elastic_iterator.py
@@ -477,7 +477,7 @@ class ElasticIterator(dataset.DatasetIterator):
 
   def close(self) -> None:
     """Closes the base iterator if it was created for backwards compatibility."""
-    if "_base_iterator" in self.__dict__:
+    if "base_iterator" in self.__dict__:
       self.base_iterator.close()
 
   def get_state(self) -> dict[str, Any]:
-- 
2.43.0


From a72f2b30986a33326eaee711268157063fa04caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 12/58] fix: ConcatThenSplitIterDataset lost or repeated tokens
 of features that did not need splitting

---
 .../transformations/packing_concat_then_split.py       | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/packing_concat_then_split.py b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
index 95a34b6..3416aa6 100644
--- a/grain/_src/python/dataset/transformations/packing_concat_then_split.py
+++ b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
@@ -375,17 +375,17 @@ class _ConcatThenSplitDatasetIterator(dataset.DatasetIterator):
           return element
         new_tokens_in_buffer[key] = sequence_length
       else:
+        if element.slices[key] == _EMPTY_SLICE:
+          start_index = 0
+        else:
+          start_index = element.slices[key][0]
         if sequence_length > available_tokens:
           needs_splitting = True
-          if element.slices[key] == _EMPTY_SLICE:
-            start_index = 0
-          else:
-            start_index = element.slices[key][0]
           split_points[key] = start_index + available_tokens
           new_tokens_in_buffer[key] = available_tokens
         else:
           # No splitting.
-          split_points[key] = sequence_length
+          split_points[key] = start_index + sequence_length
           new_tokens_in_buffer[key] = sequence_length
 
     if needs_splitting:
-- 
2.43.0


From 643217bb08484043f8ba6b5e983a08d38e1caf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 13/58] fix: ConcatThenSplitIterDataset lost data when restored
 from a JSON checkpoint

---
 .../dataset/transformations/packing_concat_then_split.py      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/packing_concat_then_split.py b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
index 3416aa6..8ddaca2 100644
--- a/grain/_src/python/dataset/transformations/packing_concat_then_split.py
+++ b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
@@ -526,6 +526,10 @@ class _ConcatThenSplitDatasetIterator(dataset.DatasetIterator):
 
   def set_state(self, state: dict[str, Any]):
     state = _CtsState(**state)
+    # Slices become lists if the state was serialized to JSON.
+    state.remainder_slices = {
+        k: tuple(v) for k, v in state.remainder_slices.items()
+    }
     # Clear internal state.
     self._packed_elements = collections.deque()
     self._remainder_element = None
-- 
2.43.0


From 5873494d2cb6be053d8695d4a45039a0559687ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 14/58] fix: WindowShuffleMapDataset dropped and repeated
 elements if the window does not divide the length

---
 .../_src/python/dataset/transformations/shuffle.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/shuffle.py b/grain/_src/python/dataset/transformations/shuffle.py
index 15b8696..aea0b03 100644
--- a/grain/_src/python/dataset/transformations/shuffle.py
+++ b/grain/_src/python/dataset/transformations/shuffle.py
@@ -110,15 +110,21 @@ class WindowShuffleMapDataset(dataset.MapDataset[T]):
     return "WindowShuffleMapDataset"
 
   def _shuffled_index(self, index: int) -> int:
-    window_index, index_in_window = divmod(index, self._window_size)
-    seed = self._seed + window_index
+    length = len(self._parent)
+    epoch, index_in_epoch = divmod(index, length)
+    window_index, index_in_window = divmod(index_in_epoch, self._window_size)
+    window_start = window_index * self._window_size
+    # The last window in the epoch can be smaller.
+    window_size = min(self._window_size, length - window_start)
+    windows_per_epoch = -(-length // self._window_size)
+    seed = self._seed + epoch * windows_per_epoch + window_index
     shuffled_index_in_window = index_shuffle.index_shuffle(
         index_in_window,
-        max_index=self._window_size - 1,
+        max_index=window_size - 1,
         seed=seed,
         rounds=4,
     )
-    return shuffled_index_in_window + window_index * self._window_size
+    return shuffled_index_in_window + window_start + epoch * length
 
   def __getitem__(self, index):
     if isinstance(index, slice):
-- 
2.43.0


From 8edc44f04f99d88c5ef1cc7246e00a4fd96527e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 15/58] fix: window shuffle failed for seeds close to 2**32

---
 grain/_src/python/dataset/transformations/shuffle.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/shuffle.py b/grain/_src/python/dataset/transformations/shuffle.py
index aea0b03..18cc4be 100644
--- a/grain/_src/python/dataset/transformations/shuffle.py
+++ b/grain/_src/python/dataset/transformations/shuffle.py
@@ -117,7 +117,8 @@ class WindowShuffleMapDataset(dataset.MapDataset[T]):
     # The last window in the epoch can be smaller.
     window_size = min(self._window_size, length - window_start)
     windows_per_epoch = -(-length // self._window_size)
-    seed = self._seed + epoch * windows_per_epoch + window_index
+    # index_shuffle expects 32-bit integers.
+    seed = (self._seed + epoch * windows_per_epoch + window_index) % 2**32
     shuffled_index_in_window = index_shuffle.index_shuffle(
         index_in_window,
         max_index=window_size - 1,
@@ -216,7 +217,9 @@ class _WindowShuffleDatasetIterator(dataset.DatasetIterator[T]):
       # End of the parent iterator, nothing else to process.
       self._parent_exhausted = True
     self._window = _reshuffle_window(
-        window=self._window, seed=self._global_seed + self._window_index
+        window=self._window,
+        # index_shuffle expects 32-bit integers.
+        seed=(self._global_seed + self._window_index) % 2**32,
     )
 
   @stats.record_next_duration_if_output
-- 
2.43.0


From 69fb8316676af700a20e76a4412ed49b67087ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 16/58] fix: views and copies of SharedMemoryArray were
 transferred with wrong contents

---
 grain/_src/python/ipc/shared_memory_array.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/ipc/shared_memory_array.py b/grain/_src/python/ipc/shared_memory_array.py
index 8dab940..5850273 100644
--- a/grain/_src/python/ipc/shared_memory_array.py
+++ b/grain/_src/python/ipc/shared_memory_array.py
@@ -117,7 +117,13 @@ class SharedMemoryArray(np.ndarray):
     obj._unlink_on_del = False
     return obj
 
+  def _is_view(self) -> bool:
+    """Whether this array does not own the whole shared memory block."""
+    return not isinstance(self.base, mmap.mmap)
+
   def __reduce_ex__(self, protocol):
+    if self._is_view():
+      return np.array(self, subok=False).__reduce_ex__(protocol)
     # For out-of-band pickling we don't need a PickleBuffer because the
     # `SharedMemory` class automatically pickles itself using only its name
     return self.from_shared_memory, (self.shm, self.shape, self.dtype)
@@ -189,7 +195,7 @@ class SharedMemoryArray(np.ndarray):
 
 def _copy_leaf_to_shm(leaf: Any, min_size: int = 0) -> Any:
   """Copies `leaf` to shared memory if it's a big enough numpy array."""
-  if isinstance(leaf, SharedMemoryArray):
+  if isinstance(leaf, SharedMemoryArray) and not leaf._is_view():  # pylint: disable=protected-access
     return leaf.metadata
   if (
       not isinstance(leaf, np.ndarray)
-- 
2.43.0


From a3c1a360fea423d36e657fc1344889a793d4a5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 17/58] fix: mp_prefetch switched the dataset of the caller to
 shared memory output

---
 grain/_src/python/dataset/transformations/process_prefetch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index 079866a..9c24c7a 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -16,6 +16,7 @@
 from __future__ import annotations
 
 from collections.abc import Callable, Sequence
+import copy
 import functools
 from multiprocessing import queues
 from multiprocessing import sharedctypes
@@ -718,6 +719,8 @@ def multiprocess_prefetch(
     else:
       # Enable SharedMemoryArray outputs if the transform supports it.
       if isinstance(ds, base.SupportsSharedMemoryOutput):
+        # Do not modify the dataset of the caller.
+        ds = copy.copy(ds)
         ds.enable_shared_memory_output()
 
       worker_ds = _LazyWorkerSliceIterDataset(
-- 
2.43.0


From 8136b48db2993135c899d01034c7cb3d8c3dfb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:12 +0000
Subject: [PATCH 18/58] fix: mp_prefetch produced initial states incompatible
 with the sliced dataset of the worker

---
 .../python/dataset/transformations/process_prefetch.py    | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index 9c24c7a..1b87cee 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -669,7 +669,13 @@ class _LazyWorkerSliceIterDataset(dataset.IterDataset[T]):
 
   def __iter__(self) -> dataset.DatasetIterator[T]:
     if not _is_in_worker_process:
-      return self._parent.__iter__()
+      # The state must be compatible with the state of the worker iterator.
+      # Slice a copy, the parent is shared by all workers.
+      parent = copy.deepcopy(self._parent)
+      prefetch._set_slice_iter_dataset(
+          parent, self._slice, self._sequential_slice
+      )
+      return parent.__iter__()
     prefetch._set_slice_iter_dataset(
         self._parent, self._slice, self._sequential_slice
     )
-- 
2.43.0


From 545759870a9941edf78bac6cb639350d6dbdfb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 19/58] fix: InterleaveIterDataset raised IndexError without
 datasets, e.g. with more workers than shards

---
 grain/_src/python/dataset/transformations/interleave.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index d24b4bc..af3eca1 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -97,6 +97,8 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
   @stats.trace_input_pipeline_next(stage_category=stats.IPL_CAT_PREPROCESSING)
   def __next__(self) -> T:
     self._assert_not_closed()
+    if not self._cycle_length:
+      raise StopIteration
     self._started = True
     timer = stats.Timer()
     _ = self._stats  # eagerly initialize stats
-- 
2.43.0


From 530f60d4ac2dedef2200df212a9d709b07b10a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:07 +0000
Subject: [PATCH 20/58] fix: growing a shrunk VariableSizeMultiprocessingQueue
 exceeded its maximum size

---
 grain/_src/python/ipc/variable_size_queue.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/ipc/variable_size_queue.py b/grain/_src/python/ipc/variable_size_queue.py
index 1bfa7ae..dc356c5 100644
--- a/grain/_src/python/ipc/variable_size_queue.py
+++ b/grain/_src/python/ipc/variable_size_queue.py
@@ -67,7 +67,10 @@ class VariableSizeMultiprocessingQueue(queues.Queue):
     with self._resize_lock:
       delta = max_size - self._max_size_val.value
       if delta > 0:
-        for _ in range(delta):
+        # Growing first takes back the capacity that is yet to be removed.
+        cancelled = min(delta, self._pending_shrink.value)
+        self._pending_shrink.value -= cancelled
+        for _ in range(delta - cancelled):
           self._sem.release()
         self._max_size_val.value = max_size
       elif delta < 0:
-- 
2.43.0


From 4302d1d7477f7b37490a195fcfd649a27fa40ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 21/58] fix: FlatMapIterDataset repeated elements after the
 user function failed

---
 grain/_src/python/dataset/transformations/flatmap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/grain/_src/python/dataset/transformations/flatmap.py b/grain/_src/python/dataset/transformations/flatmap.py
index 7b1aa4d..7baaa06 100644
--- a/grain/_src/python/dataset/transformations/flatmap.py
+++ b/grain/_src/python/dataset/transformations/flatmap.py
@@ -110,6 +110,7 @@ class _FlatMapDatasetIterator(dataset.DatasetIterator[T]):
 
       with timer:
         self._next_index_in_buffer = 0
+        self._buffer = []  # Do not replay the old buffer if `flat_map` fails.
         self._buffer = self._flat_map(element)
 
     with self._stats.record_self_time(offset_ns=timer.value()):
-- 
2.43.0


From dd0c7b878f7ed370fa7cba5054df23bc47380882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 22/58] fix: next index of an exhausted
 InterleaveDatasetIterator could not be read or set

---
 .../dataset/transformations/interleave.py       | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index af3eca1..02b7609 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -371,7 +371,17 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
     if len(self._datasets) == 1:
       it = self._iterators_in_use[0]
       if it is None:
-        return 0
+        if self._exhausted_iterator_state[0] is None:
+          return 0
+        it = _add_prefetch_and_make_iterator(
+            self._datasets[0],
+            interleave_iterator=weakref.ref(self),
+            start_prefetch=False,
+            starting_state=self._exhausted_iterator_state[0],
+        )
+        next_index = dataset.get_next_index(it)
+        it.close()
+        return next_index
       return dataset.get_next_index(it)
     raise NotImplementedError(
         "get_next_index is not supported for InterleaveDatasetIterator with"
@@ -381,7 +391,10 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
   def _set_next_index(self, index: int) -> None:
     if len(self._datasets) == 1:
       # Ensure iterator is created by calling get_state.
-      _ = self.get_state()
+      state = self.get_state()
+      if self._iterators_in_use[0] is None:
+        # The iterator was exhausted and needs to be opened again.
+        self.set_state({**state, "exhausted": [0]})
       it = self._iterators_in_use[0]
       assert it is not None
       dataset.set_next_index(it, index)
-- 
2.43.0


From 7afcaef6e10703928137e6904c50a67be16cb34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 23/58] fix: next index of the batch iterator counted the
 dropped remainder

---
 grain/_src/python/dataset/transformations/batch.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/batch.py b/grain/_src/python/dataset/transformations/batch.py
index 93169fc..cda48a6 100644
--- a/grain/_src/python/dataset/transformations/batch.py
+++ b/grain/_src/python/dataset/transformations/batch.py
@@ -318,9 +318,11 @@ class _BatchDatasetIterator(dataset.DatasetIterator[T]):
     self._parent.set_state(state)
 
   def _get_next_index(self) -> int:
-    return (
-        dataset.get_next_index(self._parent) + self._batch_size - 1
-    ) // self._batch_size
+    parent_index = dataset.get_next_index(self._parent)
+    if self._drop_remainder:
+      # The dropped remainder does not count as a batch.
+      return parent_index // self._batch_size
+    return (parent_index + self._batch_size - 1) // self._batch_size
 
   def _set_next_index(self, index: int) -> None:
     dataset.set_next_index(self._parent, index * self._batch_size)
-- 
2.43.0


From b770da49a645a50b203dac5b7714bae37afd630e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:53 +0000
Subject: [PATCH 24/58] fix: garbage collection of an iterator with a prefetch
 thread could deadlock

---
 grain/_src/python/dataset/dataset.py           | 18 +++++++++++++++++-
 .../python/dataset/transformations/prefetch.py |  6 ++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/dataset.py b/grain/_src/python/dataset/dataset.py
index 21de5b8..3f96116 100644
--- a/grain/_src/python/dataset/dataset.py
+++ b/grain/_src/python/dataset/dataset.py
@@ -51,6 +51,7 @@ from collections.abc import Awaitable, Callable, Iterable, Iterator, Mapping, Se
 import functools
 import json
 import sys
+import threading
 from typing import Any, Generic, TypeVar, Union, cast, overload
 import warnings
 
@@ -1417,6 +1418,9 @@ class DatasetIterator(Iterator[T], abc.ABC):
   # the transformation itself, only used for information purposes in statistics.
   _MUTATES_ELEMENT_SPEC = True
 
+  # Marks the threads in which iterators are being garbage collected.
+  _finalizer_context = threading.local()
+
   def __init__(
       self,
       parents: DatasetIterator | Sequence[DatasetIterator] = (),
@@ -1637,7 +1641,19 @@ class DatasetIterator(Iterator[T], abc.ABC):
   # pylint: enable=protected-access
 
   def __del__(self):
-    self.close()
+    # The garbage collector runs this in an arbitrary thread that may hold locks
+    # needed by other threads, so nothing here may wait for another thread.
+    outermost = not self._in_finalizer()
+    self._finalizer_context.active = True
+    try:
+      self.close()
+    finally:
+      if outermost:
+        self._finalizer_context.active = False
+
+  def _in_finalizer(self) -> bool:
+    """Whether the current thread is garbage collecting an iterator."""
+    return getattr(self._finalizer_context, "active", False)
 
 
 class _WithSeedMapDataset(MapDataset[T]):
diff --git a/grain/_src/python/dataset/transformations/prefetch.py b/grain/_src/python/dataset/transformations/prefetch.py
index 17f8de2..e577247 100644
--- a/grain/_src/python/dataset/transformations/prefetch.py
+++ b/grain/_src/python/dataset/transformations/prefetch.py
@@ -667,6 +667,12 @@ class ThreadPrefetchDatasetIterator(dataset.DatasetIterator[T]):
   def close(self):
     """Stops the iterator. No further calls to the iterator are expected."""
     self._closed = True
+    if self._prefetch_thread is not None and self._in_finalizer():
+      # Waiting for the thread could deadlock. Once it stops, it drops the last
+      # reference to the parent iterator, which closes the latter.
+      self._prefetch_should_stop.set()
+      self._clear_buffer()
+      return
     self._stop_prefetch()
     if isinstance(self._maybe_nonnative_parent, dataset.DatasetIterator):
       self._maybe_nonnative_parent.close()
-- 
2.43.0


From aa9781096a0277a4539346cbe0171fb31fc174cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:10 +0000
Subject: [PATCH 25/58] fix: PrefetchDatasetIterator lost an element if a
 buffered read failed after the buffer was disabled

---
 grain/_src/python/dataset/transformations/prefetch.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/transformations/prefetch.py b/grain/_src/python/dataset/transformations/prefetch.py
index e577247..b60a5e4 100644
--- a/grain/_src/python/dataset/transformations/prefetch.py
+++ b/grain/_src/python/dataset/transformations/prefetch.py
@@ -273,7 +273,13 @@ class PrefetchDatasetIterator(dataset.DatasetIterator[T]):
           # In case prefetch buffer size was decreased, we still want to consume
           # the already prefetched elements.
           if self._buffer:
-            element = self._buffer.popleft().result()
+            element = self._buffer.popleft()
+            try:
+              element = element.result()
+            except BaseException:
+              self._cancel_buffered()
+              self._next_buffered_index = self._next_returned_index
+              raise
           else:
             element = self._stats.record_bytes_consumed(
                 self._map_parent[self._next_returned_index]
-- 
2.43.0


From 87c6572d47d59bc5a0b4918042a5dc929780211f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:25 +0000
Subject: [PATCH 26/58] fix: BOS handling of concat-then-split overwrote
 padding or failed for empty sequences

---
 .../python/dataset/transformations/packing_concat_then_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/transformations/packing_concat_then_split.py b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
index 8ddaca2..04d4f64 100644
--- a/grain/_src/python/dataset/transformations/packing_concat_then_split.py
+++ b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
@@ -313,7 +313,7 @@ class _ConcatThenSplitDatasetIterator(dataset.DatasetIterator):
               " ConcatThenSplitPackDatasetIterator."
           )
         values[start:end] = sequence
-        if replace_with_bos:
+        if replace_with_bos and sequence_length > 0:
           values[start] = self._config.bos_token_id
         if not is_meta_feature:
           assert segment_ids is not None
-- 
2.43.0


From ab8363f4d55a328c098ad7da88ee324dc971195e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:37 +0000
Subject: [PATCH 27/58] fix: ProcessPrefetchIterDataset hung if the state was
 set several times before the worker started

---
 .../_src/python/dataset/transformations/process_prefetch.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index 1b87cee..6e57b6b 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -365,8 +365,10 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
     self._set_state_request_count: sharedctypes.Synchronized[int] = (
         self._process_ctx.Value("i", 0)
     )
-    self._set_state_queue: queues.Queue[StateT | int] = self._process_ctx.Queue(
-        5
+    # Not bounded: requests that are not flushed yet cannot be removed again, and
+    # nobody reads the queue before the worker has been started.
+    self._set_state_queue: queues.Queue[StateT | int] = (
+        self._process_ctx.Queue()
     )
     self._buffer: queues.Queue[
         tuple[
-- 
2.43.0


From 02b293405a4ab72acbd46c2226a71bb493412ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:13 +0000
Subject: [PATCH 28/58] fix: workers sliced a dataset that is used twice in the
 pipeline more than once

---
 .../dataset/transformations/prefetch.py       | 22 +++++++++++++++----
 .../python/dataset/transformations/source.py  |  9 +++++++-
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/prefetch.py b/grain/_src/python/dataset/transformations/prefetch.py
index b60a5e4..86e9a5d 100644
--- a/grain/_src/python/dataset/transformations/prefetch.py
+++ b/grain/_src/python/dataset/transformations/prefetch.py
@@ -411,6 +411,7 @@ def _set_slice_iter_dataset(
     ds: dataset.IterDataset,
     sl: slice,
     sequential_slice: bool = False,
+    visited: set[int] | None = None,
 ) -> None:
   """Sets data slice for the given dataset.IterDataset in place.
 
@@ -422,7 +423,13 @@ def _set_slice_iter_dataset(
    ds: dataset.IterDataset to apply slice to.
    sl: slice to apply.
    sequential_slice: whether to apply sequential slicing.
+   visited: ids of the datasets that are sliced already. A dataset can be used
+     in several places of the pipeline, but must be sliced only once.
   """
+  visited = set() if visited is None else visited
+  if id(ds) in visited:
+    return
+  visited.add(id(ds))
   if isinstance(ds, SupportsInPlaceSlicing):
     ds.set_slice(sl, sequential_slice)
     return
@@ -430,15 +437,16 @@ def _set_slice_iter_dataset(
     raise ValueError(f"Cannot slice `IterDataset` source. {type(ds)}")
   for parent in ds.parents:
     if isinstance(parent, dataset.MapDataset):
-      _set_slice_map_dataset(parent, sl, sequential_slice)
+      _set_slice_map_dataset(parent, sl, sequential_slice, visited)
     else:
-      _set_slice_iter_dataset(parent, sl, sequential_slice)
+      _set_slice_iter_dataset(parent, sl, sequential_slice, visited)
 
 
 def _set_slice_map_dataset(
     ds: dataset.MapDataset,
     sl: slice,
     sequential_slice: bool = False,
+    visited: set[int] | None = None,
 ) -> None:
   """Sets data slice for the given dataset.MapDataset in place.
 
@@ -450,7 +458,13 @@ def _set_slice_map_dataset(
    ds: dataset.MapDataset to apply slice to.
    sl: slice to apply.
    sequential_slice: whether to apply sequential slicing.
+   visited: ids of the datasets that are sliced already. A dataset can be used
+     in several places of the pipeline, but must be sliced only once.
   """
+  visited = set() if visited is None else visited
+  if id(ds) in visited:
+    return
+  visited.add(id(ds))
   if isinstance(ds, SupportsInPlaceSlicing):
     ds.set_slice(sl, sequential_slice)
     return
@@ -458,9 +472,9 @@ def _set_slice_map_dataset(
     raise ValueError(f"Cannot slice `MapDataset` source. {type(ds)}")
   for parent in ds.parents:
     if isinstance(parent, dataset.MapDataset):
-      _set_slice_map_dataset(parent, sl, sequential_slice)
+      _set_slice_map_dataset(parent, sl, sequential_slice, visited)
     else:
-      _set_slice_iter_dataset(parent, sl, sequential_slice)
+      _set_slice_iter_dataset(parent, sl, sequential_slice, visited)
 
 
 def get_dataset_options(ds: dataset.IterDataset) -> base.DatasetOptions:
diff --git a/grain/_src/python/dataset/transformations/source.py b/grain/_src/python/dataset/transformations/source.py
index 9cec968..46acfff 100644
--- a/grain/_src/python/dataset/transformations/source.py
+++ b/grain/_src/python/dataset/transformations/source.py
@@ -127,7 +127,14 @@ class SourceMapDataset(dataset.MapDataset):
         shard_count=workers_count,
         drop_remainder=False,
     )
-    shard_start, shard_end = sharding.even_split(self.__len__(), shard_options)
+    # The source can be sliced already, e.g. through another branch of the
+    # pipeline that contains this dataset.
+    original_len = len(
+        self._original_source_map_dataset
+        if self._original_source_map_dataset
+        else self
+    )
+    shard_start, shard_end = sharding.even_split(original_len, shard_options)
     return slice(shard_start, shard_end)
 
   def set_slice(self, sl: slice, sequential_slice: bool = False) -> None:
-- 
2.43.0


From f634bbd971184f8ab8671e10a4996583349bb046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:12 +0000
Subject: [PATCH 29/58] fix: index_shuffle was no permutation if max_index is
 an even power of two from 2**16 on

---
 grain/_src/python/experimental/index_shuffle/index_shuffle.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/experimental/index_shuffle/index_shuffle.cc b/grain/_src/python/experimental/index_shuffle/index_shuffle.cc
index b031fe7..857258f 100644
--- a/grain/_src/python/experimental/index_shuffle/index_shuffle.cc
+++ b/grain/_src/python/experimental/index_shuffle/index_shuffle.cc
@@ -35,7 +35,6 @@ limitations under the License.
 
 #include <algorithm>
 #include <bitset>
-#include <cmath>
 #include <cstdint>
 #include <random>
 #include <vector>
@@ -115,7 +114,8 @@ uint64_t index_shuffle(const uint64_t index, const uint64_t max_index,
   // Block size must be large enough to represent max_index and even (since
   // word size is half of it). We force at least 16 bits as minimum block size
   // since we observed pattern in the permutations below.
-  int block_size = static_cast<int>(std::ceil(std::log2(max_index)));
+  int block_size = 0;
+  while (block_size < 64 && (max_index >> block_size) != 0) ++block_size;
   block_size = std::max(block_size + block_size % 2, kMinBlockSize);
   assert(block_size > 0 && block_size % 2 == 0 && block_size <= 64);
   // rounds should be in [4, 1024] and number of rounds must be even.
-- 
2.43.0


From affca5d26fe41479c626a4e227b816989318a6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:25 +0000
Subject: [PATCH 30/58] fix: best-fit packing exceeded max_sequences_per_bin
 with empty sequences

---
 .../dataset/transformations/packing_packed_batch.py       | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/packing_packed_batch.py b/grain/_src/python/dataset/transformations/packing_packed_batch.py
index 56f8ae1..bc10967 100644
--- a/grain/_src/python/dataset/transformations/packing_packed_batch.py
+++ b/grain/_src/python/dataset/transformations/packing_packed_batch.py
@@ -419,13 +419,15 @@ class BestFitPackedBatch(PackedBatch[_T]):
     new_free_cells = free_cells_matrix + element_lengths[:, np.newaxis]
 
     if self._max_sequences_per_bin is not None:
-      # Invalidate bins that have reached the max sequence limit. Adding the
-      # capacity ensures they fail the subsequent length check.
+      # Invalidate bins that have reached the max sequence limit. Adding more
+      # than the capacity ensures they fail the subsequent length check, even if
+      # the bin has no used cells.
       max_sequence_mask = np.where(
           self._num_examples_per_row < self._max_sequences_per_bin, 0, 1
       )
       new_free_cells = (
-          new_free_cells + max_sequence_mask * self._capacities[:, np.newaxis]
+          new_free_cells
+          + max_sequence_mask * (self._capacities[:, np.newaxis] + 1)
       )
     fittable_mask = np.all(
         new_free_cells <= self._capacities[:, np.newaxis], axis=0
-- 
2.43.0


From a344eb89631c79f55c52d3faf3de486fea69f9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:25 +0000
Subject: [PATCH 31/58] fix: concat-then-split packing repeated scalar features
 of split elements

---
 .../dataset/transformations/packing_concat_then_split.py      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/transformations/packing_concat_then_split.py b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
index 04d4f64..4689d05 100644
--- a/grain/_src/python/dataset/transformations/packing_concat_then_split.py
+++ b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
@@ -182,10 +182,12 @@ class _CtsElement:
 
   def get_sliced_features(self, key: str) -> Mapping[str, Any]:
     feature = self.features[key]
-    if np.ndim(feature) != 0 and key in self.slices:
+    if key in self.slices:
       sl = self.slices[key]
       if sl != _EMPTY_SLICE:
         start, stop = self.slices[key]
+        if np.ndim(feature) == 0:
+          feature = np.atleast_1d(feature)
         return feature[start:stop]
     return feature
 
-- 
2.43.0


From 6256a768160c11e8f4ea80a583eb7f249a2c8487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:13 +0000
Subject: [PATCH 32/58] fix: do not start a prefetch thread when thread
 prefetching is disabled

---
 grain/_src/python/dataset/transformations/prefetch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/prefetch.py b/grain/_src/python/dataset/transformations/prefetch.py
index 86e9a5d..08944c4 100644
--- a/grain/_src/python/dataset/transformations/prefetch.py
+++ b/grain/_src/python/dataset/transformations/prefetch.py
@@ -634,6 +634,10 @@ class ThreadPrefetchDatasetIterator(dataset.DatasetIterator[T]):
     """
     if self._closed:
       raise ValueError("Attempting to use a closed iterator.")
+    if self._target_prefetch_buffer_size == 0:
+      # `__next__` reads from the parent directly.
+      super().start_prefetch()
+      return
     if self._prefetch_thread is not None:
       return
 
-- 
2.43.0


From 876b57a7caa680cb4a61cc97a144627d89e8ecaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:33 +0000
Subject: [PATCH 33/58] fix: report workers that exit with code 0 instead of
 waiting forever

---
 .../dataset/transformations/process_prefetch.py       | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index 6e57b6b..258d537 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -492,11 +492,10 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
       except Exception as e:  # pylint: disable=broad-except
         logging.warning("Failed to register subprocess: %s", str(e))
 
-  def _process_failed(self) -> bool:
+  def _process_exited(self) -> bool:
     if self._prefetch_process is None:
       return False
-    exit_code = self._prefetch_process.exitcode
-    return exit_code is not None and exit_code != 0
+    return self._prefetch_process.exitcode is not None
 
   @dataset_stats.record_next_duration_if_output
   def __next__(self):
@@ -507,6 +506,7 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
     with timer:
       err_traceback = None
       self.start_prefetch()
+      process_exited = False
       # Loop until we get a non-stale element.
       while True:
         try:
@@ -515,7 +515,7 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
           )
         except queue.Empty:
           assert self._prefetch_process is not None
-          if self._process_failed():
+          if process_exited:
             element, state, next_index = None, None, None
             err = RuntimeError(
                 "Worker process was terminated unexpectedly with exit code "
@@ -525,6 +525,9 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
             # There is no worker left to acknowledge pending `set_state` calls.
             break
           else:
+            # The worker never exits on its own while it is in use. Look once
+            # more for what it may have produced before it exited.
+            process_exited = self._process_exited()
             continue
         if isinstance(element, _SetStateIsDone):
           self._set_state_count -= 1
-- 
2.43.0


From 68ab734da391d5f47bd1d5a4cb00ad07edbd109b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:45 +0000
Subject: [PATCH 34/58] fix: create new queues after the worker process has
 been stopped

---
 .../transformations/process_prefetch.py       | 40 +++++++++++--------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index 258d537..2678cca 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -361,6 +361,26 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
     self._process_ctx = mp.get_context("spawn")
     self._state: StateT | None = None
     self._prefetch_process: Any | None = None
+    self._create_queues()
+    self._stats_in_queue = self._process_ctx.Queue(maxsize=5)
+    self._start_profiling_event = self._process_ctx.Event()
+    self._stop_profiling_event = self._process_ctx.Event()
+    self._set_state_count = 0
+    self._exhausted = False
+    self._prefetch_ds_iter = None
+    self._next_index: int | None = 0
+    # Ensure that the iterator is closed before the multiprocessing module
+    # attempts to terminate the worker processes to prevent process hanging
+    # issues.
+    util.Finalize(
+        self,
+        _close_if_alive,
+        args=(weakref.ref(self),),
+        exitpriority=1,
+    )
+
+  def _create_queues(self) -> None:
+    """Creates what the main and the worker process communicate through."""
     self._prefetch_should_stop: synchronize.Event = self._process_ctx.Event()
     self._set_state_request_count: sharedctypes.Synchronized[int] = (
         self._process_ctx.Value("i", 0)
@@ -379,22 +399,6 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
             traceback_util.PicklableTraceback | None,
         ]
     ] = self._process_ctx.Queue(maxsize=self._buffer_size)
-    self._stats_in_queue = self._process_ctx.Queue(maxsize=5)
-    self._start_profiling_event = self._process_ctx.Event()
-    self._stop_profiling_event = self._process_ctx.Event()
-    self._set_state_count = 0
-    self._exhausted = False
-    self._prefetch_ds_iter = None
-    self._next_index: int | None = 0
-    # Ensure that the iterator is closed before the multiprocessing module
-    # attempts to terminate the worker processes to prevent process hanging
-    # issues.
-    util.Finalize(
-        self,
-        _close_if_alive,
-        args=(weakref.ref(self),),
-        exitpriority=1,
-    )
 
   @property
   def buffer_size(self) -> int:
@@ -590,6 +594,10 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
     else:
       _clear_queue_and_maybe_unlink_shm(self._buffer)
     self._prefetch_process = None
+    if not self._closed:
+      # A worker that died can have left the queues locked, and requests that
+      # were not flushed yet could not be removed.
+      self._create_queues()
     self._set_state_count = 0
 
   def get_state(self) -> StateT:
-- 
2.43.0


From dbe0ec58ed737ba064461893e338d9e16e570bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:15 +0000
Subject: [PATCH 35/58] fix: shards of ElasticIterator stop at the same step if
 the data is not a multiple of the global batch

---
 grain/_src/python/dataset/elastic_iterator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/grain/_src/python/dataset/elastic_iterator.py b/grain/_src/python/dataset/elastic_iterator.py
index c0cb2a3..562ef78 100644
--- a/grain/_src/python/dataset/elastic_iterator.py
+++ b/grain/_src/python/dataset/elastic_iterator.py
@@ -329,6 +329,10 @@ class _ElasticMapDatasetIterator(dataset.DatasetIterator):
           f" shard count {self._shard_options.shard_count}."
       )
     ds = ds.batch(host_batch_size, drop_remainder=True)
+    # All shards must stop after the last complete global batch. Some of them can
+    # have a batch more because the remaining elements are not split evenly.
+    num_remaining = max(0, len(self._ds) - self._global_next_index)
+    ds = ds[: num_remaining // self._global_batch_size]
     ds = ds.to_iter_dataset(read_options=self._read_options)
     if self._multiprocessing_options is not None:
       ds = ds.mp_prefetch(self._multiprocessing_options)
-- 
2.43.0


From db513edd6f7c8d7c49b85dc13e2314fc3c024e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:53 +0000
Subject: [PATCH 36/58] fix: VariableSizeMultiprocessingQueue.qsize was wrong
 (even negative) after resizing

---
 grain/_src/python/ipc/variable_size_queue.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/grain/_src/python/ipc/variable_size_queue.py b/grain/_src/python/ipc/variable_size_queue.py
index dc356c5..9291a40 100644
--- a/grain/_src/python/ipc/variable_size_queue.py
+++ b/grain/_src/python/ipc/variable_size_queue.py
@@ -83,6 +83,13 @@ class VariableSizeMultiprocessingQueue(queues.Queue):
           else:
             break
 
+  def qsize(self) -> int:
+    """Returns the approximate number of items, like `Queue.qsize`."""
+    with self._resize_lock:
+      # `_maxsize` of the base class is not updated when the queue is resized.
+      capacity = self._max_size_val.value + self._pending_shrink.value
+      return capacity - self._sem._semlock._get_value()  # pylint: disable=protected-access  # pytype: disable=attribute-error
+
   def get(self, block: bool = True, timeout: float | None = None):
     """Gets an item from the queue, similar to `queue.Queue.get`."""
     # pytype: disable=attribute-error
-- 
2.43.0


From b00e54ed759b90168b1cdb0c066954c7b22da159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:53 +0000
Subject: [PATCH 37/58] fix: VariableSizeQueue.full was always False

---
 grain/_src/python/ipc/variable_size_queue.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/grain/_src/python/ipc/variable_size_queue.py b/grain/_src/python/ipc/variable_size_queue.py
index 9291a40..f95e25a 100644
--- a/grain/_src/python/ipc/variable_size_queue.py
+++ b/grain/_src/python/ipc/variable_size_queue.py
@@ -135,6 +135,12 @@ class VariableSizeQueue(queue.Queue):
       self._max_size = max_size
       self._cond.notify_all()
 
+  def full(self) -> bool:
+    """Returns True if the queue is full, similar to `queue.Queue.full`."""
+    # `maxsize` of the base class does not limit this queue.
+    with self._cond:
+      return self.qsize() >= self._max_size
+
   def put(self, item, block: bool = True, timeout: float | None = None):
     """Puts an item into the queue, similar to `queue.Queue.put`.
 
-- 
2.43.0


From 3f1bdcff0e4f59a0d21716922bbb1ec323faaa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:36 +0000
Subject: [PATCH 38/58] fix: batches without contents (zero-size arrays) failed
 in worker processes

---
 grain/_src/python/ipc/shared_memory_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/ipc/shared_memory_array.py b/grain/_src/python/ipc/shared_memory_array.py
index 5850273..8a97bbe 100644
--- a/grain/_src/python/ipc/shared_memory_array.py
+++ b/grain/_src/python/ipc/shared_memory_array.py
@@ -71,7 +71,8 @@ class SharedMemoryArray(np.ndarray):
   ):
     # See https://numpy.org/doc/stable/user/basics.subclassing.html
     size = math.prod(shape) * np.dtype(dtype).itemsize
-    shm = shared_memory.SharedMemory(create=True, size=size)
+    # Shared memory blocks cannot be empty.
+    shm = shared_memory.SharedMemory(create=True, size=max(size, 1))
     return cls.from_shared_memory(shm, shape, dtype)
 
   def __array_finalize__(self, obj):
-- 
2.43.0


From 98e043f39fd7fb29a1425364aaf55790d526cda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:25 +0000
Subject: [PATCH 39/58] fix: batches made in worker processes or in parallel
 truncated elements of a larger type than the first

---
 .../python/dataset/transformations/batch.py   | 39 +++++++++++++------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/batch.py b/grain/_src/python/dataset/transformations/batch.py
index cda48a6..8d51814 100644
--- a/grain/_src/python/dataset/transformations/batch.py
+++ b/grain/_src/python/dataset/transformations/batch.py
@@ -58,6 +58,15 @@ _PARALLEL_BATCHING_MIN_TOTAL_BYTES = 4 * 1024 * 1024
 _PARALLEL_BATCHING_MIN_BATCH_SIZE = 4
 
 
+def _is_stacking_safe(xs: Sequence[Any], dtype: np.dtype) -> bool:
+  """Whether stacking `xs` into an array of type `dtype` loses nothing."""
+  return (
+      dtype.kind not in ("U", "S")
+      and dtype.isnative
+      and all(np.asanyarray(x).dtype == dtype for x in xs)
+  )
+
+
 class _MakeBatchParallel:
   """A callable class for batching sequences of structured data in parallel.
 
@@ -96,11 +105,13 @@ class _MakeBatchParallel:
     shape, dtype = (len(xs),) + first_arg.shape, first_arg.dtype
     if dtype.hasobject:
       return np.stack(xs)
-    # For string dtypes, np.stack with a pre-allocated out= array would
-    # silently truncate strings longer than the first element's width.
-    # Fall back to safe np.stack (which infers max-width dtype) + copy.
-    if dtype.kind in ("U", "S"):
+    # np.stack with a pre-allocated out= array would silently truncate strings
+    # longer than the first element's width and numbers of a larger type.
+    # Fall back to safe np.stack (which infers the result dtype) + copy.
+    if not _is_stacking_safe(xs, dtype):
       stacked = np.stack(xs)
+      if stacked.dtype.hasobject:
+        return stacked
       shm_arr = shared_memory_array.SharedMemoryArray(
           stacked.shape, dtype=stacked.dtype
       )
@@ -121,10 +132,12 @@ class _MakeBatchParallel:
       xs = cast(Sequence[np.ndarray], xs)
       first_arg = xs[0]
       shape, dtype = (len(xs),) + first_arg.shape, first_arg.dtype
-      # For string dtypes, the parallel path would silently truncate strings
-      # because the output array dtype is inferred from the first element only.
-      # Fall back to the serial _stack path which handles strings correctly.
-      if dtype.kind in ("U", "S"):
+      # For strings and elements of different types or shapes, the parallel path
+      # would silently truncate or broadcast because the output array is inferred
+      # from the first element only. Fall back to the serial _stack path.
+      if not _is_stacking_safe(xs, dtype) or any(
+          x.shape != first_arg.shape for x in xs
+      ):
         return self._stack(xs)
       # Fall back to the standard serial `np.stack` operation if the size of
       # of the entire batch is smaller (measured in bytes) than the threshold.
@@ -195,11 +208,13 @@ def make_batch(
       shape, dtype = (len(args),) + first_arg.shape, first_arg.dtype
       if dtype.hasobject:
         return np.stack(args)
-      # For string dtypes, np.stack with a pre-allocated out= array would
-      # silently truncate strings longer than the first element's width.
-      # Fall back to safe np.stack (which infers max-width dtype) + copy.
-      if dtype.kind in ("U", "S"):
+      # np.stack with a pre-allocated out= array would silently truncate strings
+      # longer than the first element's width and numbers of a larger type.
+      # Fall back to safe np.stack (which infers the result dtype) + copy.
+      if not _is_stacking_safe(args, dtype):
         stacked = np.stack(args)
+        if stacked.dtype.hasobject:
+          return stacked
         shm_arr = shared_memory_array.SharedMemoryArray(
             stacked.shape, dtype=stacked.dtype
         )
-- 
2.43.0


From 4ad20ce6614cde0afa21d25b05ce9a767d8e2cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:01 +0000
Subject: [PATCH 40/58] fix: shared memory that has been received was handed
 over again and released twice

---
 grain/_src/python/ipc/shared_memory_array.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/grain/_src/python/ipc/shared_memory_array.py b/grain/_src/python/ipc/shared_memory_array.py
index 8a97bbe..e9f5345 100644
--- a/grain/_src/python/ipc/shared_memory_array.py
+++ b/grain/_src/python/ipc/shared_memory_array.py
@@ -73,7 +73,9 @@ class SharedMemoryArray(np.ndarray):
     size = math.prod(shape) * np.dtype(dtype).itemsize
     # Shared memory blocks cannot be empty.
     shm = shared_memory.SharedMemory(create=True, size=max(size, 1))
-    return cls.from_shared_memory(shm, shape, dtype)
+    obj = cls.from_shared_memory(shm, shape, dtype)
+    obj._can_hand_over = True
+    return obj
 
   def __array_finalize__(self, obj):
     # This follows the `numpy.memmap` implementation
@@ -82,6 +84,9 @@ class SharedMemoryArray(np.ndarray):
     else:
       self.shm = None
     self._unlink_on_del = getattr(obj, "_unlink_on_del", False)
+    # Whether the shared memory has been created for this array and nobody else
+    # is responsible for unlinking it.
+    self._can_hand_over = False
 
   def __array_wrap__(self, obj, context=None, return_scalar=False):  # pylint: disable=unused-argument
     # This follows the `numpy.memmap` implementation
@@ -196,8 +201,15 @@ class SharedMemoryArray(np.ndarray):
 
 def _copy_leaf_to_shm(leaf: Any, min_size: int = 0) -> Any:
   """Copies `leaf` to shared memory if it's a big enough numpy array."""
-  if isinstance(leaf, SharedMemoryArray) and not leaf._is_view():  # pylint: disable=protected-access
-    return leaf.metadata
+  if isinstance(leaf, SharedMemoryArray):
+    # pylint: disable=protected-access
+    if leaf._can_hand_over and not leaf._is_view():
+      # The receiver will unlink the shared memory, hence it can only be handed
+      # over once. Otherwise, the receiver gets a copy.
+      leaf._can_hand_over = False
+      return leaf.metadata
+    # pylint: enable=protected-access
+    leaf = leaf.view(np.ndarray)
   if (
       not isinstance(leaf, np.ndarray)
       or leaf.dtype.hasobject
-- 
2.43.0


From 375c27948df78515cd803af88f6d3df5f7a3a743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:37 +0000
Subject: [PATCH 41/58] fix: shared memory of batches that could not be
 completed was never released

---
 .../python/dataset/transformations/batch.py   | 19 ++++++++++++++-----
 grain/_src/python/ipc/shared_memory_array.py  |  1 +
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/batch.py b/grain/_src/python/dataset/transformations/batch.py
index 8d51814..c40ddfe 100644
--- a/grain/_src/python/dataset/transformations/batch.py
+++ b/grain/_src/python/dataset/transformations/batch.py
@@ -58,6 +58,15 @@ _PARALLEL_BATCHING_MIN_TOTAL_BYTES = 4 * 1024 * 1024
 _PARALLEL_BATCHING_MIN_BATCH_SIZE = 4
 
 
+def _new_shared_memory_array(
+    shape: Sequence[int], dtype: np.dtype
+) -> shared_memory_array.SharedMemoryArray:
+  """Returns an array whose memory is unlinked unless it is handed over."""
+  result = shared_memory_array.SharedMemoryArray(shape, dtype=dtype)
+  result.unlink_on_del()
+  return result
+
+
 def _is_stacking_safe(xs: Sequence[Any], dtype: np.dtype) -> bool:
   """Whether stacking `xs` into an array of type `dtype` loses nothing."""
   return (
@@ -112,14 +121,14 @@ class _MakeBatchParallel:
       stacked = np.stack(xs)
       if stacked.dtype.hasobject:
         return stacked
-      shm_arr = shared_memory_array.SharedMemoryArray(
+      shm_arr = _new_shared_memory_array(
           stacked.shape, dtype=stacked.dtype
       )
       np.copyto(shm_arr, stacked, casting="no")
       return shm_arr
 
     return np.stack(
-        xs, out=shared_memory_array.SharedMemoryArray(shape, dtype=dtype)
+        xs, out=_new_shared_memory_array(shape, dtype=dtype)
     )
 
   def __call__(self, values: Sequence[T]) -> T:
@@ -147,7 +156,7 @@ class _MakeBatchParallel:
       if not self._output_to_shared_memory or dtype.hasobject:
         out = np.empty(shape, dtype=dtype)
       else:
-        out = shared_memory_array.SharedMemoryArray(shape, dtype=dtype)
+        out = _new_shared_memory_array(shape, dtype=dtype)
 
       # For each input array, submit a parallel task to the thread pool to copy
       # the data into the corresponding slice of the output array.
@@ -215,13 +224,13 @@ def make_batch(
         stacked = np.stack(args)
         if stacked.dtype.hasobject:
           return stacked
-        shm_arr = shared_memory_array.SharedMemoryArray(
+        shm_arr = _new_shared_memory_array(
             stacked.shape, dtype=stacked.dtype
         )
         np.copyto(shm_arr, stacked, casting="no")
         return shm_arr
       return np.stack(
-          args, out=shared_memory_array.SharedMemoryArray(shape, dtype=dtype)
+          args, out=_new_shared_memory_array(shape, dtype=dtype)
       )
 
     stacking_function = shm_stacking_function
diff --git a/grain/_src/python/ipc/shared_memory_array.py b/grain/_src/python/ipc/shared_memory_array.py
index e9f5345..860b567 100644
--- a/grain/_src/python/ipc/shared_memory_array.py
+++ b/grain/_src/python/ipc/shared_memory_array.py
@@ -207,6 +207,7 @@ def _copy_leaf_to_shm(leaf: Any, min_size: int = 0) -> Any:
       # The receiver will unlink the shared memory, hence it can only be handed
       # over once. Otherwise, the receiver gets a copy.
       leaf._can_hand_over = False
+      leaf._unlink_on_del = False
       return leaf.metadata
     # pylint: enable=protected-access
     leaf = leaf.view(np.ndarray)
-- 
2.43.0


From b761812e0dfc7ee4e3db5b53a09d2494e61cf58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:39 +0000
Subject: [PATCH 42/58] fix: masked arrays lost their mask in worker processes

---
 grain/_src/python/ipc/shared_memory_array.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/grain/_src/python/ipc/shared_memory_array.py b/grain/_src/python/ipc/shared_memory_array.py
index 860b567..8ff7f60 100644
--- a/grain/_src/python/ipc/shared_memory_array.py
+++ b/grain/_src/python/ipc/shared_memory_array.py
@@ -213,6 +213,7 @@ def _copy_leaf_to_shm(leaf: Any, min_size: int = 0) -> Any:
     leaf = leaf.view(np.ndarray)
   if (
       not isinstance(leaf, np.ndarray)
+      or isinstance(leaf, np.ma.MaskedArray)
       or leaf.dtype.hasobject
       or not leaf.flags.c_contiguous
       or math.prod(leaf.shape) == 0
-- 
2.43.0


From cd7f56cf9b23f0ba26c7aa6104adfbd4fa35b04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:32 +0000
Subject: [PATCH 43/58] fix: shared memory of arrays in reference cycles is
 closed twice

The garbage collector finalizes both the array, which closes the block in a
background thread, and the block itself. Whichever came second failed with
EBADF (or closed somebody else's file), and the block was never unlinked.
---
 grain/_src/python/ipc/shared_memory_array.py | 21 ++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/ipc/shared_memory_array.py b/grain/_src/python/ipc/shared_memory_array.py
index 8ff7f60..630ecae 100644
--- a/grain/_src/python/ipc/shared_memory_array.py
+++ b/grain/_src/python/ipc/shared_memory_array.py
@@ -42,6 +42,23 @@ class SharedMemoryArrayMetadata:
     shm.unlink()
 
 
+class _SharedMemory(shared_memory.SharedMemory):
+  """Shared memory that can be closed from multiple threads.
+
+  If an array is a part of a reference cycle the garbage collector finalizes
+  both the array, which may close the shared memory in a background thread, and
+  the shared memory, which closes itself.
+  """
+
+  def __init__(self, *args, **kwargs):
+    self._close_lock = threading.Lock()
+    super().__init__(*args, **kwargs)
+
+  def close(self) -> None:
+    with self._close_lock:
+      super().close()
+
+
 def _del_shm(shm: shared_memory.SharedMemory, unlink: bool) -> None:
   shm.close()
   if unlink:
@@ -72,7 +89,7 @@ class SharedMemoryArray(np.ndarray):
     # See https://numpy.org/doc/stable/user/basics.subclassing.html
     size = math.prod(shape) * np.dtype(dtype).itemsize
     # Shared memory blocks cannot be empty.
-    shm = shared_memory.SharedMemory(create=True, size=max(size, 1))
+    shm = _SharedMemory(create=True, size=max(size, 1))
     obj = cls.from_shared_memory(shm, shape, dtype)
     obj._can_hand_over = True
     return obj
@@ -100,7 +117,7 @@ class SharedMemoryArray(np.ndarray):
   def from_metadata(
       cls, metadata: SharedMemoryArrayMetadata
   ) -> SharedMemoryArray:
-    shm = shared_memory.SharedMemory(metadata.name)
+    shm = _SharedMemory(metadata.name)
     return cls.from_shared_memory(shm, metadata.shape, metadata.dtype)
 
   @property
-- 
2.43.0


From cad9e70d6e7f833bee882fe806db1f2808a60758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:27 +0000
Subject: [PATCH 44/58] fix: elastic iterator could be read after close

---
 grain/_src/python/dataset/elastic_iterator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/grain/_src/python/dataset/elastic_iterator.py b/grain/_src/python/dataset/elastic_iterator.py
index 562ef78..c000a2e 100644
--- a/grain/_src/python/dataset/elastic_iterator.py
+++ b/grain/_src/python/dataset/elastic_iterator.py
@@ -477,10 +477,12 @@ class ElasticIterator(dataset.DatasetIterator):
     Returns:
       The next element in the iteration.
     """
+    self._assert_not_closed()
     return next(self.base_iterator)
 
   def close(self) -> None:
     """Closes the base iterator if it was created for backwards compatibility."""
+    self._closed = True
     if "base_iterator" in self.__dict__:
       self.base_iterator.close()
 
@@ -498,6 +500,8 @@ class ElasticIterator(dataset.DatasetIterator):
       self.base_iterator.close()
       self.__dict__.pop("base_iterator")
     self.base_iterator.set_state(state)
+    # A new base iterator can be read even if the previous one was closed.
+    self._closed = False
 
   def get_shard_states(self) -> Any:
     """Returns the state of the inner iterator.
@@ -527,3 +531,4 @@ class ElasticIterator(dataset.DatasetIterator):
           " ElasticIterator."
       )
     self.base_iterator.set_shard_states(shard_states)
+    self._closed = False
-- 
2.43.0


From 56a4a180c0f95ea3907ec7817ca6a3184e397127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:07 +0000
Subject: [PATCH 45/58] fix: file iterators could be read after close

---
 grain/_src/python/dataset/sources/parquet_dataset.py  | 1 +
 grain/_src/python/dataset/sources/tfrecord_dataset.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/grain/_src/python/dataset/sources/parquet_dataset.py b/grain/_src/python/dataset/sources/parquet_dataset.py
index 6b31d60..55885d0 100644
--- a/grain/_src/python/dataset/sources/parquet_dataset.py
+++ b/grain/_src/python/dataset/sources/parquet_dataset.py
@@ -58,6 +58,7 @@ class _ParquetDatasetIterator(dataset.DatasetIterator[T]):
       self._np_table[table.field(i).name] = table.column(i).to_numpy()
 
   def __next__(self):
+    self._assert_not_closed()
     if self._index_within_row_group >= self._row_group_len:
       if self._row_group < self._pq_file.num_row_groups - 1:
         self._row_group += 1
diff --git a/grain/_src/python/dataset/sources/tfrecord_dataset.py b/grain/_src/python/dataset/sources/tfrecord_dataset.py
index 5f7561e..5f17524 100644
--- a/grain/_src/python/dataset/sources/tfrecord_dataset.py
+++ b/grain/_src/python/dataset/sources/tfrecord_dataset.py
@@ -86,6 +86,7 @@ class _TFRecordDatasetIterator(dataset.DatasetIterator[T]):
     self._reader = _TFRecordReader(path)
 
   def __next__(self) -> T:
+    self._assert_not_closed()
     return next(self._reader)
 
   def get_state(self) -> dict[str, int]:
-- 
2.43.0


From 95a8537c7c8c237fcfacddf872be5d32cec3313f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:07 +0000
Subject: [PATCH 46/58] fix: InterleaveIterDataset did not restore falsy states
 of its inputs

---
 grain/_src/python/dataset/transformations/interleave.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index 02b7609..f1d1652 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -298,9 +298,8 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
                 interleave_iterator=weakref.ref(self),
                 start_prefetch=False,
             )
-        # Only update the iterator state if it is given
-        if it_state:
-          iterator.set_state(it_state)
+        # The state can be falsy, for instance if it is an element counter.
+        iterator.set_state(it_state)
         self._iterators_in_use[index_in_cycle] = iterator
       else:
         self._exhausted_iterator_state[index_in_cycle] = it_state
@@ -335,7 +334,7 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
         iterators_in_use_states.append(s)
         exhausted.append(0)
         count += 1
-      elif s:
+      elif s is not None:
         future_states[indx] = s
     next_index_in_datasets = (
         max(iterators_in_use_indices) + 1 if iterators_in_use_indices else 0
-- 
2.43.0


From 2f52540d427f06d114e62f780a4cae8b2d5902a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:07 +0000
Subject: [PATCH 47/58] fix: without JAX the features of dicts with different
 key orders were mixed up

---
 grain/_src/core/tree_lib.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/grain/_src/core/tree_lib.py b/grain/_src/core/tree_lib.py
index 75e4867..1dcc557 100644
--- a/grain/_src/core/tree_lib.py
+++ b/grain/_src/core/tree_lib.py
@@ -86,6 +86,15 @@ try:
 
 except ImportError:
 
+  def _items(structure):
+    """Returns items of the mapping in the same order as `jax.tree_util`."""
+    if isinstance(structure, collections.OrderedDict):
+      return list(structure.items())
+    try:
+      return [(k, structure[k]) for k in sorted(structure)]
+    except TypeError:  # Keys that can not be compared.
+      return list(structure.items())
+
   def map_structure(f, *trees, is_leaf=None):
     """Pure Python version of `jax.tree_util.tree_map`."""
     a = trees[0]
@@ -117,7 +126,7 @@ except ImportError:
     elif isinstance(structure, _MAPPING_TYPES):
       return list(
           itertools.chain.from_iterable(
-              flatten(v) for _, v in structure.items()
+              flatten(v) for _, v in _items(structure)
           )
       )
     else:  # leaf
@@ -136,7 +145,7 @@ except ImportError:
         return type(structure)(new_items)
     elif isinstance(structure, _MAPPING_TYPES):
       new_items = (
-          (k, _unflatten_iter_as(v, flat_iter)) for k, v in structure.items()
+          (k, _unflatten_iter_as(v, flat_iter)) for k, v in _items(structure)
       )
       if isinstance(structure, collections.defaultdict):
         new_tree = type(structure)(structure.default_factory)
@@ -199,7 +208,7 @@ except ImportError:
     elif isinstance(structure, _MAPPING_TYPES):
       return list(
           itertools.chain.from_iterable(
-              _flatten_with_path(prefix + (k,), v) for k, v in structure.items()
+              _flatten_with_path(prefix + (k,), v) for k, v in _items(structure)
           )
       )
     else:  # leaf
-- 
2.43.0


From 7b6b4e646a45fa4339c82363a98cf8a1025153c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:07 +0000
Subject: [PATCH 48/58] fix: without JAX lists of different lengths were
 truncated instead of rejected

---
 grain/_src/core/tree_lib.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/grain/_src/core/tree_lib.py b/grain/_src/core/tree_lib.py
index 1dcc557..de1a586 100644
--- a/grain/_src/core/tree_lib.py
+++ b/grain/_src/core/tree_lib.py
@@ -101,7 +101,10 @@ except ImportError:
     if is_leaf is not None and is_leaf(a):
       return f(*trees)
     elif isinstance(a, _SEQUENCE_TYPES):
-      new_items = (map_structure(f, *v, is_leaf=is_leaf) for v in zip(*trees))
+      new_items = (
+          map_structure(f, *v, is_leaf=is_leaf)
+          for v in zip(*trees, strict=True)
+      )
       if epy.is_namedtuple(a):
         return type(a)(*new_items)
       else:
@@ -225,7 +228,7 @@ except ImportError:
     elif isinstance(a, _SEQUENCE_TYPES):
       new_items = (
           _map_structure_with_path(prefix + (i,), f, *v, is_leaf=is_leaf)
-          for i, v in enumerate(zip(*trees))
+          for i, v in enumerate(zip(*trees, strict=True))
       )
       if epy.is_namedtuple(a):
         return type(a)(*new_items)
-- 
2.43.0


From ff2d0c9a9dd23ea4087c64a69b0c4a20e1c1c80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:07 +0000
Subject: [PATCH 49/58] fix: Parquet files without row groups could not be read

---
 grain/_src/python/dataset/sources/parquet_dataset.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/grain/_src/python/dataset/sources/parquet_dataset.py b/grain/_src/python/dataset/sources/parquet_dataset.py
index 55885d0..249f3e2 100644
--- a/grain/_src/python/dataset/sources/parquet_dataset.py
+++ b/grain/_src/python/dataset/sources/parquet_dataset.py
@@ -51,6 +51,11 @@ class _ParquetDatasetIterator(dataset.DatasetIterator[T]):
     self._read_row_group_to_np_table()
 
   def _read_row_group_to_np_table(self):
+    if not self._pq_file.num_row_groups:
+      # A file without rows does not need to have any row groups.
+      self._row_group_len = 0
+      self._np_table = {}
+      return
     table = self._pq_file.read_row_group(self._row_group)
     self._row_group_len = len(table)
     self._np_table = {}
-- 
2.43.0


From e95b85ca7252b4c9371c9bd0d82c177229e619dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:07 +0000
Subject: [PATCH 50/58] fix: Parquet files with many empty row groups exceeded
 the recursion limit

---
 .../python/dataset/sources/parquet_dataset.py | 24 +++++++++----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/grain/_src/python/dataset/sources/parquet_dataset.py b/grain/_src/python/dataset/sources/parquet_dataset.py
index 249f3e2..85fa859 100644
--- a/grain/_src/python/dataset/sources/parquet_dataset.py
+++ b/grain/_src/python/dataset/sources/parquet_dataset.py
@@ -64,20 +64,18 @@ class _ParquetDatasetIterator(dataset.DatasetIterator[T]):
 
   def __next__(self):
     self._assert_not_closed()
-    if self._index_within_row_group >= self._row_group_len:
-      if self._row_group < self._pq_file.num_row_groups - 1:
-        self._row_group += 1
-        self._index_within_row_group = 0
-        self._read_row_group_to_np_table()
-        return self.__next__()
-      else:
+    # Row groups can be empty.
+    while self._index_within_row_group >= self._row_group_len:
+      if self._row_group >= self._pq_file.num_row_groups - 1:
         raise StopIteration()
-    else:
-      item = {
-          k: v[self._index_within_row_group] for k, v in self._np_table.items()
-      }
-      self._index_within_row_group += 1
-      return item
+      self._row_group += 1
+      self._index_within_row_group = 0
+      self._read_row_group_to_np_table()
+    item = {
+        k: v[self._index_within_row_group] for k, v in self._np_table.items()
+    }
+    self._index_within_row_group += 1
+    return item
 
   def get_state(self):
     return {
-- 
2.43.0


From efd082b73307618fb8315100f43579b03bfcdbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:45 +0000
Subject: [PATCH 51/58] fix: PackAndBatchOperation started with the last batch
 of its previous use

---
 .../experimental/example_packing/packing.py   | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/grain/_src/python/experimental/example_packing/packing.py b/grain/_src/python/experimental/example_packing/packing.py
index 6f2df2e..c476629 100644
--- a/grain/_src/python/experimental/example_packing/packing.py
+++ b/grain/_src/python/experimental/example_packing/packing.py
@@ -15,7 +15,7 @@ can't be added, we construct a new batch to which the element is added.
 """
 
 import dataclasses
-from typing import Any, Generic, Iterator, TypeVar, Union, cast
+from typing import Any, Generic, Iterator, TypeVar, cast
 
 from absl import logging
 from grain._src.core import tree_lib
@@ -203,7 +203,6 @@ class PackAndBatchOperation(Generic[_T]):
   batch_size: int
   max_sequences_per_bin: int | None = None
   # We don't know input shapes and corresponding buffer shapes until __call__.
-  _cur_batch: Union[_PackedBatch, None] = None
 
   def __post_init__(self):
     logging.error(
@@ -214,10 +213,12 @@ class PackAndBatchOperation(Generic[_T]):
   def __call__(
       self, input_iterator: Iterator[record.Record[_T]]
   ) -> Iterator[record.Record[tuple[_T, _T, _T]]]:
+    # Not an attribute since the operation can be called several times.
+    cur_batch = None
     for element in input_iterator:
       # Use `element` to set dtypes + trailing dimensions.
-      if self._cur_batch is None:  # pytype: disable=attribute-error
-        self._cur_batch = _PackedBatch(
+      if cur_batch is None:
+        cur_batch = _PackedBatch(
             element.data,
             self.batch_size,
             self.length_struct,
@@ -225,19 +226,19 @@ class PackAndBatchOperation(Generic[_T]):
         )
 
       # Try adding element to the current packed batch.
-      element_added_to_batch = self._cur_batch.try_add_to_batch(element)
+      element_added_to_batch = cur_batch.try_add_to_batch(element)
 
       # When we have a full batch, yield the current packed data,
       # and then start a new batch with this element.
       if not element_added_to_batch:
-        yield self._cur_batch.get_packed_batch()  # Main yield
-        self._cur_batch = _PackedBatch(
+        yield cur_batch.get_packed_batch()  # Main yield
+        cur_batch = _PackedBatch(
             element.data,
             self.batch_size,
             self.length_struct,
             self.max_sequences_per_bin,
         )
-        self._cur_batch.try_add_to_batch(element)
+        cur_batch.try_add_to_batch(element)
 
     # Final batch
-    yield self._cur_batch.get_packed_batch()
+    yield cur_batch.get_packed_batch()
-- 
2.43.0


From 489c295ce871253084267529ff1e5e3a001e0b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:45 +0000
Subject: [PATCH 52/58] fix: PackAndBatchOperation failed without input
 elements

---
 grain/_src/python/experimental/example_packing/packing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/experimental/example_packing/packing.py b/grain/_src/python/experimental/example_packing/packing.py
index c476629..3ba755e 100644
--- a/grain/_src/python/experimental/example_packing/packing.py
+++ b/grain/_src/python/experimental/example_packing/packing.py
@@ -241,4 +241,5 @@ class PackAndBatchOperation(Generic[_T]):
         cur_batch.try_add_to_batch(element)
 
     # Final batch
-    yield cur_batch.get_packed_batch()
+    if cur_batch is not None:
+      yield cur_batch.get_packed_batch()
-- 
2.43.0


From 39663e20bc7a4dcab41598ffe567d80736e039ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:36 +0000
Subject: [PATCH 53/58] fix: rebatching mixed up features of elements with
 different structures

---
 grain/_src/python/dataset/transformations/rebatch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/rebatch.py b/grain/_src/python/dataset/transformations/rebatch.py
index d05b1b9..968f52a 100644
--- a/grain/_src/python/dataset/transformations/rebatch.py
+++ b/grain/_src/python/dataset/transformations/rebatch.py
@@ -106,6 +106,9 @@ class _RebatchDatasetIterator(dataset.DatasetIterator):
     """Flattens the pytree element, if first time, caches the tree def."""
     if self._treedef is None:
       self._treedef = pytree_element
+    else:
+      # Leaves are matched by their position in the flattened element.
+      tree_lib.assert_same_structure(self._treedef, pytree_element)
     return tree_lib.flatten(pytree_element)
 
   @stats.record_next_duration_if_output
-- 
2.43.0


From 72aea972a000059b12e3616d45f82e27b32638da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:36 +0000
Subject: [PATCH 54/58] fix: rebatching misaligned features with different
 batch sizes

---
 grain/_src/python/dataset/transformations/rebatch.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/transformations/rebatch.py b/grain/_src/python/dataset/transformations/rebatch.py
index 968f52a..d4f76bb 100644
--- a/grain/_src/python/dataset/transformations/rebatch.py
+++ b/grain/_src/python/dataset/transformations/rebatch.py
@@ -109,7 +109,13 @@ class _RebatchDatasetIterator(dataset.DatasetIterator):
     else:
       # Leaves are matched by their position in the flattened element.
       tree_lib.assert_same_structure(self._treedef, pytree_element)
-    return tree_lib.flatten(pytree_element)
+    leaves = tree_lib.flatten(pytree_element)
+    if any(len(x) != len(leaves[0]) for x in leaves):
+      raise ValueError(
+          "Expected all features to have the same batch size but got:\n"
+          f"{tree_lib.spec_like(pytree_element)}"
+      )
+    return leaves
 
   @stats.record_next_duration_if_output
   @stats.trace_input_pipeline_next(stage_category=stats.IPL_CAT_PREPROCESSING)
-- 
2.43.0


From c15538b7bed9e54748129972e801037371d29293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:59 +0000
Subject: [PATCH 55/58] fix: without JAX leaves were considered to match any
 structure

---
 grain/_src/core/tree_lib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grain/_src/core/tree_lib.py b/grain/_src/core/tree_lib.py
index de1a586..f041278 100644
--- a/grain/_src/core/tree_lib.py
+++ b/grain/_src/core/tree_lib.py
@@ -193,8 +193,8 @@ except ImportError:
           _assert_same_structure(v0, v1)
         except AssertionError as e:
           epy.reraise(e, prefix=f"In {k}: ")
-    else:  # leaf
-      return
+    elif isinstance(b, _ALL_TYPES):
+      raise AssertionError(f"leaf does not match structure: {type(b)}")
 
   def flatten_with_path(structure):
     return _flatten_with_path((), structure)
-- 
2.43.0


From 5cfeb4bae2aa757890845f5468db5d8fb4191fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:48 +0000
Subject: [PATCH 56/58] fix: large RangeDataSource had a wrong length

---
 grain/_src/python/data_sources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/data_sources.py b/grain/_src/python/data_sources.py
index f885dae..c1819d8 100644
--- a/grain/_src/python/data_sources.py
+++ b/grain/_src/python/data_sources.py
@@ -23,7 +23,6 @@ pipelines.
 
 from collections.abc import Sequence
 import inspect
-import math
 from multiprocessing import shared_memory
 import os
 import threading
@@ -113,7 +112,8 @@ class RangeDataSource:
     self._start = start
     self._stop = stop
     self._step = step
-    self._len = int(math.ceil((self._stop - self._start) / step))
+    # Rounds up. Floating point division is not exact for large ranges.
+    self._len = -((self._start - self._stop) // step)
     assert self._len >= 0, "length can't be negative."
     _api_usage_counter.Increment("RangeDataSource")
 
-- 
2.43.0


From 3a35c00e4e1097805e0ecd246be973e1f3eee25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:50 +0000
Subject: [PATCH 57/58] fix: shared memory source had elements before its first
 one

---
 grain/_src/python/data_sources.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/grain/_src/python/data_sources.py b/grain/_src/python/data_sources.py
index c1819d8..b086b85 100644
--- a/grain/_src/python/data_sources.py
+++ b/grain/_src/python/data_sources.py
@@ -169,6 +169,12 @@ class SharedMemoryDataSource(shared_memory.ShareableList):
     super().__init__(elements, name=name)
     _api_usage_counter.Increment("InMemoryDataSource")
 
+  def __getitem__(self, position):
+    # `ShareableList` does not check the lower bound.
+    if position < -len(self):
+      raise IndexError("list index out of range")
+    return super().__getitem__(position)
+
   def __str__(self):
     return f"InMemoryDataSource(name={self.shm.name}, len={len(self)})"
 
-- 
2.43.0


From b0877cce9411e5ea0f4c86d4b62f5d73855de596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:54:29 +0000
Subject: [PATCH 58/58] fix: options set after an interleave were ignored by
 inputs created early

Iterators that are created to get their state (for instance by a thread
prefetch or an outer interleave on top) kept the options known at that time.
---
 .../python/dataset/transformations/interleave.py  | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index f1d1652..3ac54e2 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -99,6 +99,8 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
     self._assert_not_closed()
     if not self._cycle_length:
       raise StopIteration
+    if not self._started:
+      self._propagate_options()
     self._started = True
     timer = stats.Timer()
     _ = self._stats  # eagerly initialize stats
@@ -425,7 +427,20 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
       if exhausted_iterator is not None:
         exhausted_iterator[1].close()
 
+  def _propagate_options(self) -> None:
+    # Iterators may have been created (e.g. to get their state) before all of
+    # the options were known.
+    for it in self._iterators_in_use:
+      if it is not None:
+        # pylint: disable=protected-access
+        it._ctx.dataset_options = self._ctx.dataset_options.merge(
+            it._ctx.dataset_options
+        )
+        # pylint: enable=protected-access
+
   def start_prefetch(self):
+    if not self._started:
+      self._propagate_options()
     for it in self._iterators_in_use:
       if it is not None:
         it.start_prefetch()
-- 
2.43.0

