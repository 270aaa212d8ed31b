From 893fc60d874674af0fcdda6e0037b6b88bfbb889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 01/69] fix: restore the bucketed samples of GroupBatchDataset
 for their own worker

The restored buffer was assigned to every worker but the one it was saved for, so all
bucketed samples were lost on resume. Also reset the sample indexes on restore_state(None).
---
 src/megatron/energon/wrappers/group_batch_dataset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/wrappers/group_batch_dataset.py b/src/megatron/energon/wrappers/group_batch_dataset.py
index 070e936..1117873 100644
--- a/src/megatron/energon/wrappers/group_batch_dataset.py
+++ b/src/megatron/energon/wrappers/group_batch_dataset.py
@@ -249,6 +249,8 @@ class GroupBatchDataset(
     def restore_state(self, state: Optional[GroupBatchMergedState]) -> None:
         super().restore_state(state)
         if state is None:
+            self._group_key_sample_index.restore_state(None)
+            self._batch_sample_index.restore_state(None)
             self._buckets = [{} for _ in range(max(self.worker_config.num_workers, 1))]
         else:
             assert isinstance(state, GroupBatchMergedState)
@@ -272,9 +274,9 @@ class GroupBatchDataset(
                             SampleBufferMergedState(
                                 buffer=[
                                     (
-                                        []
+                                        bucket_state.samples.buffer
                                         if gen_worker_idx == worker_idx
-                                        else bucket_state.samples.buffer
+                                        else []
                                     )
                                     for gen_worker_idx in range(
                                         max(self.worker_config.num_workers, 1)
-- 
2.43.0


From 302d8613c3289a0cd6abf3fe1eb8c8ca06480eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 02/69] fix: apply encode_batch and statelessness of batch with
 batch_group_criterion

With grouped batching, encode_batch was silently not applied, and a stateless batch function was
not recognized, so that no batch could be restored by its key.
---
 src/megatron/energon/task_encoder/base.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/megatron/energon/task_encoder/base.py b/src/megatron/energon/task_encoder/base.py
index d0b8fb8..fdc7542 100644
--- a/src/megatron/energon/task_encoder/base.py
+++ b/src/megatron/energon/task_encoder/base.py
@@ -401,6 +401,7 @@ class TaskEncoder(ABC, Generic[T_sample, T_encoded_sample, T_raw_batch, T_batch]
                 fixed_batch_size=batch_size,
                 sample_group_key=self.batch_group_criterion,
                 batcher=self.batch,
+                batcher_stateless=get_stateless(self.batch),
                 drop_last=batch_drop_last,
                 worker_config=worker_config,
             )
@@ -417,13 +418,6 @@ class TaskEncoder(ABC, Generic[T_sample, T_encoded_sample, T_raw_batch, T_batch]
                     worker_config=worker_config,
                 )
 
-                if getattr(self.encode_batch, "__func__", None) is not TaskEncoder.encode_batch:
-                    dataset = MapDataset(
-                        dataset,
-                        self.encode_batch,
-                        worker_config=worker_config,
-                        stateless_map_fn=get_stateless(self.encode_batch),
-                    )
             else:
                 assert (
                     getattr(self.encode_batch, "__func__", None) is TaskEncoder.encode_batch
@@ -432,6 +426,14 @@ class TaskEncoder(ABC, Generic[T_sample, T_encoded_sample, T_raw_batch, T_batch]
                     getattr(self.batch, "__func__", None) is TaskEncoder.batch
                 ), "batch_size is not set, but batch is not the default."
 
+        if getattr(self.encode_batch, "__func__", None) is not TaskEncoder.encode_batch:
+            dataset = MapDataset(
+                dataset,
+                self.encode_batch,
+                worker_config=worker_config,
+                stateless_map_fn=get_stateless(self.encode_batch),
+            )
+
         return dataset
 
     def build_cook_crude_sample(
-- 
2.43.0


From d1eae5d386d603da0feffef404c68e87cf67d38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 03/69] fix: keep the restore key for all outputs of
 IterMapDataset for one input

Only the first output of an input sample had the key of the input, thus later outputs could
not be restored. Also do not keep the key of a failed sample.
---
 src/megatron/energon/wrappers/iter_map_dataset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/iter_map_dataset.py b/src/megatron/energon/wrappers/iter_map_dataset.py
index 00f3213..4dfb460 100644
--- a/src/megatron/energon/wrappers/iter_map_dataset.py
+++ b/src/megatron/energon/wrappers/iter_map_dataset.py
@@ -116,6 +116,9 @@ class IterMapDataset(
             # Resets the inner sample index
             nonlocal iter_idx, sample_restore_keys
             for entry in last_sample_wrapper:
+                if iter_idx > 0:
+                    # The fetched samples already resulted in outputs, start a new group
+                    sample_restore_keys.clear()
                 iter_idx = 0
                 sample_restore_keys.append(get_sample_restore_key(entry))
                 yield entry
@@ -134,12 +137,12 @@ class IterMapDataset(
                         *sample_restore_keys,
                         src=self,
                     )
-                    sample_restore_keys.clear()
                     iter_idx += 1
             except SYSTEM_EXCEPTIONS:
                 raise FatalSampleError.from_sample(last_sample_wrapper.last_sample)
             except Exception as e:
                 self.error_handler(e, last_sample_wrapper.last_sample)
+                sample_restore_keys.clear()
             else:
                 break
 
-- 
2.43.0


From 841c1633aec586110f592f3e4e01ea3b60d27285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 04/69] fix: resume a generator map_fn like the uninterrupted
 iteration

The resumed generator used the index of the next sample, its exceptions were not handled, and a
generator which raised was kept in the state, to be run again after restoring.
---
 src/megatron/energon/wrappers/map_dataset.py | 54 +++++++++++---------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/src/megatron/energon/wrappers/map_dataset.py b/src/megatron/energon/wrappers/map_dataset.py
index 7f9122b..86c4d1c 100644
--- a/src/megatron/energon/wrappers/map_dataset.py
+++ b/src/megatron/energon/wrappers/map_dataset.py
@@ -111,27 +111,34 @@ class MapDataset(BaseSingleWrapperDataset[T_sample, T_sample_out], Generic[T_sam
         if self._generator_sample_keys[worker_id] is not None:
             assert self._generator_offsets[worker_id] is not None
             sample = self.dataset.restore_sample(self._generator_sample_keys[worker_id])
-            # Do not increment the sample index, use previous index
-            with self._sample_index.ctx(self._sample_index.current_idx) as sample_idx:
-                mapped_sample = self.map_fn(sample)
-            assert isinstance(mapped_sample, Generator)
-            assert inspect.isgeneratorfunction(
-                self.map_fn
-            ), f"Generator in {self.map_fn} but not marked as such."
-            target_offset = self._generator_offsets[worker_id]
-            self._generator_offsets[worker_id] = 0
-            for idx, (sample_idx, inner_sample) in enumerate(
-                self._sample_index.iter_ctx(mapped_sample, sample_idx)
-            ):
-                # Skip other samples
-                if idx >= target_offset:
-                    self._generator_offsets[worker_id] = idx + 1
-                    yield add_sample_restore_key(
-                        inner_sample,
-                        sample_idx,
-                        idx,
-                        src=self,
-                    )
+            try:
+                # Do not increment the sample index, use previous index
+                with self._sample_index.ctx(self._sample_index.current_idx - 1) as sample_idx:
+                    mapped_sample = self.map_fn(sample)
+                assert isinstance(mapped_sample, Generator)
+                assert inspect.isgeneratorfunction(
+                    self.map_fn
+                ), f"Generator in {self.map_fn} but not marked as such."
+                target_offset = self._generator_offsets[worker_id]
+                self._generator_offsets[worker_id] = 0
+                for idx, (sample_idx, inner_sample) in enumerate(
+                    self._sample_index.iter_ctx(mapped_sample, sample_idx)
+                ):
+                    # Skip other samples
+                    if idx >= target_offset:
+                        self._generator_offsets[worker_id] = idx + 1
+                        yield add_sample_restore_key(
+                            inner_sample,
+                            sample_idx,
+                            idx,
+                            src=self,
+                        )
+            except SkipSample:
+                pass
+            except SYSTEM_EXCEPTIONS:
+                raise FatalSampleError.from_sample(sample)
+            except Exception as e:
+                self.error_handler(e, sample)
             self._generator_sample_keys[worker_id] = None
             self._generator_offsets[worker_id] = None
 
@@ -157,8 +164,6 @@ class MapDataset(BaseSingleWrapperDataset[T_sample, T_sample_out], Generic[T_sam
                             idx,
                             src=self,
                         )
-                    self._generator_sample_keys[worker_id] = None
-                    self._generator_offsets[worker_id] = None
                 else:
                     yield add_sample_restore_key(
                         mapped_sample,
@@ -171,6 +176,9 @@ class MapDataset(BaseSingleWrapperDataset[T_sample, T_sample_out], Generic[T_sam
                 raise FatalSampleError.from_sample(sample)
             except Exception as e:
                 self.error_handler(e, sample)
+            # Also if the generator failed, it must not be continued
+            self._generator_sample_keys[worker_id] = None
+            self._generator_offsets[worker_id] = None
 
     def save_state(self) -> MapState:
         state = MapState.extend(
-- 
2.43.0


From 178f2d3bb80c54a5ce1257590c5bd331336f3228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 05/69] fix: keys and generator state of BatchDataset after
 skipped or failed batches

The restore keys of a skipped or failed batch were kept for the next batch. The saved generator
keys aliased the list cleared later, a resumed generator used the index of the next batch and its
exceptions were not handled, and a generator which raised was run again after restoring.
---
 .../energon/wrappers/batch_dataset.py         | 61 +++++++++++--------
 1 file changed, 35 insertions(+), 26 deletions(-)

diff --git a/src/megatron/energon/wrappers/batch_dataset.py b/src/megatron/energon/wrappers/batch_dataset.py
index ab66da2..04cc588 100644
--- a/src/megatron/energon/wrappers/batch_dataset.py
+++ b/src/megatron/energon/wrappers/batch_dataset.py
@@ -135,30 +135,38 @@ class BatchDataset(
             sample_restore_keys = self._generator_sample_keys[worker_id]
             assert self._generator_offsets[worker_id] is not None
             batch = [self.dataset.restore_sample(inner_idx) for inner_idx in sample_restore_keys]
-            with self._sample_index.ctx(self._sample_index.current_idx) as sample_idx:
-                batch_sample = self.batcher(batch)
-            assert isinstance(batch_sample, Generator)
-            assert inspect.isgeneratorfunction(
-                self.batcher
-            ), f"Generator in {self.batcher} but not marked as such."
-            target_offset = self._generator_offsets[worker_id]
-            self._generator_offsets[worker_id] = 0
-            for batch_sub_idx, (sample_idx, inner_batch_sample) in enumerate(
-                self._sample_index.iter_ctx(batch_sample, sample_idx)
-            ):
-                # Skip other samples
-                if batch_sub_idx >= target_offset:
-                    self._generator_offsets[worker_id] = batch_sub_idx + 1
-                    yield set_sample_restore_key(
-                        inner_batch_sample,
-                        sample_idx,
-                        batch_sub_idx,
-                        *sample_restore_keys,
-                        src=self,
-                    )
+            try:
+                # Do not increment the sample index, use previous index
+                with self._sample_index.ctx(self._sample_index.current_idx - 1) as sample_idx:
+                    batch_sample = self.batcher(batch)
+                assert isinstance(batch_sample, Generator)
+                assert inspect.isgeneratorfunction(
+                    self.batcher
+                ), f"Generator in {self.batcher} but not marked as such."
+                target_offset = self._generator_offsets[worker_id]
+                self._generator_offsets[worker_id] = 0
+                for batch_sub_idx, (sample_idx, inner_batch_sample) in enumerate(
+                    self._sample_index.iter_ctx(batch_sample, sample_idx)
+                ):
+                    # Skip other samples
+                    if batch_sub_idx >= target_offset:
+                        self._generator_offsets[worker_id] = batch_sub_idx + 1
+                        yield set_sample_restore_key(
+                            inner_batch_sample,
+                            sample_idx,
+                            batch_sub_idx,
+                            *sample_restore_keys,
+                            src=self,
+                        )
+            except SkipSample:
+                pass
+            except SYSTEM_EXCEPTIONS:
+                raise FatalSampleError.from_sample(batch)
+            except Exception as e:
+                self.error_handler(e, batch)
             self._generator_sample_keys[worker_id] = None
             self._generator_offsets[worker_id] = None
-            batch.clear()
+            batch = []
             sample_restore_keys = []
 
         def flush():
@@ -169,7 +177,7 @@ class BatchDataset(
                     assert inspect.isgeneratorfunction(
                         self.batcher
                     ), f"Generator in {self.batcher} but not marked as such."
-                    self._generator_sample_keys[worker_id] = sample_restore_keys
+                    self._generator_sample_keys[worker_id] = tuple(sample_restore_keys)
                     self._generator_offsets[worker_id] = 0
                     for batch_sub_idx, (sample_idx, inner_batch_sample) in enumerate(
                         self._sample_index.iter_ctx(batch_sample, sample_idx)
@@ -182,18 +190,19 @@ class BatchDataset(
                             *sample_restore_keys,
                             src=self,
                         )
-                    self._generator_sample_keys[worker_id] = None
-                    self._generator_offsets[worker_id] = None
                 else:
                     set_sample_restore_key(batch_sample, sample_idx, *sample_restore_keys, src=self)
                     yield batch_sample
-                sample_restore_keys.clear()
             except SkipSample:
                 pass
             except SYSTEM_EXCEPTIONS:
                 raise FatalSampleError.from_sample(batch)
             except Exception as e:
                 self.error_handler(e, batch)
+            # Also if the batcher failed or skipped, the next batch starts from scratch
+            self._generator_sample_keys[worker_id] = None
+            self._generator_offsets[worker_id] = None
+            sample_restore_keys.clear()
 
         for sample in self.dataset:
             batch.append(sample)
-- 
2.43.0


From 5905fc11f9a8464263c8ac7130679d957f8c9397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 06/69] fix: length of BatchDataset for workers with one more
 sample

The remainder was computed from the number of batches instead of the number of samples.
---
 src/megatron/energon/wrappers/batch_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/batch_dataset.py b/src/megatron/energon/wrappers/batch_dataset.py
index 04cc588..f7c938a 100644
--- a/src/megatron/energon/wrappers/batch_dataset.py
+++ b/src/megatron/energon/wrappers/batch_dataset.py
@@ -118,7 +118,7 @@ class BatchDataset(
             n_batches_per_worker_floor += 1
         # Correct number of batches for the workers which yield 1 more sample (to balance)
         n_batches_per_worker_ceil = (n_samples_per_worker_floor + 1) // self.batch_size
-        if n_batches_per_worker_ceil % self.batch_size != 0 and not self.drop_last:
+        if (n_samples_per_worker_floor + 1) % self.batch_size != 0 and not self.drop_last:
             n_batches_per_worker_ceil += 1
 
         return (
-- 
2.43.0


From 020e8c11a8c61476577cfd35472099f378167b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 07/69] fix: save which dataset is active in ConcatDataset

On resume, all datasets finished before were iterated again.
---
 .../energon/wrappers/concat_dataset.py        | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/wrappers/concat_dataset.py b/src/megatron/energon/wrappers/concat_dataset.py
index 3efce37..5f3c2d4 100644
--- a/src/megatron/energon/wrappers/concat_dataset.py
+++ b/src/megatron/energon/wrappers/concat_dataset.py
@@ -21,12 +21,18 @@ class ConcatState(State):
     #: State of the inner datasets
     dataset_states: List[State]
 
+    #: Index of the dataset being iterated
+    active_dataset: int = 0
+
 
 @dataclass
 class ConcatMergedState(MergedState):
     #: State of the inner datasets
     dataset_states: List[MergedState]
 
+    #: Index of the dataset being iterated for each worker
+    active_dataset: Optional[List[int]] = None
+
 
 class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
     """
@@ -45,19 +51,23 @@ class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
         """Construct a concatenated dataset."""
         super().__init__(datasets, worker_config=worker_config)
         self.datasets = datasets
+        self._active_dataset = [0] * max(self.worker_config.num_workers, 1)
         assert len(self) >= 0, "Datasets must be finite."
 
     def __len__(self):
         return sum(len(dataset) for dataset in self.datasets)
 
     def __iter__(self) -> Iterator[T_sample]:
-        for ds_idx, dataset in enumerate(self.datasets):
-            for sample in dataset:
+        worker_idx = self.worker_config.rank_worker_id()
+        for ds_idx in range(self._active_dataset[worker_idx], len(self.datasets)):
+            self._active_dataset[worker_idx] = ds_idx
+            for sample in self.datasets[ds_idx]:
                 yield add_sample_restore_key(
                     sample,
                     ds_idx,
                     src=self,
                 )
+        self._active_dataset[worker_idx] = 0
 
     def worker_has_samples(self) -> bool:
         return any(dataset.worker_has_samples() for dataset in self.datasets)
@@ -65,6 +75,7 @@ class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
     def save_state(self) -> ConcatState:
         return ConcatState(
             dataset_states=[dataset.save_state() for dataset in self.datasets],
+            active_dataset=self._active_dataset[self.worker_config.rank_worker_id()],
         )
 
     def merge_states(self, states: List[ConcatState]) -> ConcatMergedState:
@@ -77,17 +88,23 @@ class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
                 )
                 for ds_idx, dataset in enumerate(self.datasets)
             ],
+            active_dataset=[0 if s is None else s.active_dataset for s in states],
         )
 
     def restore_state(self, state: Optional[ConcatMergedState]) -> None:
         if state is None:
             for dataset in self.datasets:
                 dataset.restore_state(None)
+            self._active_dataset = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, ConcatMergedState)
             assert len(self.datasets) == len(state.dataset_states)
             for dataset, dstate in zip(self.datasets, state.dataset_states):
                 dataset.restore_state(dstate)
+            if state.active_dataset is None:
+                self._active_dataset = [0] * max(self.worker_config.num_workers, 1)
+            else:
+                self._active_dataset = list(state.active_dataset)
 
     def can_restore_sample(self) -> bool:
         return all(dataset.can_restore_sample() for dataset in self.datasets)
-- 
2.43.0


From d0dc43cd519029a8b8ac4f7d4d64fde8046a659a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 08/69] fix: count only finished repetitions in RepeatDataset

A resumed RepeatDataset with a finite number of repeats skipped one repetition, and was empty
after the first epoch.
---
 src/megatron/energon/wrappers/repeat_dataset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/repeat_dataset.py b/src/megatron/energon/wrappers/repeat_dataset.py
index fd491cb..9a3cc90 100644
--- a/src/megatron/energon/wrappers/repeat_dataset.py
+++ b/src/megatron/energon/wrappers/repeat_dataset.py
@@ -73,9 +73,10 @@ class RepeatDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_samp
                     )
         else:
             for offset in range(self._offset[worker_idx], self.repeats):
-                self._offset[worker_idx] = offset + 1
+                self._offset[worker_idx] = offset
                 for sample in self.dataset:
                     yield sample
+                self._offset[worker_idx] = offset + 1
                 if self.worker_config.should_log(level=2):
                     self.worker_config.worker_log(
                         {
@@ -86,6 +87,8 @@ class RepeatDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_samp
                             "repeats": self.repeats,
                         }
                     )
+            # All repetitions are done, start over with the next iteration
+            self._offset[worker_idx] = 0
 
     def save_state(self) -> RepeatState:
         return RepeatState.extend(
-- 
2.43.0


From 4ed6201e460883cc1356db6cdf42c21704bc8765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 09/69] fix: do not continue the previous iterator in
 EpochizeDataset after restore_state

---
 src/megatron/energon/wrappers/epochize_dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/megatron/energon/wrappers/epochize_dataset.py b/src/megatron/energon/wrappers/epochize_dataset.py
index 0dcc326..99770e1 100644
--- a/src/megatron/energon/wrappers/epochize_dataset.py
+++ b/src/megatron/energon/wrappers/epochize_dataset.py
@@ -124,6 +124,8 @@ class EpochizeDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_sa
 
     def restore_state(self, state: Optional[EpochizeMergedState]) -> None:
         super().restore_state(state)
+        # The iterator belongs to the previous state
+        self._active_iter = None
         if state is None:
             self._offset = [0] * max(self.worker_config.num_workers, 1)
         else:
-- 
2.43.0


From 86794d12c2e047acbae4d1f5ec53af033fdb2ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 10/69] fix: restore key of BlendDataset if a worker has no
 samples of a dataset

The index was relative to the non-empty datasets, but used as index of all datasets for restoring.
---
 src/megatron/energon/wrappers/blend_dataset.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/megatron/energon/wrappers/blend_dataset.py b/src/megatron/energon/wrappers/blend_dataset.py
index 2ab6d3a..6edfd18 100644
--- a/src/megatron/energon/wrappers/blend_dataset.py
+++ b/src/megatron/energon/wrappers/blend_dataset.py
@@ -78,10 +78,11 @@ class BlendDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
 
     def __iter__(self) -> Iterator[T_sample]:
         assert self.worker_has_samples(), "Cannot blend all empty datasets"
-        datasets, weights = zip(
+        # Keep the index within all datasets for restoring the samples
+        ds_idxs, datasets, weights = zip(
             *[
-                (dataset, weight)
-                for dataset, weight in self.dataset_weights
+                (ds_idx, dataset, weight)
+                for ds_idx, (dataset, weight) in enumerate(self.dataset_weights)
                 if dataset.worker_has_samples()
             ]
         )
@@ -90,9 +91,9 @@ class BlendDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
         probs = weights / weights.sum()
 
         while True:
-            ds_idx = self._worker_rng.choice_idx(probs=probs)
-            sample = next(dataset_iters[ds_idx])
-            yield add_sample_restore_key(sample, ds_idx, src=self)
+            idx = self._worker_rng.choice_idx(probs=probs)
+            sample = next(dataset_iters[idx])
+            yield add_sample_restore_key(sample, ds_idxs[idx], src=self)
 
     def worker_has_samples(self) -> bool:
         return any(dataset.worker_has_samples() for dataset, _weight in self.dataset_weights)
-- 
2.43.0


From a728b9433e06d7dc0cf2e3a8a3017b94a254661f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 11/69] fix: LimitDataset does not fetch a sample beyond the
 limit

The additional sample was not fetched when resuming at the end of the epoch, thus user functions
and random number generators behaved differently after restoring.
---
 src/megatron/energon/wrappers/limit_dataset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/wrappers/limit_dataset.py b/src/megatron/energon/wrappers/limit_dataset.py
index c32f6c6..6fc5b02 100644
--- a/src/megatron/energon/wrappers/limit_dataset.py
+++ b/src/megatron/energon/wrappers/limit_dataset.py
@@ -86,9 +86,10 @@ class LimitDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_sampl
         )
         # Only iterate self.dataset if there are samples to iterate
         if len(offset_range) > 0:
-            for sample, offset in zip(
-                self.dataset,
+            # Iterate the range first, not to fetch another sample when the limit is reached
+            for offset, sample in zip(
                 offset_range,
+                self.dataset,
             ):
                 self._current_offset[worker_id] = offset + 1
                 yield sample
-- 
2.43.0


From d16fe78474c469fcfd74c3c8c17cb92323487d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 12/69] fix: WorkerRng.restore_state(None) resets to the
 initial state

---
 src/megatron/energon/rng.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/megatron/energon/rng.py b/src/megatron/energon/rng.py
index 6fdf81d..aeb4032 100644
--- a/src/megatron/energon/rng.py
+++ b/src/megatron/energon/rng.py
@@ -111,6 +111,7 @@ class WorkerRng:
 
     def restore_state(self, state: Optional[WorkerRngMergedState]) -> None:
         if state is None:
+            self._rng = None
             self._restore_states = None
         else:
             assert isinstance(state, WorkerRngMergedState)
-- 
2.43.0


From ff403bf3826af3bea26f3029c61dafd3c22b8c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 13/69] fix: resume ShuffleBufferDataset while draining the
 buffer

If the (finite) source was exhausted when saving, the resumed iteration restarted the source and
mixed the remaining samples with the next epoch.
---
 .../energon/wrappers/shuffle_buffer_dataset.py  | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/wrappers/shuffle_buffer_dataset.py b/src/megatron/energon/wrappers/shuffle_buffer_dataset.py
index c18594f..0db75d2 100644
--- a/src/megatron/energon/wrappers/shuffle_buffer_dataset.py
+++ b/src/megatron/energon/wrappers/shuffle_buffer_dataset.py
@@ -25,12 +25,15 @@ T_sample = TypeVar("T_sample")
 class ShuffleBufferState(BaseSingleWrapperState):
     buffer: SampleBufferState
     rng: WorkerRngState
+    #: True, if the source is exhausted and the buffer is being drained
+    draining: bool = False
 
 
 @dataclass
 class ShuffleBufferMergedState(BaseSingleWrapperMergedState):
     buffer: SampleBufferMergedState
     rng: WorkerRngMergedState
+    draining: Optional[List[bool]] = None
 
 
 class ShuffleBufferDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_sample]):
@@ -53,14 +56,16 @@ class ShuffleBufferDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic
         self.size = size
         self._worker_rng = WorkerRng(self.worker_config)
         self._active_buffer = SavableSampleBuffer(dataset, worker_config=worker_config)
+        self._draining = [False] * max(self.worker_config.num_workers, 1)
 
     def __len__(self) -> int:
         return len(self.dataset)
 
     def __iter__(self) -> Iterator[T_sample]:
+        worker_idx = self.worker_config.rank_worker_id()
         self._active_buffer.worker_start()
         it = iter(self._active_buffer.append_iter())
-        while True:
+        while not self._draining[worker_idx]:
             if len(self._active_buffer) >= self.size:
                 pop_idx = self._worker_rng.randbelow(len(self._active_buffer))
                 yield self._active_buffer.pop(pop_idx)
@@ -68,16 +73,18 @@ class ShuffleBufferDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic
                 try:
                     next(it)
                 except StopIteration:
-                    break
+                    self._draining[worker_idx] = True
         while len(self._active_buffer) > 0:
             pop_idx = self._worker_rng.randbelow(len(self._active_buffer))
             yield self._active_buffer.pop(pop_idx)
+        self._draining[worker_idx] = False
 
     def save_state(self) -> ShuffleBufferState:
         return ShuffleBufferState.extend(
             super().save_state(),
             rng=self._worker_rng.save_state(),
             buffer=self._active_buffer.save_state(),
+            draining=self._draining[self.worker_config.rank_worker_id()],
         )
 
     def merge_states(self, states: List[Optional[ShuffleBufferState]]) -> ShuffleBufferMergedState:
@@ -88,6 +95,7 @@ class ShuffleBufferDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic
             buffer=self._active_buffer.merge_states(
                 [None if s is None else s.buffer for s in states]
             ),
+            draining=[False if s is None else s.draining for s in states],
         )
 
     def restore_state(self, state: Optional[ShuffleBufferMergedState]) -> None:
@@ -95,10 +103,15 @@ class ShuffleBufferDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic
         if state is None:
             self._active_buffer.restore_state(None)
             self._worker_rng.restore_state(None)
+            self._draining = [False] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, ShuffleBufferMergedState)
             self._active_buffer.restore_state(state.buffer)
             self._worker_rng.restore_state(state.rng)
+            if state.draining is None:
+                self._draining = [False] * max(self.worker_config.num_workers, 1)
+            else:
+                self._draining = list(state.draining)
 
     def restore_sample(self, index: Tuple[Union[str, int, tuple], ...]) -> T_sample:
         return self._active_buffer.restore_sample(index)
-- 
2.43.0


From 866929b58b055990fb2e34e0c8fa8776b1de010d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 14/69] fix: resume GroupBatchDataset while flushing the last
 buckets

If the source was exhausted when saving, the resumed iteration restarted the source and mixed the
remaining samples with the next epoch.
---
 .../energon/wrappers/group_batch_dataset.py       | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/group_batch_dataset.py b/src/megatron/energon/wrappers/group_batch_dataset.py
index 1117873..ae84636 100644
--- a/src/megatron/energon/wrappers/group_batch_dataset.py
+++ b/src/megatron/energon/wrappers/group_batch_dataset.py
@@ -63,6 +63,8 @@ class GroupBatchState(BaseSingleWrapperState):
     bucket_sample_index: int
     batch_sample_index: int
     buckets: List[BucketState]
+    #: True, if the source is exhausted and the buckets are being flushed
+    flushing: bool = False
 
 
 @dataclass
@@ -70,6 +72,7 @@ class GroupBatchMergedState(BaseSingleWrapperMergedState):
     bucket_sample_index: List[int]
     batch_sample_index: List[int]
     buckets: List[List[BucketMergedState]]
+    flushing: Optional[List[bool]] = None
 
 
 @dataclass
@@ -134,6 +137,7 @@ class GroupBatchDataset(
         self._group_key_sample_index = SampleIndex(worker_config, src=self)
         self._batch_sample_index = SampleIndex(worker_config, src=self)
         self._buckets = [{} for _ in range(max(self.worker_config.num_workers, 1))]
+        self._flushing = [False] * max(self.worker_config.num_workers, 1)
         assert not inspect.isgeneratorfunction(
             batcher
         ), f"Batcher {batcher} must not be a generator function for grouped batching."
@@ -175,7 +179,7 @@ class GroupBatchDataset(
                 self.error_handler(e, batch_items)
 
         # Add samples to the buckets
-        for sample in self.dataset:
+        for sample in () if self._flushing[worker_idx] else self.dataset:
             try:
                 with self._group_key_sample_index.ctx():
                     bucket_key, batch_size = self.sample_group_key(sample)
@@ -206,12 +210,14 @@ class GroupBatchDataset(
             if len(bucket.samples) >= bucket.batch_size:
                 yield from flush(bucket)
         # Flush out last samples
+        self._flushing[worker_idx] = True
         if not self.drop_last:
             for bucket in buckets.values():
                 if len(bucket.samples) > 0:
                     yield from flush(bucket)
         # Clear the buckets
         self._buckets[worker_idx].clear()
+        self._flushing[worker_idx] = False
 
     def save_state(self) -> GroupBatchState:
         rank = self.worker_config.rank_worker_id()
@@ -231,6 +237,7 @@ class GroupBatchDataset(
                 if self._buckets[rank] is not None
                 else []
             ),
+            flushing=self._flushing[rank],
         )
 
     def merge_states(self, states: List[Optional[GroupBatchState]]) -> GroupBatchMergedState:
@@ -244,6 +251,7 @@ class GroupBatchDataset(
                 [0 if s is None else s.batch_sample_index for s in states]
             ),
             buckets=[(state.buckets if state else []) for state in states],
+            flushing=[(state.flushing if state else False) for state in states],
         )
 
     def restore_state(self, state: Optional[GroupBatchMergedState]) -> None:
@@ -252,8 +260,13 @@ class GroupBatchDataset(
             self._group_key_sample_index.restore_state(None)
             self._batch_sample_index.restore_state(None)
             self._buckets = [{} for _ in range(max(self.worker_config.num_workers, 1))]
+            self._flushing = [False] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, GroupBatchMergedState)
+            if state.flushing is None:
+                self._flushing = [False] * max(self.worker_config.num_workers, 1)
+            else:
+                self._flushing = list(state.flushing)
             self._group_key_sample_index.restore_state(state.bucket_sample_index)
             self._batch_sample_index.restore_state(state.batch_sample_index)
             for worker_idx, (buckets_state, buckets) in enumerate(
-- 
2.43.0


From 2999d0ed71e7d49a305ee7dc6f2aab4b3cbaa3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 15/69] fix: PackingDataset state of a worker which did not
 start yet

It was restored as two empty packs, which were passed to the final packer.
---
 src/megatron/energon/wrappers/packing_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/packing_dataset.py b/src/megatron/energon/wrappers/packing_dataset.py
index eaa8806..f548dc2 100644
--- a/src/megatron/energon/wrappers/packing_dataset.py
+++ b/src/megatron/energon/wrappers/packing_dataset.py
@@ -295,7 +295,7 @@ class PackingDataset(
             pre_packing_buffer=self._pre_packing_buffer.merge_states(
                 [None if s is None else s.pre_packing_buffer for s in states]
             ),
-            pre_packing_lengths=[[0, 0] if s is None else s.pre_packing_lengths for s in states],
+            pre_packing_lengths=[[] if s is None else s.pre_packing_lengths for s in states],
             final_packing_index=self._final_packing_sample_index.merge_states(
                 [0 if state is None else state.final_packing_index for state in states]
             ),
-- 
2.43.0


From 6d245e499fcafea2d26ca8809de6b860f495e87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 16/69] fix: resume PackingDataset while yielding the last
 packs

If the source was exhausted when saving, the resumed iteration restarted the source instead of
finishing the epoch.
---
 .../energon/wrappers/packing_dataset.py       | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/megatron/energon/wrappers/packing_dataset.py b/src/megatron/energon/wrappers/packing_dataset.py
index f548dc2..9f1b7d9 100644
--- a/src/megatron/energon/wrappers/packing_dataset.py
+++ b/src/megatron/energon/wrappers/packing_dataset.py
@@ -46,6 +46,8 @@ class PackingState(BaseSingleWrapperState):
     pre_packing_lengths: List[int]
     pre_packing_index: int
     final_packing_index: int
+    #: True, if the source is exhausted and the remaining packs are being yielded
+    stopping: bool = False
 
 
 @dataclass
@@ -55,6 +57,7 @@ class PackingMergedState(BaseSingleWrapperMergedState):
     pre_packing_lengths: List[List[int]]
     pre_packing_index: List[int]
     final_packing_index: List[int]
+    stopping: Optional[List[bool]] = None
 
 
 class PackingDataset(
@@ -136,6 +139,7 @@ class PackingDataset(
         self._pre_packing_lengths = [[] for _ in range(max(worker_config.num_workers, 1))]
         self._pre_packing_sample_index = SampleIndex(worker_config, src=self)
         self._final_packing_sample_index = SampleIndex(worker_config, src=self)
+        self._stopping = [False] * max(worker_config.num_workers, 1)
 
     def __len__(self):
         """The real length is unknown, since it depends on the packing function.
@@ -241,8 +245,7 @@ class PackingDataset(
                 self.error_handler(e, pack)
 
         # Main loop:
-        stopping = False
-        while not stopping:
+        while not self._stopping[worker_idx]:
 
             pre_pack_round = 0
             while len(pre_packing_lengths) == 0:
@@ -252,7 +255,7 @@ class PackingDataset(
                     # But yield the remaining packs first.
                     if len(self._reading_buffer) > 0:
                         next_pre_pack()
-                    stopping = True
+                    self._stopping[worker_idx] = True
                     break
 
                 assert len(self._pre_packing_buffer) == 0
@@ -264,7 +267,7 @@ class PackingDataset(
                 if pre_pack_round > 10:
                     raise RuntimeError("Pre packer did not yield any packs after 10 rounds.")
 
-            if not stopping:
+            if not self._stopping[worker_idx]:
                 yield from next_final_pack()
             else:
                 break
@@ -272,6 +275,7 @@ class PackingDataset(
         # Yield the remaining packs, flushing the collecting buffer
         while len(pre_packing_lengths) > 0:
             yield from next_final_pack()
+        self._stopping[worker_idx] = False
 
     def save_state(self) -> PackingState:
         return PackingState.extend(
@@ -283,6 +287,7 @@ class PackingDataset(
             ),
             final_packing_index=self._final_packing_sample_index.save_state(),
             pre_packing_index=self._pre_packing_sample_index.save_state(),
+            stopping=self._stopping[self.worker_config.rank_worker_id()],
         )
 
     def merge_states(self, states: List[PackingState]) -> PackingMergedState:
@@ -302,6 +307,7 @@ class PackingDataset(
             pre_packing_index=self._pre_packing_sample_index.merge_states(
                 [0 if state is None else state.pre_packing_index for state in states]
             ),
+            stopping=[False if s is None else s.stopping for s in states],
         )
 
     def restore_state(self, state: Optional[PackingMergedState]) -> None:
@@ -312,6 +318,7 @@ class PackingDataset(
             self._pre_packing_lengths = [[] for _ in range(max(self.worker_config.num_workers, 1))]
             self._pre_packing_sample_index.restore_state(None)
             self._final_packing_sample_index.restore_state(None)
+            self._stopping = [False] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, PackingMergedState)
             self._reading_buffer.restore_state(state.reading_buffer)
@@ -319,6 +326,10 @@ class PackingDataset(
             self._pre_packing_lengths = state.pre_packing_lengths
             self._pre_packing_sample_index.restore_state(state.pre_packing_index)
             self._final_packing_sample_index.restore_state(state.final_packing_index)
+            if state.stopping is None:
+                self._stopping = [False] * max(self.worker_config.num_workers, 1)
+            else:
+                self._stopping = list(state.stopping)
 
     def can_restore_sample(self) -> bool:
         # Cannot really verify if the returned elements contain a __restore_key__.
-- 
2.43.0


From 11a7f45dbd2defa2fa0d1b4a1451577664f61943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 17/69] fix: save the sample index without worker processes

The sample index, as provided to the user functions and in the restore keys, restarted at 0 after
resuming a loader with num_workers=0.
---
 src/megatron/energon/savable_loader.py | 31 +++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index ca21e48..adcdbbe 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -108,14 +108,33 @@ class SimpleSavableDatasetWrapper(SavableDataset[Tuple[int, int, T]], Generic[T]
                 if worker_active:
                     self.worker_config.worker_deactivate()
 
-    def save_state(self) -> State:
-        return self.dataset.save_state()
+    def save_state(self) -> SimpleSavableDatasetState:
+        return SimpleSavableDatasetState(
+            dataset_type=type(self).__name__,
+            dataset_state=self.dataset.save_state(),
+            sample_index=self._sample_index[self.worker_config.rank_worker_id()],
+        )
 
-    def merge_states(self, states: List[State]) -> MergedState:
-        return self.dataset.merge_states(states)
+    def merge_states(
+        self, states: List[Optional[SimpleSavableDatasetState]]
+    ) -> SimpleSavableDatasetMergedState:
+        return SimpleSavableDatasetMergedState(
+            dataset_type=type(self).__name__,
+            dataset_state=self.dataset.merge_states(
+                [None if s is None else s.dataset_state for s in states]
+            ),
+            sample_indexes=[0 if s is None else s.sample_index for s in states],
+        )
 
-    def restore_state(self, state: MergedState):
-        self.dataset.restore_state(state)
+    def restore_state(self, state: Optional[SimpleSavableDatasetMergedState]):
+        if state is None:
+            self.dataset.restore_state(None)
+            self._sample_index = [0] * max(self.worker_config.num_workers, 1)
+        else:
+            assert isinstance(state, SimpleSavableDatasetMergedState)
+            assert state.dataset_type == type(self).__name__
+            self.dataset.restore_state(state.dataset_state)
+            self._sample_index = list(state.sample_indexes)
         self._state_restored = True
 
     def can_restore_sample(self) -> bool:
-- 
2.43.0


From 3c80389cbc1fb8057ff277b1c88671c09696428a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:22 +0000
Subject: [PATCH 18/69] fix: the first worker after restoring is the one with
 the worker_id_offset

With at least 3 workers, restoring continued with the wrong worker, i.e. in a different order.
---
 src/megatron/energon/worker.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/megatron/energon/worker.py b/src/megatron/energon/worker.py
index ba5dc7c..d1f6aed 100644
--- a/src/megatron/energon/worker.py
+++ b/src/megatron/energon/worker.py
@@ -164,9 +164,7 @@ class WorkerConfig:
         if worker_info is None:
             return self.worker_id_offset
         assert worker_info.num_workers == self.num_workers
-        return (
-            worker_info.id + worker_info.num_workers - self.worker_id_offset
-        ) % worker_info.num_workers
+        return (worker_info.id + self.worker_id_offset) % worker_info.num_workers
 
     def assert_worker(self):
         """Checks if the current process is a worker (if configured so), and that the workers are
-- 
2.43.0


From f8f35c3ec759ebd3d001378f6e98bc7c80505a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:22 +0000
Subject: [PATCH 19/69] fix: worker sample counters of SavableDataLoader before
 the first sample

Saving before each worker yielded one sample skipped the first sample of the remaining workers.
---
 src/megatron/energon/savable_loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index adcdbbe..8503c43 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -750,7 +750,8 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
         else:
             dataset = SimpleSavableDatasetWrapper(dataset, self.worker_config)
 
-        self._worker_sample_counters = [0] * max(self.worker_config.num_workers, 1)
+        # No sample was retrieved yet
+        self._worker_sample_counters = [-1] * max(self.worker_config.num_workers, 1)
 
         kwargs = {}
         if self.worker_config.num_workers > 0:
-- 
2.43.0


From b778c544c825898b97d37f26cdac65919d9f8434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:22 +0000
Subject: [PATCH 20/69] fix: saving after restoring with SavableDataLoader

Saving after restoring, before each worker yielded a sample, used wrong sample counters (or lost
the state at all, if not iterated yet). Iterating changed the state object passed by the user.
---
 src/megatron/energon/savable_loader.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 8503c43..4d60261 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -1,6 +1,7 @@
 # Copyright (c) 2024, NVIDIA CORPORATION.
 # SPDX-License-Identifier: BSD-3-Clause
 
+import copy
 import gc
 import multiprocessing
 import queue
@@ -701,6 +702,8 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
     _global_sample_idx: int = 0
     #: Current iterator index of the last yielded sample
     _sample_idx: int = 0
+    #: The state which was restored, if the workers did not start yet
+    _restored_state: Optional["SavableDataLoaderState"] = None
 
     def __init__(
         self,
@@ -912,8 +915,8 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
             assert self._next_worker_id == 0
             merged_states = self.dataset.merge_states(worker_states)
         elif self._persistent_iterator is None:
-            # Workers configured, but not started yet -> Initial state
-            return None
+            # Workers configured, but not started yet -> Initial state, or the restored state
+            return copy.deepcopy(self._restored_state)
         else:
             # Fetch from worker processes
             worker_states = self._worker_command("get_checkpoint", self._worker_sample_counters)
@@ -941,11 +944,21 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
             # Assume initial state
             return
         assert isinstance(state, SavableDataLoaderState)
+        # The state shall not change when iterating
+        state = copy.deepcopy(state)
         if isinstance(self.dataset, SavableDataset):
             self.dataset.restore_state(state.dataset_state)
         else:
             assert isinstance(self.dataset, SavableDatasetWrapper)
             assert isinstance(state.dataset_state, SavableDatasetMergedCheckpoint)
+            self._restored_state = state
+            self._next_worker_id = state.next_worker_id
+            self._worker_sample_counters = [
+                sample_index + offset - 1
+                for sample_index, offset in zip(
+                    state.dataset_state.state.sample_index, state.dataset_state.offset
+                )
+            ]
             self.dataset.restore_checkpoint(state.dataset_state, worker_offset=state.next_worker_id)
         # if len(self.cmd_queues) > 0:
         #     self._worker_command("restore_state", state["dataset"])
-- 
2.43.0


From 535c0423ca8a227d046bfbce2319c5aec28d7d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:22 +0000
Subject: [PATCH 21/69] fix: seed of restored workers without a checkpoint

The seed was the one of the physical worker, not of the worker it represents after restoring.
---
 src/megatron/energon/savable_loader.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 4d60261..353ad07 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -505,22 +505,18 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
     def _restore_state(self, state: SavableDatasetMergedState) -> None:
         """Restores the internal worker state"""
         assert torch.utils.data.get_worker_info() is not None, "Can only restore in worker process"
-        if state.torch_rng[self._worker_id] is None:
-            torch.manual_seed(torch.initial_seed())
-        else:
+        # Worker did not start before saving: Seed as the worker it represents
+        SystemRng.seed(self.worker_config.worker_seed())
+        if state.torch_rng[self._worker_id] is not None:
             torch.set_rng_state(
                 torch.frombuffer(
                     bytearray(state.torch_rng[self._worker_id]), dtype=torch.uint8
                 ).clone()
             )
-        if state.numpy_rng[self._worker_id] is None:
-            np.random.seed(torch.initial_seed() & 0xFFFFFFFF)
-        else:
+        if state.numpy_rng[self._worker_id] is not None:
             np_tp, np_state, *np_rng = state.numpy_rng[self._worker_id]
             np.random.set_state((np_tp, np.frombuffer(np_state, dtype=np.uint32), *np_rng))
-        if state.rng[self._worker_id] is None:
-            random.seed(torch.initial_seed() & 0xFFFFFFFF)
-        else:
+        if state.rng[self._worker_id] is not None:
             random.setstate(state.rng[self._worker_id])
         self._sample_index = state.sample_index[self._worker_id]
         self._last_checkpoints = [
-- 
2.43.0


From 982800cdceb02652ecc1c72daf7ae5e32881f431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:22 +0000
Subject: [PATCH 22/69] fix: saving close to the end of an epoch with worker
 processes

The checkpoint at the end of the epoch may have removed the only checkpoint before the last
retrieved sample ("No checkpoint found"). If a worker already finished its epoch, but the main
process did not, the restored worker started with the next epoch.
---
 src/megatron/energon/savable_loader.py | 30 +++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 353ad07..3fa9aab 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -225,6 +225,8 @@ class SavableCheckpoint:
     checkpoint_time: float
     #: Index of the next sample to be returned from the dataset after restoring the checkpoint
     sample_index: int
+    #: Number of epochs the worker finished when the checkpoint was created
+    epoch: int = 0
 
 
 @dataclass
@@ -275,6 +277,7 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
     _result_queues: List[torch.multiprocessing.Queue]
 
     _sample_index: int = 0
+    _epoch: int = 0
     _worker_offset: int = 0
     _last_checkpoints: List[SavableCheckpoint]
     _restore_from: Optional[Any] = None
@@ -438,10 +441,12 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
                             self.worker_config.worker_deactivate()
 
                     # If the dataset is empty, don't try again and again
-                    if not dataset_has_samples:
+                    # If all samples are skipped, this is the end of the epoch
+                    if not dataset_has_samples or self._skip_samples[self._worker_id] == 0:
                         break
         finally:
             # print(f"{id(self)}:{multiprocessing.current_process().ident} Worker iter closing")
+            self._epoch += 1
             # Always store a final checkpoint (it's likely to be saved)
             self._store_checkpoint(force=True)
 
@@ -471,9 +476,13 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
                     dataset_state=self.dataset.save_state(),
                     checkpoint_time=time.perf_counter(),
                     sample_index=self._sample_index,
+                    epoch=self._epoch,
                 )
             )
-            if len(self._last_checkpoints) > self.n_checkpoints:
+            # The forced checkpoint may be stored any time after the previous one. Thus the samples
+            # of the previous checkpoints may still not be retrieved by the main process.
+            n_keep = self.n_checkpoints + 1 if force else self.n_checkpoints
+            while len(self._last_checkpoints) > n_keep:
                 self._last_checkpoints.pop(0)
 
     def _save_state(self) -> SavableDatasetState:
@@ -525,22 +534,27 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
                 dataset_state=self.dataset.save_state(),
                 checkpoint_time=time.perf_counter(),
                 sample_index=self._sample_index,
+                epoch=self._epoch,
             )
         ]
 
-    def get_checkpoint(self, last_sample_indexes: List[int]) -> SavableDatasetCheckpoint:
+    def get_checkpoint(
+        self, last_sample_indexes: List[int], epoch: int
+    ) -> SavableDatasetCheckpoint:
         """
         Get a checkpoint given the last emitted sample indexes for all workers.
 
         Args:
             last_sample_indexes: The last emitted sample indexes for all workers.
+            epoch: The number of epochs finished in the main process. The worker may already have
+                finished an epoch, while the main process did not.
 
         Returns:
             The found checkpoint including the offset to the next sample index
         """
         sample_index = last_sample_indexes[self._worker_id] + 1
         for checkpoint in reversed(self._last_checkpoints):
-            if checkpoint.sample_index <= sample_index:
+            if checkpoint.sample_index <= sample_index and checkpoint.epoch <= epoch:
                 # print(f"Found cp for {sample_index} at {checkpoint.sample_index}")
                 return SavableDatasetCheckpoint(
                     dataset_state=checkpoint.dataset_state,
@@ -698,6 +712,8 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
     _global_sample_idx: int = 0
     #: Current iterator index of the last yielded sample
     _sample_idx: int = 0
+    #: Number of epochs finished
+    _epoch: int = 0
     #: The state which was restored, if the workers did not start yet
     _restored_state: Optional["SavableDataLoaderState"] = None
 
@@ -857,6 +873,8 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
                     self.iter_idx += 1
                     return sample
                 except StopIteration:
+                    if not self.finished:
+                        outerself._epoch += 1
                     self.finished = True
                     outerself._next_worker_id = 0
                     if outerself.worker_config.should_log(level=1):
@@ -915,7 +933,9 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
             return copy.deepcopy(self._restored_state)
         else:
             # Fetch from worker processes
-            worker_states = self._worker_command("get_checkpoint", self._worker_sample_counters)
+            worker_states = self._worker_command(
+                "get_checkpoint", self._worker_sample_counters, self._epoch
+            )
             merged_states = self.dataset.merge_checkpoints(worker_states)
 
         # Merge the states
-- 
2.43.0


From 0d9ab7b03a960d4edffa035050e6ebb59537721a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:22 +0000
Subject: [PATCH 23/69] fix: restore_state with src_rank for the other ranks

The other ranks pass None as state, but then did not participate in receiving their state.
---
 src/megatron/energon/savable_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 3fa9aab..82e4d3d 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -1037,7 +1037,7 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
         if (
             torch.distributed.is_available()
             and torch.distributed.is_initialized()
-            and isinstance(state, list)
+            and (src_rank is not None or isinstance(state, list))
         ):
             if src_rank is None:
                 # All ranks have the state
-- 
2.43.0


From 0db5ce99d5bc7c4b208a11100397396f28d33880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:50 +0000
Subject: [PATCH 24/69] fix: data returned by RetryReadStream after short or
 failed reads

After a short read, only the last part of the data was returned, and more than the missing bytes
were read. A failing open() raised AttributeError instead of being retried, too many short reads
returned None, and a failing seek() left the file at the previous position.
---
 src/megatron/energon/retry_stream.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/megatron/energon/retry_stream.py b/src/megatron/energon/retry_stream.py
index 0ca24d2..3d099b6 100644
--- a/src/megatron/energon/retry_stream.py
+++ b/src/megatron/energon/retry_stream.py
@@ -36,29 +36,29 @@ class RetryReadStream(BinaryIO):
 
     def read(self, n: int = -1) -> bytes:
         buf = b""
-        for retry in range(10):
+        retry = 0
+        while True:
             try:
                 if self._file is None:
                     self._file = self._path.open("rb")
                     self._file.seek(self._pos)
-                res = self._file.read(n)
+                # Only read what is still missing
+                res = self._file.read(n if n == -1 else n - len(buf))
                 self._pos += len(res)
                 buf += res
-                if (
-                    (n == -1 and self._pos >= self._size)
-                    or len(buf) == n
-                    or self._pos >= self._size
-                ):
-                    return res
+                if len(buf) == n or self._pos >= self._size:
+                    return buf
+                if len(res) == 0:
+                    raise IOError(f"Unexpected end of file at {self._pos} of {self._size}")
             except IOError:
                 try:
-                    self._file.close()
+                    self.close()
                 except IOError:
                     pass
                 self._file = None
-                if retry == 9:
+                retry += 1
+                if retry == 10:
                     raise
-                continue
 
     def seek(self, offset: int, whence: int = 0) -> int:
         if whence == 0:
@@ -75,7 +75,8 @@ class RetryReadStream(BinaryIO):
             if self._file is not None:
                 self._file.seek(offset)
         except IOError:
-            pass
+            # Reopen at the correct position with the next read
+            self._file = None
         return self._pos
 
     def tell(self) -> int:
-- 
2.43.0


From 8fc29fb2ba835a18b5ae77289f6a74233d5f9dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:50 +0000
Subject: [PATCH 25/69] fix: sample index within the shard if samples are
 excluded

Excluded samples were not counted, thus the restore key of the following samples pointed to the
wrong sample.
---
 .../energon/flavors/webdataset/single_shard_reader.py      | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/megatron/energon/flavors/webdataset/single_shard_reader.py b/src/megatron/energon/flavors/webdataset/single_shard_reader.py
index 519ea42..5cfd44a 100644
--- a/src/megatron/energon/flavors/webdataset/single_shard_reader.py
+++ b/src/megatron/energon/flavors/webdataset/single_shard_reader.py
@@ -42,6 +42,8 @@ class SingleShardReader:
     _cur_base_name: Optional[str] = None
     _cur_ext: Optional[str] = None
     _cur_key: Optional[str] = None
+    # The base name of the last tar entry, including excluded samples
+    _last_base_name: Optional[str] = None
 
     def __init__(
         self,
@@ -138,7 +140,12 @@ class SingleShardReader:
             self._cur_base_name, self._cur_ext = m.groups()
 
             self._cur_key = f"{self.shard_state.shard.name}/{self._cur_base_name}"
+            is_next_sample = self._cur_base_name != self._last_base_name
+            self._last_base_name = self._cur_base_name
             if self._cur_key in self.exclude:
+                if is_next_sample:
+                    # The offset is the index in the shard, thus also count excluded samples
+                    self.shard_state.offset += 1
                 continue
             return
 
-- 
2.43.0


From b76b04561cfe7dfa64b13a04fb142a2a4471db46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:50 +0000
Subject: [PATCH 26/69] fix: do not drop shards due to floating point errors of
 the split ratios

E.g. 0.7, 0.2 and 0.1 for 10 shards assigned only 9 shards.
---
 src/megatron/energon/flavors/webdataset/prepare.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/flavors/webdataset/prepare.py b/src/megatron/energon/flavors/webdataset/prepare.py
index c72776d..c82b73c 100644
--- a/src/megatron/energon/flavors/webdataset/prepare.py
+++ b/src/megatron/energon/flavors/webdataset/prepare.py
@@ -235,7 +235,8 @@ class WebdatasetPreparator:
             split_offset = 0
             for split_part, split_ratio in split_parts_ratio:
                 split_total += split_ratio
-                split_end = int(len(shards) * split_total)
+                # The sum of the ratios is not exact, do not round down e.g. 6.999999 to 6
+                split_end = int(len(shards) * split_total + 1e-6)
                 split_shards[split_part] = [shard.name for shard in shards[split_offset:split_end]]
                 split_offset = split_end
         else:
-- 
2.43.0


From 6cc343fb6aae4749a83a317d02bdade93fc602eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:50 +0000
Subject: [PATCH 27/69] fix: do not lose the last sample when slicing shards

With max_samples_per_sequence, the end of the last slice was rounded down due to floating point
errors, e.g. for 61 samples in slices of 9.
---
 src/megatron/energon/flavors/webdataset/sharder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/flavors/webdataset/sharder.py b/src/megatron/energon/flavors/webdataset/sharder.py
index fb35bf9..6ef4aba 100644
--- a/src/megatron/energon/flavors/webdataset/sharder.py
+++ b/src/megatron/energon/flavors/webdataset/sharder.py
@@ -24,11 +24,11 @@ class Sharder:
         ):
             # Split the shard into slices of max_samples_per_sequence (more or less)
             slice_count = max(round((end_offset - start_offset) / max_samples_per_sequence), 1)
-            samples_per_sequence = (end_offset - start_offset) / slice_count
             # Note this must include the end offset as well, so slice_count + 1 steps (down there,
             # idx+1 is used to access the end offset)
             offsets = [
-                start_offset + int(slice * samples_per_sequence) for slice in range(slice_count + 1)
+                start_offset + slice * (end_offset - start_offset) // slice_count
+                for slice in range(slice_count + 1)
             ]
             return [
                 [
-- 
2.43.0


From a76afdb0e7b132c730d16bad1d69633df71fb108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:50 +0000
Subject: [PATCH 28/69] fix: stateless(restore_seeds=True) uses the seed of the
 current worker

The first seed was kept for the process, thus restoring samples of different workers used the
wrong seed.
---
 src/megatron/energon/task_encoder/base.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/megatron/energon/task_encoder/base.py b/src/megatron/energon/task_encoder/base.py
index fdc7542..0aba090 100644
--- a/src/megatron/energon/task_encoder/base.py
+++ b/src/megatron/energon/task_encoder/base.py
@@ -133,13 +133,10 @@ def stateless(
     if fn is None:
         return lambda f: stateless(f, restore_seeds=restore_seeds)
     if restore_seeds:
-        worker_seed = None
 
         @functools.wraps(fn)
         def seed_wrapper_generator(self, *args, **kwargs):
-            nonlocal worker_seed
-            if worker_seed is None:
-                worker_seed = WorkerConfig.active_worker_config.worker_seed()
+            worker_seed = WorkerConfig.active_worker_config.worker_seed()
 
             # Save the RNG states and set the new seed
             outer_rng_state = SystemRng.save_state()
@@ -185,9 +182,7 @@ def stateless(
 
         @functools.wraps(fn)
         def seed_wrapper(self, *args, **kwargs):
-            nonlocal worker_seed
-            if worker_seed is None:
-                worker_seed = WorkerConfig.active_worker_config.worker_seed()
+            worker_seed = WorkerConfig.active_worker_config.worker_seed()
 
             # Save the RNG states and set the new seed
             rng_state = SystemRng.save_state()
-- 
2.43.0


From 3ea47e3abc9339b25cd70e4c7def383a37d9a8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:50 +0000
Subject: [PATCH 29/69] fix: rank_worker_id while restoring a sample of worker
 0 or without worker processes

---
 src/megatron/energon/worker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/worker.py b/src/megatron/energon/worker.py
index d1f6aed..b59a7af 100644
--- a/src/megatron/energon/worker.py
+++ b/src/megatron/energon/worker.py
@@ -157,9 +157,9 @@ class WorkerConfig:
 
     def rank_worker_id(self) -> int:
         """Returns the self worker id within the current rank."""
-        if self._worker_override_global_rank:
+        if self._worker_override_global_rank is not None:
             assert self.worker_id_offset == 0
-            return self._worker_override_global_rank % self.num_workers
+            return self._worker_override_global_rank % max(self.num_workers, 1)
         worker_info = torch.utils.data.get_worker_info()
         if worker_info is None:
             return self.worker_id_offset
-- 
2.43.0


From 9cabeb1b85ac8016be0865d7bcc74f8fd893cc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 30/69] fix: resume BatchDataset after its last (partial) batch

The source of the partial last batch is already exhausted, i.e. it continues with the next epoch
after restoring. Without ending the epoch after restoring, an outer dataset (e.g. a LimitDataset)
continues with samples of the next epoch.
---
 .../energon/wrappers/batch_dataset.py         | 27 ++++++++++++++++---
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/megatron/energon/wrappers/batch_dataset.py b/src/megatron/energon/wrappers/batch_dataset.py
index f7c938a..1eb9c98 100644
--- a/src/megatron/energon/wrappers/batch_dataset.py
+++ b/src/megatron/energon/wrappers/batch_dataset.py
@@ -37,23 +37,26 @@ T_batch_sample = TypeVar("T_batch_sample", covariant=True)
 @dataclass
 class BatchState(BaseSingleWrapperState):
     sample_index: int
+    #: True, if the source is exhausted and the last batch was yielded
+    flushing: bool = False
 
 
 @dataclass
 class BatchMergedState(BaseSingleWrapperMergedState):
     sample_indexes: List[int]
+    flushing: Optional[List[bool]] = None
 
 
 @dataclass
 class BatchGeneratorState(BatchState):
-    generator_sample_key: Any
-    generator_offset: int
+    generator_sample_key: Any = None
+    generator_offset: int = 0
 
 
 @dataclass
 class BatchGeneratorMergedState(BatchMergedState):
-    generator_sample_keys: List[Any]
-    generator_offsets: List[int]
+    generator_sample_keys: Optional[List[Any]] = None
+    generator_offsets: Optional[List[int]] = None
 
 
 class BatchDataset(
@@ -68,6 +71,7 @@ class BatchDataset(
     _sample_index: SampleIndex
     _generator_sample_keys: List[Optional[Any]]
     _generator_offsets: List[Optional[int]]
+    _flushing: List[bool]
 
     def __init__(
         self,
@@ -107,6 +111,7 @@ class BatchDataset(
         self._sample_index = SampleIndex(worker_config, src=self)
         self._generator_sample_keys = [None] * max(self.worker_config.num_workers, 1)
         self._generator_offsets = [None] * max(self.worker_config.num_workers, 1)
+        self._flushing = [False] * max(self.worker_config.num_workers, 1)
 
     def __len__(self):
         n_samples = len(self.dataset)
@@ -169,6 +174,11 @@ class BatchDataset(
             batch = []
             sample_restore_keys = []
 
+        if self._flushing[worker_id]:
+            # Restored after the last batch: The source already is at its next epoch
+            self._flushing[worker_id] = False
+            return
+
         def flush():
             try:
                 with self._sample_index.ctx() as sample_idx:
@@ -211,12 +221,15 @@ class BatchDataset(
                 yield from flush()
                 batch = []
         if len(batch) > 0 and not self.drop_last:
+            self._flushing[worker_id] = True
             yield from flush()
+            self._flushing[worker_id] = False
 
     def save_state(self) -> BatchState:
         state = BatchState.extend(
             super().save_state(),
             sample_index=self._sample_index.save_state(),
+            flushing=self._flushing[self.worker_config.rank_worker_id()],
         )
         if self._generator_offsets[self.worker_config.rank_worker_id()] is not None:
             state = BatchGeneratorState.extend(
@@ -235,6 +248,7 @@ class BatchDataset(
             sample_indexes=self._sample_index.merge_states(
                 [0 if state is None else state.sample_index for state in states]
             ),
+            flushing=[False if s is None else s.flushing for s in states],
         )
         if any(isinstance(s, BatchGeneratorState) for s in states):
             state = BatchGeneratorMergedState.extend(
@@ -256,9 +270,14 @@ class BatchDataset(
             self._sample_index.restore_state(None)
             self._generator_sample_keys = [None] * max(self.worker_config.num_workers, 1)
             self._generator_offsets = [None] * max(self.worker_config.num_workers, 1)
+            self._flushing = [False] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, BatchMergedState)
             self._sample_index.restore_state(state.sample_indexes)
+            if state.flushing is None:
+                self._flushing = [False] * max(self.worker_config.num_workers, 1)
+            else:
+                self._flushing = list(state.flushing)
             if isinstance(state, BatchGeneratorMergedState):
                 self._generator_sample_keys = state.generator_sample_keys
                 self._generator_offsets = state.generator_offsets
-- 
2.43.0


From eb8fd39d48817935d5655920747963f6ae936860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 31/69] fix: resume PackingDataset while a generator
 final_packer is not finished

The remaining samples of the pack were lost after restoring.
---
 .../energon/wrappers/packing_dataset.py       | 61 ++++++++++++++++---
 1 file changed, 53 insertions(+), 8 deletions(-)

diff --git a/src/megatron/energon/wrappers/packing_dataset.py b/src/megatron/energon/wrappers/packing_dataset.py
index 9f1b7d9..5bfb665 100644
--- a/src/megatron/energon/wrappers/packing_dataset.py
+++ b/src/megatron/energon/wrappers/packing_dataset.py
@@ -48,6 +48,10 @@ class PackingState(BaseSingleWrapperState):
     final_packing_index: int
     #: True, if the source is exhausted and the remaining packs are being yielded
     stopping: bool = False
+    #: If the final_packer is a generator which is not finished: Restore keys of the samples of its
+    #: pack and the number of samples already yielded
+    generator_sample_keys: Optional[Tuple[Any, ...]] = None
+    generator_offset: int = 0
 
 
 @dataclass
@@ -58,6 +62,8 @@ class PackingMergedState(BaseSingleWrapperMergedState):
     pre_packing_index: List[int]
     final_packing_index: List[int]
     stopping: Optional[List[bool]] = None
+    generator_sample_keys: Optional[List[Optional[Tuple[Any, ...]]]] = None
+    generator_offsets: Optional[List[int]] = None
 
 
 class PackingDataset(
@@ -140,6 +146,8 @@ class PackingDataset(
         self._pre_packing_sample_index = SampleIndex(worker_config, src=self)
         self._final_packing_sample_index = SampleIndex(worker_config, src=self)
         self._stopping = [False] * max(worker_config.num_workers, 1)
+        self._generator_sample_keys = [None] * max(worker_config.num_workers, 1)
+        self._generator_offsets = [0] * max(worker_config.num_workers, 1)
 
     def __len__(self):
         """The real length is unknown, since it depends on the packing function.
@@ -212,24 +220,36 @@ class PackingDataset(
             pack = list(self._pre_packing_buffer[: pre_packing_lengths[0]])
             del self._pre_packing_buffer[: pre_packing_lengths[0]]
             del pre_packing_lengths[0]
+            yield from yield_pack(pack)
+
+        def yield_pack(
+            pack: List[T_sample], use_pack_idx: Optional[int] = None, target_offset: int = 0
+        ) -> Generator[T_batch_sample, None, None]:
+            """Yields the samples of the pack, starting at the target_offset. Uses the next pack
+            index, if not specified."""
+
             try:
                 pack_restore_keys = tuple(get_sample_restore_key(sample) for sample in pack)
-                with self._final_packing_sample_index.ctx() as pack_idx:
+                with self._final_packing_sample_index.ctx(use_pack_idx) as pack_idx:
                     final_packed_sample = self.final_packer(pack)
                 if isinstance(final_packed_sample, Generator):
                     assert inspect.isgeneratorfunction(
                         self.final_packer
                     ), f"Generator in {self.final_packer} but not marked as such."
+                    self._generator_sample_keys[worker_idx] = pack_restore_keys
                     for pack_sub_idx, (pack_idx, inner_batch_sample) in enumerate(
                         self._final_packing_sample_index.iter_ctx(final_packed_sample, pack_idx)
                     ):
-                        yield set_sample_restore_key(
-                            inner_batch_sample,
-                            pack_idx,
-                            pack_sub_idx,
-                            *pack_restore_keys,
-                            src=self,
-                        )
+                        # Skip the samples which were already yielded before restoring
+                        if pack_sub_idx >= target_offset:
+                            self._generator_offsets[worker_idx] = pack_sub_idx + 1
+                            yield set_sample_restore_key(
+                                inner_batch_sample,
+                                pack_idx,
+                                pack_sub_idx,
+                                *pack_restore_keys,
+                                src=self,
+                            )
                 else:
                     yield set_sample_restore_key(
                         final_packed_sample,
@@ -243,6 +263,19 @@ class PackingDataset(
                 raise FatalSampleError.from_sample(pack)
             except Exception as e:
                 self.error_handler(e, pack)
+            self._generator_sample_keys[worker_idx] = None
+            self._generator_offsets[worker_idx] = 0
+
+        if self._generator_sample_keys[worker_idx] is not None:
+            # Continue the pack which was being yielded. Do not increment the pack index.
+            yield from yield_pack(
+                [
+                    self.dataset.restore_sample(inner_idx)
+                    for inner_idx in self._generator_sample_keys[worker_idx]
+                ],
+                self._final_packing_sample_index.current_idx - 1,
+                self._generator_offsets[worker_idx],
+            )
 
         # Main loop:
         while not self._stopping[worker_idx]:
@@ -288,6 +321,8 @@ class PackingDataset(
             final_packing_index=self._final_packing_sample_index.save_state(),
             pre_packing_index=self._pre_packing_sample_index.save_state(),
             stopping=self._stopping[self.worker_config.rank_worker_id()],
+            generator_sample_keys=self._generator_sample_keys[self.worker_config.rank_worker_id()],
+            generator_offset=self._generator_offsets[self.worker_config.rank_worker_id()],
         )
 
     def merge_states(self, states: List[PackingState]) -> PackingMergedState:
@@ -308,6 +343,8 @@ class PackingDataset(
                 [0 if state is None else state.pre_packing_index for state in states]
             ),
             stopping=[False if s is None else s.stopping for s in states],
+            generator_sample_keys=[None if s is None else s.generator_sample_keys for s in states],
+            generator_offsets=[0 if s is None else s.generator_offset for s in states],
         )
 
     def restore_state(self, state: Optional[PackingMergedState]) -> None:
@@ -319,6 +356,8 @@ class PackingDataset(
             self._pre_packing_sample_index.restore_state(None)
             self._final_packing_sample_index.restore_state(None)
             self._stopping = [False] * max(self.worker_config.num_workers, 1)
+            self._generator_sample_keys = [None] * max(self.worker_config.num_workers, 1)
+            self._generator_offsets = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, PackingMergedState)
             self._reading_buffer.restore_state(state.reading_buffer)
@@ -330,6 +369,12 @@ class PackingDataset(
                 self._stopping = [False] * max(self.worker_config.num_workers, 1)
             else:
                 self._stopping = list(state.stopping)
+            if state.generator_sample_keys is None or state.generator_offsets is None:
+                self._generator_sample_keys = [None] * max(self.worker_config.num_workers, 1)
+                self._generator_offsets = [0] * max(self.worker_config.num_workers, 1)
+            else:
+                self._generator_sample_keys = list(state.generator_sample_keys)
+                self._generator_offsets = list(state.generator_offsets)
 
     def can_restore_sample(self) -> bool:
         # Cannot really verify if the returned elements contain a __restore_key__.
-- 
2.43.0


From e1c1ba045e6b09d264b02fea1354c48253782ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:00 +0000
Subject: [PATCH 32/69] fix: LimitDataset with reset_after_epoch=False
 continues the inner dataset

The inner dataset was reset regardless of reset_after_epoch.
---
 src/megatron/energon/wrappers/limit_dataset.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/megatron/energon/wrappers/limit_dataset.py b/src/megatron/energon/wrappers/limit_dataset.py
index 6fc5b02..3dd5307 100644
--- a/src/megatron/energon/wrappers/limit_dataset.py
+++ b/src/megatron/energon/wrappers/limit_dataset.py
@@ -106,10 +106,9 @@ class LimitDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_sampl
                 }
             )
 
-        # Reset the inner dataset
-        self.dataset.restore_state(None)
         self._current_offset = [0] * max(self.worker_config.num_workers, 1)
         if self.reset_after_epoch:
+            # Reset the inner dataset
             self.dataset.restore_state(None)
 
     def worker_has_samples(self) -> bool:
-- 
2.43.0


From 3b96afdab59f3bb5576b4ecd440f4393a441cd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:37 +0000
Subject: [PATCH 33/69] fix: restore key of joined samples

---
 .../flavors/webdataset/joined_webdataset.py       | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/megatron/energon/flavors/webdataset/joined_webdataset.py b/src/megatron/energon/flavors/webdataset/joined_webdataset.py
index 44ceb24..f869137 100644
--- a/src/megatron/energon/flavors/webdataset/joined_webdataset.py
+++ b/src/megatron/energon/flavors/webdataset/joined_webdataset.py
@@ -22,7 +22,6 @@ from megatron.energon.flavors.base_dataset import (
     BaseCoreDatasetFactory,
     Sample,
     SavableDataset,
-    set_sample_restore_key,
 )
 from megatron.energon.flavors.webdataset.base_webdataset import BaseWebdatasetFactory
 from megatron.energon.flavors.webdataset.error_handler import ErrorHandler
@@ -234,12 +233,14 @@ class JoinedWebdatasetFactory(
             for dataset, sample in zip(self.inner_datasets, samples)
         )
         # Then combine the loaded smaples into the final type
-        return set_sample_restore_key(
-            self._sample_joiner(*loaded_samples),
-            *restore_key,
-            src=self,
-            fail_otherwise=True,
-        )
+        joined_sample = self._sample_joiner(*loaded_samples)
+        # Set the key as is: `WebdatasetSampleLoaderDataset.restore_sample` expects it without any
+        # further prefix.
+        if isinstance(joined_sample, dict):
+            joined_sample["__restore_key__"] = tuple(restore_key)
+        else:
+            joined_sample.__restore_key__ = tuple(restore_key)
+        return joined_sample
 
     def config(self) -> Dict[str, Any]:
         return dict(
-- 
2.43.0


From e6f8a5fc7c56a0835da013527ef5635992563af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:47 +0000
Subject: [PATCH 34/69] fix: do not join a sample with the previous sample of a
 failed column

---
 src/megatron/energon/flavors/webdataset/sample_loader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/flavors/webdataset/sample_loader.py b/src/megatron/energon/flavors/webdataset/sample_loader.py
index 3642e18..7d6e50b 100644
--- a/src/megatron/energon/flavors/webdataset/sample_loader.py
+++ b/src/megatron/energon/flavors/webdataset/sample_loader.py
@@ -241,6 +241,7 @@ class WebdatasetSampleLoaderDataset(SavableDataset[Tuple[Optional[FilteredSample
                 except Exception as e:
                     self.handler(e, readers[0].shard_state.shard.name)
                 else:
+                    all_read = True
                     for idx, reader in enumerate(readers[1:], 1):
                         try:
                             _, groups[idx] = reader.read_next(group_name, must_match=True)
@@ -262,7 +263,10 @@ class WebdatasetSampleLoaderDataset(SavableDataset[Tuple[Optional[FilteredSample
                             )
                         except Exception as e:
                             self.handler(e, reader.shard_state.shard.name)
-                    yield tuple(groups)
+                            # Do not join the primary sample with the previous sample of this column
+                            all_read = False
+                    if all_read:
+                        yield tuple(groups)
 
     def _shards_once(self, shards: List[Sequence[ShardInfo]]) -> List[Sequence[ShardInfo]]:
         """Possibly (re)shuffles the shards using the random generator."""
-- 
2.43.0


From 2d18751208a382bb2c3cefccbe6acaa10e73afae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:18 +0000
Subject: [PATCH 35/69] fix: shuffle_over_epochs_multiplier of -1 in nested
 metadatasets

---
 src/megatron/energon/metadataset/metadataset.py    | 8 ++++++--
 src/megatron/energon/metadataset/metadataset_v2.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/megatron/energon/metadataset/metadataset.py b/src/megatron/energon/metadataset/metadataset.py
index 2bc82d4..93210ae 100644
--- a/src/megatron/energon/metadataset/metadataset.py
+++ b/src/megatron/energon/metadataset/metadataset.py
@@ -64,6 +64,11 @@ class DatasetReference:
     ) -> List[Tuple[BaseCoreDatasetFactory, float]]:
         if self.subflavors is not None:
             subflavors = {**self.subflavors, **(subflavors or {})}
+        if -1 in (shuffle_over_epochs_multiplier, self.shuffle_over_epochs_multiplier):
+            # Infinite epochs, must not be multiplied with the other factor
+            shuffle_over_epochs_multiplier = -1
+        else:
+            shuffle_over_epochs_multiplier *= self.shuffle_over_epochs_multiplier
         assert self._dataset is not None
         return self._dataset.get_datasets(
             training=training,
@@ -71,8 +76,7 @@ class DatasetReference:
             worker_config=worker_config,
             subflavor=subflavor or self.subflavor,
             subflavors=subflavors,
-            shuffle_over_epochs_multiplier=shuffle_over_epochs_multiplier
-            * self.shuffle_over_epochs_multiplier,
+            shuffle_over_epochs_multiplier=shuffle_over_epochs_multiplier,
             **kwargs,
         )
 
diff --git a/src/megatron/energon/metadataset/metadataset_v2.py b/src/megatron/energon/metadataset/metadataset_v2.py
index c89800f..8fc4118 100644
--- a/src/megatron/energon/metadataset/metadataset_v2.py
+++ b/src/megatron/energon/metadataset/metadataset_v2.py
@@ -64,6 +64,11 @@ class DatasetReference(DatasetLoaderInterface):
     ) -> List[Tuple[BaseCoreDatasetFactory, float]]:
         if self.subflavors is not None:
             subflavors = {**self.subflavors, **(subflavors or {})}
+        if -1 in (shuffle_over_epochs_multiplier, self.shuffle_over_epochs_multiplier):
+            # Infinite epochs, must not be multiplied with the other factor
+            shuffle_over_epochs_multiplier = -1
+        else:
+            shuffle_over_epochs_multiplier *= self.shuffle_over_epochs_multiplier
         assert self._dataset is not None
         return self._dataset.get_datasets(
             training=training,
@@ -71,8 +76,7 @@ class DatasetReference(DatasetLoaderInterface):
             worker_config=worker_config,
             subflavor=subflavor or self.subflavor,
             subflavors=subflavors,
-            shuffle_over_epochs_multiplier=shuffle_over_epochs_multiplier
-            * self.shuffle_over_epochs_multiplier,
+            shuffle_over_epochs_multiplier=shuffle_over_epochs_multiplier,
             **kwargs,
         )
 
-- 
2.43.0


From 668edccbbd05bde8ed765cbad12cad31805d9e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:02 +0000
Subject: [PATCH 36/69] fix: split_config of joined datasets

---
 src/megatron/energon/metadataset/metadataset_v2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/metadataset/metadataset_v2.py b/src/megatron/energon/metadataset/metadataset_v2.py
index 8fc4118..4312d8c 100644
--- a/src/megatron/energon/metadataset/metadataset_v2.py
+++ b/src/megatron/energon/metadataset/metadataset_v2.py
@@ -144,7 +144,8 @@ class MetadatasetJoin(DatasetLoaderInterface):
             subflavor=self.subflavor,
             subflavors=self.subflavors,
             shuffle_over_epochs_multiplier=self.shuffle_over_epochs_multiplier,
-            split_config=self.split_config,
+            # The default must not override the split_config of the joined datasets
+            split_config=self.split_config if self.split_config != "split.yaml" else None,
         )
 
     def get_datasets(
-- 
2.43.0


From 2a1df76e307489b5755cb782fb61b95ae81f8f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:02 +0000
Subject: [PATCH 37/69] fix: apply shuffle_over_epochs_multiplier of joined
 datasets

---
 src/megatron/energon/metadataset/metadataset_v2.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/megatron/energon/metadataset/metadataset_v2.py b/src/megatron/energon/metadataset/metadataset_v2.py
index 4312d8c..9a5ed69 100644
--- a/src/megatron/energon/metadataset/metadataset_v2.py
+++ b/src/megatron/energon/metadataset/metadataset_v2.py
@@ -160,6 +160,11 @@ class MetadatasetJoin(DatasetLoaderInterface):
         **kwargs,
     ) -> List[Tuple[BaseCoreDatasetFactory, float]]:
         assert self._dataset is not None, "Not prepared."
+        if -1 in (shuffle_over_epochs_multiplier, self.shuffle_over_epochs_multiplier):
+            # Infinite epochs, must not be multiplied with the other factor
+            shuffle_over_epochs_multiplier = -1
+        else:
+            shuffle_over_epochs_multiplier *= self.shuffle_over_epochs_multiplier
         return self._dataset.get_datasets(
             training=training,
             split_part=split_part,
-- 
2.43.0


From 3be2cd5d0aac8382c98307d98d056a7f40041ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:40 +0000
Subject: [PATCH 38/69] fix: do not list shards whose index could not be
 written

---
 src/megatron/energon/flavors/webdataset/prepare.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/megatron/energon/flavors/webdataset/prepare.py b/src/megatron/energon/flavors/webdataset/prepare.py
index c82b73c..9fabd50 100644
--- a/src/megatron/energon/flavors/webdataset/prepare.py
+++ b/src/megatron/energon/flavors/webdataset/prepare.py
@@ -101,6 +101,8 @@ class WebdatasetPreparator:
             return shard_info, parts
         except BaseException:
             logger.exception(f"Shard failed to load: {path!r}. Skipping it.")
+            # Without a complete index, the shard must not be listed
+            shard_info.count = 0
             return shard_info, set()
 
     @staticmethod
-- 
2.43.0


From 242155508206abaef77bfcda166c977a09cdb108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:07 +0000
Subject: [PATCH 39/69] fix: never leave partially written dataset configs
 behind

---
 .../energon/flavors/webdataset/prepare.py         | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/megatron/energon/flavors/webdataset/prepare.py b/src/megatron/energon/flavors/webdataset/prepare.py
index 9fabd50..70a0a8b 100644
--- a/src/megatron/energon/flavors/webdataset/prepare.py
+++ b/src/megatron/energon/flavors/webdataset/prepare.py
@@ -105,6 +105,15 @@ class WebdatasetPreparator:
             shard_info.count = 0
             return shard_info, set()
 
+    @staticmethod
+    def _write_yaml(path: EPath, data: Any) -> None:
+        """Write a config file. Writes to a .tmp file first, such that a partially written file is
+        never used (e.g. a split config with missing shards)."""
+        tmp_path = path.with_suffix(".yaml.tmp")
+        with tmp_path.open("w") as wf:
+            yaml.dump(to_json_object(data), wf)
+        tmp_path.move(path)
+
     @staticmethod
     def iter_dataset_content(
         path: Union[str, EPath],
@@ -219,8 +228,7 @@ class WebdatasetPreparator:
         info = WebdatasetInfo(
             shard_counts={shard.name: shard.count for shard in shards},
         )
-        with (parent_path / MAIN_FOLDER_NAME / info_config).open("w") as wf:
-            yaml.dump(to_json_object(info), wf)
+        cls._write_yaml(parent_path / MAIN_FOLDER_NAME / info_config, info)
 
         if split_parts_ratio is not None:
             # Normalize ratio
@@ -258,7 +266,6 @@ class WebdatasetPreparator:
                 ]
         # Save split config
         splits_config = WebdatasetSplits(split_parts=split_shards)
-        with (parent_path / MAIN_FOLDER_NAME / split_config).open("w") as wf:
-            yaml.dump(to_json_object(splits_config), wf)
+        cls._write_yaml(parent_path / MAIN_FOLDER_NAME / split_config, splits_config)
 
         return found_parts
-- 
2.43.0


From 8d2edc9630fdc37aae683b6f3cfbd57879ae566b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:32 +0000
Subject: [PATCH 40/69] fix: try the alternatives of a field_map entry if a
 field is missing

---
 src/megatron/energon/flavors/webdataset/field_access.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/flavors/webdataset/field_access.py b/src/megatron/energon/flavors/webdataset/field_access.py
index 6b29521..53a6be7 100644
--- a/src/megatron/energon/flavors/webdataset/field_access.py
+++ b/src/megatron/energon/flavors/webdataset/field_access.py
@@ -83,6 +83,6 @@ def field_access(value: Union[dict, list, str, int, bool, None], field: List[Lis
     for f in field[:-1]:
         try:
             return _field_access(value, f)
-        except (KeyError, ValueError, IndexError):
+        except (FieldAccessError, ValueError, IndexError):
             pass
     return _field_access(value, field[-1])
-- 
2.43.0


From bd8a87ef05d76699a4a88106d9e4a09fda482842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:29 +0000
Subject: [PATCH 41/69] fix: give the sample key to the handler of sample
 loading errors

---
 src/megatron/energon/flavors/webdataset/error_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/flavors/webdataset/error_handler.py b/src/megatron/energon/flavors/webdataset/error_handler.py
index 857a282..2763f03 100644
--- a/src/megatron/energon/flavors/webdataset/error_handler.py
+++ b/src/megatron/energon/flavors/webdataset/error_handler.py
@@ -32,7 +32,7 @@ class ErrorHandler(Generic[T_sample]):
     ):
         if isinstance(sample, dict):
             key = sample.get("__key__")
-        elif isinstance(sample, list):
+        elif isinstance(sample, (list, tuple)):
             if isinstance(sample[0], dict):
                 key = ",".join("None" if s is None else s.get("__key__") for s in sample)
             elif isinstance(sample[0], Sample):
-- 
2.43.0


From 5b070fddde25a88d4864492bf27466aa8c385555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:25 +0000
Subject: [PATCH 42/69] fix: do not start the next virtual epoch in a worker
 restored after its last sample of the current one

---
 src/megatron/energon/wrappers/epochize_dataset.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/epochize_dataset.py b/src/megatron/energon/wrappers/epochize_dataset.py
index 99770e1..8937d02 100644
--- a/src/megatron/energon/wrappers/epochize_dataset.py
+++ b/src/megatron/energon/wrappers/epochize_dataset.py
@@ -92,9 +92,13 @@ class EpochizeDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_sa
                 self._active_iter = iter(self._infinite())
 
             for idx in offset_range:
-                self._offset[worker_idx] = (idx + 1) % local_length
+                self._offset[worker_idx] = idx + 1
                 yield next(self._active_iter)
 
+        # The next epoch starts only after this one was finished. A worker restored after its last
+        # sample must not start the next epoch, while the other workers still finish this one.
+        self._offset[worker_idx] = 0
+
         if self.worker_config.should_log(level=2):
             self.worker_config.worker_log(
                 {
-- 
2.43.0


From a9e364868bdcaa082dbfa702233fbda9acb57b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:54 +0000
Subject: [PATCH 43/69] fix: gather and scatter the loader state by data
 parallel rank within subgroups

---
 src/megatron/energon/savable_loader.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 82e4d3d..ee3579d 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -979,6 +979,13 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
         # if len(self.cmd_queues) > 0:
         #     self._worker_command("restore_state", state["dataset"])
 
+    def _global_rank(self, data_parallel_rank: int) -> int:
+        """Returns the global rank for a data parallel rank, as expected by torch collectives."""
+        group = self.worker_config.data_parallel_group
+        if group is None:
+            return data_parallel_rank
+        return torch.distributed.get_global_rank(group, data_parallel_rank)
+
     def save_state(
         self, dst_rank: Optional[int] = None
     ) -> Union[SavableDataLoaderState, List[SavableDataLoaderState], None, List[None]]:
@@ -987,8 +994,8 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
         given the result of this method.
 
         Args:
-            dst_rank: If specified, the state will be gathered to this rank. Otherwise, it will be
-                gathered to all ranks.
+            dst_rank: If specified, the state will be gathered to this data parallel rank.
+                Otherwise, it will be gathered to all ranks.
 
         Returns:
             The state of the dataset (or `None`, if not on `dst_rank`).
@@ -1011,7 +1018,10 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
                 else:
                     output = None
                 torch.distributed.gather_object(
-                    merged_state, output, dst_rank, group=self.worker_config.data_parallel_group
+                    merged_state,
+                    output,
+                    self._global_rank(dst_rank),
+                    group=self.worker_config.data_parallel_group,
                 )
             return output
         else:
@@ -1028,8 +1038,8 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
 
         Args:
             state: The state to restore, as saved by `save_state`.
-            src_rank: If set, only this rank is assumed to hold the data, other ranks must set state
-                to None. If not set, all ranks are assumed to hold the data.
+            src_rank: If set, only this data parallel rank is assumed to hold the data, other ranks
+                must set state to None. If not set, all ranks are assumed to hold the data.
         """
         assert self._persistent_iterator is None, "Cannot restore state while workers are running"
         # Only restore multi-rank if state is actually a list and we are in a torch distributed setup.
@@ -1054,7 +1064,7 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
                 torch.distributed.scatter_object_list(
                     local_object,
                     state,
-                    src=src_rank,
+                    src=self._global_rank(src_rank),
                     group=self.worker_config.data_parallel_group,
                 )
                 state = local_object[0]
-- 
2.43.0


From 596eaba5bd1f0698f69b91d41dd3a319e38e1648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:12 +0000
Subject: [PATCH 44/69] fix: paths never leave their rclone remote

---
 src/megatron/energon/epathlib/epath.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/megatron/energon/epathlib/epath.py b/src/megatron/energon/epathlib/epath.py
index 873c928..d852251 100644
--- a/src/megatron/energon/epathlib/epath.py
+++ b/src/megatron/energon/epathlib/epath.py
@@ -64,20 +64,23 @@ class EPath:
                     # The first part of the path will be the rclone remote name
                     path = "/" + path
 
-                self.internal_path = self._resolve(path)
+                self.num_fs_path_parts = 2  # Root and remote name
+                self.internal_path = self._resolve(path, self.num_fs_path_parts)
 
                 remote_name = self.internal_path.parts[1]
                 self.fs, self.s3_args = self.create_s3fs_from_rclone_remote(
                     remote_name, config_override=config_override
                 )
                 self.protocol = "rclone"
-                self.num_fs_path_parts = 2  # Root and remote name
             else:
                 raise ValueError(f"Unknown protocol: {protocol}")
 
     @staticmethod
-    def _resolve(path: Union[str, PurePosixPath]) -> PurePosixPath:
-        """Resolve a path, removing .. and . components."""
+    def _resolve(
+        path: Union[str, PurePosixPath], num_fs_path_parts: int = 0
+    ) -> PurePosixPath:
+        """Resolve a path, removing .. and . components. The first `num_fs_path_parts` (including
+        the root) are part of the file system specification and cannot be left with `..`."""
         if isinstance(path, str):
             path = PurePosixPath(path)
         parts = path.parts
@@ -87,7 +90,7 @@ class EPath:
             new_parts = []
             for part in parts[1:]:
                 if part == "..":
-                    if len(new_parts) == 0:
+                    if len(new_parts) <= max(num_fs_path_parts - 1, 0):
                         raise ValueError(f"Path above root: {path}")
                     new_parts.pop()
                 elif path == ".":
@@ -197,7 +200,8 @@ class EPath:
     @property
     def parent(self):
         new_path = EPath(self)
-        new_path.internal_path = self.internal_path.parent
+        if len(self.internal_path.parts) > self.num_fs_path_parts:
+            new_path.internal_path = self.internal_path.parent
         return new_path
 
     @property
@@ -325,7 +329,8 @@ class EPath:
 
         new_path = EPath(self)
         new_path.internal_path = self._resolve(
-            self.internal_path / (other if isinstance(other, str) else other.internal_path)
+            self.internal_path / (other if isinstance(other, str) else other.internal_path),
+            self.num_fs_path_parts,
         )
         return new_path
 
-- 
2.43.0


From da6f896dd1abc5b5cb1a1e33ca616ce8cf32cb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:00 +0000
Subject: [PATCH 45/69] fix: special characters of the directory are no part of
 the glob pattern

---
 src/megatron/energon/epathlib/epath.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/epathlib/epath.py b/src/megatron/energon/epathlib/epath.py
index d852251..3bceeb0 100644
--- a/src/megatron/energon/epathlib/epath.py
+++ b/src/megatron/energon/epathlib/epath.py
@@ -1,6 +1,7 @@
 # Copyright (c) 2024, NVIDIA CORPORATION.
 # SPDX-License-Identifier: BSD-3-Clause
 
+import glob
 import os
 import re
 from pathlib import Path as PathlibPath
@@ -261,7 +262,11 @@ class EPath:
         self.fork_guard()
         assert self.is_absolute()
 
-        search_path_pattern = (self / pattern)._internal_nonfs_path
+        # Special characters in this path are not part of the pattern
+        escaped_path = EPath(self)
+        escaped_path.internal_path = PurePosixPath(glob.escape(str(self.internal_path)))
+
+        search_path_pattern = (escaped_path / pattern)._internal_nonfs_path
 
         if self.protocol != "local" and search_path_pattern.startswith("/"):
             # For some reason s3fs glob does not like leading /
-- 
2.43.0


From 13b0383a32ef441aab432ec480dd8d6fd9fe3dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:00 +0000
Subject: [PATCH 46/69] fix: percent signs in rclone config values

---
 src/megatron/energon/epathlib/rclone_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/epathlib/rclone_config.py b/src/megatron/energon/epathlib/rclone_config.py
index 7d01b8d..8415dcb 100644
--- a/src/megatron/energon/epathlib/rclone_config.py
+++ b/src/megatron/energon/epathlib/rclone_config.py
@@ -61,7 +61,7 @@ def get_rclone_config_path() -> Optional[Path]:
 def read_rclone_config_at_path(config_path: Path) -> Dict[str, ConfigEntry]:
     """Reads the config file and returns a dictionary with the config entries."""
 
-    config = configparser.ConfigParser()
+    config = configparser.ConfigParser(interpolation=None)
     config.read(config_path)
 
     config_entries = {}
-- 
2.43.0


From d2c4151e507d006b024fbbf6bcd1e7a801aab187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:00 +0000
Subject: [PATCH 47/69] fix: rclone endpoints whose host name starts with http

---
 src/megatron/energon/epathlib/epath.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/megatron/energon/epathlib/epath.py b/src/megatron/energon/epathlib/epath.py
index 3bceeb0..8811494 100644
--- a/src/megatron/energon/epathlib/epath.py
+++ b/src/megatron/energon/epathlib/epath.py
@@ -77,9 +77,7 @@ class EPath:
                 raise ValueError(f"Unknown protocol: {protocol}")
 
     @staticmethod
-    def _resolve(
-        path: Union[str, PurePosixPath], num_fs_path_parts: int = 0
-    ) -> PurePosixPath:
+    def _resolve(path: Union[str, PurePosixPath], num_fs_path_parts: int = 0) -> PurePosixPath:
         """Resolve a path, removing .. and . components. The first `num_fs_path_parts` (including
         the root) are part of the file system specification and cannot be left with `..`."""
         if isinstance(path, str):
@@ -132,7 +130,7 @@ class EPath:
             )
 
         # If the endpoint does not specify a protocol, assume https://
-        if rclone_entry.endpoint and not rclone_entry.endpoint.startswith("http"):
+        if rclone_entry.endpoint and not rclone_entry.endpoint.startswith(("http://", "https://")):
             s3fs_endpoint = "https://" + rclone_entry.endpoint
         else:
             s3fs_endpoint = rclone_entry.endpoint
-- 
2.43.0


From 53da67e1743a80d8bea4ca593a67b76c50c43595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:29 +0000
Subject: [PATCH 48/69] fix: do not convert default values of configurable
 objects

---
 src/megatron/energon/typed_converter.py | 41 +++++++++++++------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index d0c01db..3c4c58b 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -300,7 +300,7 @@ def raw_to_typed(  # noqa: C901
         defaults = getattr(inst_type, "_field_defaults", {})
         kwargs = {
             field_name: raw_to_typed(
-                raw_data.get(field_name, defaults.get(field_name, _missing_value)),
+                raw_data.get(field_name, _missing_value),
                 field_type,
                 strict,
                 allow_imports,
@@ -308,6 +308,7 @@ def raw_to_typed(  # noqa: C901
                 _stage + (idx,),
             )
             for idx, (field_name, field_type) in enumerate(inst_type.__annotations__.items())
+            if field_name in raw_data or field_name not in defaults
         }
         if strict and not set(raw_data).issubset(inst_type.__annotations__):
             raise JsonValueError(
@@ -339,18 +340,7 @@ def raw_to_typed(  # noqa: C901
             )
         kwargs = {
             field.name: raw_to_typed(
-                raw_data.get(
-                    field.name,
-                    (
-                        (
-                            _missing_value
-                            if field.default_factory is dataclasses.MISSING
-                            else field.default_factory()
-                        )
-                        if field.default is dataclasses.MISSING
-                        else field.default
-                    ),
-                ),
+                raw_data.get(field.name, _missing_value),
                 field.type,
                 strict,
                 allow_imports,
@@ -359,6 +349,13 @@ def raw_to_typed(  # noqa: C901
             )
             for idx, field in enumerate(dataclasses.fields(inst_type))
             if field.init
+            and (
+                field.name in raw_data
+                or (
+                    field.default is dataclasses.MISSING
+                    and field.default_factory is dataclasses.MISSING
+                )
+            )
         }
         if strict and not set(raw_data).issubset(
             field.name for field in dataclasses.fields(inst_type) if field.init
@@ -554,10 +551,13 @@ def safe_call_function(
                 inspect.Parameter.POSITIONAL_OR_KEYWORD,
                 inspect.Parameter.KEYWORD_ONLY,
             ):
-                if param.default is inspect.Parameter.empty and key not in unused_args:
-                    raise ValueError(f"Missing required argument {key!r} for {fn}")
+                if key not in unused_args:
+                    if param.default is inspect.Parameter.empty:
+                        raise ValueError(f"Missing required argument {key!r} for {fn}")
+                    # Use the default as is
+                    continue
                 kwargs[key] = raw_to_typed(
-                    unused_args.pop(key, param.default),
+                    unused_args.pop(key),
                     t,
                     strict,
                     allow_imports,
@@ -598,11 +598,12 @@ def safe_call_function(
                 if param.default is inspect.Parameter.empty and len(unused_args) == 0:
                     raise ValueError(f"Missing required positional argument {key!r} at index {idx}")
                 if len(unused_args) == 0:
-                    arg_val = param.default
-                else:
-                    arg_val = unused_args.pop()
+                    # Use the default as is
+                    continue
                 args.append(
-                    raw_to_typed(arg_val, t, strict, allow_imports, _path=key, _stage=(idx,))
+                    raw_to_typed(
+                        unused_args.pop(), t, strict, allow_imports, _path=key, _stage=(idx,)
+                    )
                 )
             elif param.kind == inspect.Parameter.VAR_POSITIONAL:
                 for arg_val in unused_args:
-- 
2.43.0


From 4fee846e85b8593daae526c7665bd4a50a79400f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:30 +0000
Subject: [PATCH 49/69] fix: order of positional arguments of
 safe_call_function

---
 src/megatron/energon/typed_converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index 3c4c58b..592c2f0 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -591,7 +591,7 @@ def safe_call_function(
                     )
                 args.append(
                     raw_to_typed(
-                        unused_args.pop(), t, strict, allow_imports, _path=key, _stage=(idx,)
+                        unused_args.pop(0), t, strict, allow_imports, _path=key, _stage=(idx,)
                     )
                 )
             elif param.kind == inspect.Parameter.POSITIONAL_OR_KEYWORD:
@@ -602,7 +602,7 @@ def safe_call_function(
                     continue
                 args.append(
                     raw_to_typed(
-                        unused_args.pop(), t, strict, allow_imports, _path=key, _stage=(idx,)
+                        unused_args.pop(0), t, strict, allow_imports, _path=key, _stage=(idx,)
                     )
                 )
             elif param.kind == inspect.Parameter.VAR_POSITIONAL:
-- 
2.43.0


From 622887e9c14f10ce9a3a1d10bf9f98761575b8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:31 +0000
Subject: [PATCH 50/69] fix: convert to tuples of fixed length as tuples

---
 src/megatron/energon/typed_converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index 592c2f0..e1756d6 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -451,12 +451,12 @@ def raw_to_typed(  # noqa: C901
                     _path,
                     _stage,
                 )
-            return [
+            return tuple(
                 raw_to_typed(
                     val, inner_type, strict, allow_imports, f"{_path} -> {idx}", _stage + (idx,)
                 )
                 for idx, (val, inner_type) in enumerate(zip(raw_data, inner_types))
-            ]
+            )
     elif typing.get_origin(inst_type) is dict:
         # Dict[str, value_type]
         key_type, value_type = typing.get_args(inst_type)
-- 
2.43.0


From 111ef270084ed0ee693c6645d856ba40fc66c395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:31 +0000
Subject: [PATCH 51/69] fix: do not replace configured classes if their module
 fails to import another one

---
 src/megatron/energon/typed_converter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index e1756d6..2faa0bf 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -120,7 +120,10 @@ def raw_to_instance(
     else:
         try:
             module = importlib.import_module(module_name)
-        except ModuleNotFoundError:
+        except ModuleNotFoundError as e:
+            if e.name != module_name and not module_name.startswith(f"{e.name}."):
+                # The module exists, but a module it imports does not
+                raise
             try_energon_module = importlib.import_module("megatron.energon", package=None)
             if hasattr(try_energon_module, object_name):
                 module = try_energon_module
-- 
2.43.0


From 247c29f08bf79f170ebaf5ddd8bfd4b774368af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:32 +0000
Subject: [PATCH 52/69] fix: accept dataclass instances passed to configured
 objects

---
 src/megatron/energon/typed_converter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index 2faa0bf..4bda576 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -333,6 +333,9 @@ def raw_to_typed(  # noqa: C901
             )
     elif dataclasses.is_dataclass(inst_type):
         # dataclass
+        if isinstance(inst_type, type) and isinstance(raw_data, inst_type):
+            # Already an instance (e.g. passed as default argument)
+            return raw_data
         if not isinstance(raw_data, dict):
             raise JsonValueError(
                 f"Expected {type_name} at {_path}, got {raw_data!r}",
-- 
2.43.0


From 86b132d97c028241288baa4bb66d82594363d0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:33 +0000
Subject: [PATCH 53/69] fix: convert types written as A | B like Union[A, B]

---
 src/megatron/energon/typed_converter.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index 4bda576..7e72e88 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -7,6 +7,7 @@ import importlib
 import inspect
 import json
 import re
+import types
 import typing
 from typing import Any, Callable, Dict, Literal, Optional, Tuple, Type, TypeVar, Union
 
@@ -37,6 +38,9 @@ class _MissingValue:
 
 _missing_value = _MissingValue()
 
+# `Union[A, B]`, and `A | B` if supported by the python version
+_union_origins = (Union, getattr(types, "UnionType", Union))
+
 TType = TypeVar("TType")
 
 
@@ -46,7 +50,7 @@ def _check_instance_type(cls, inst_type: Type) -> bool:
         return True
     elif typing.get_origin(inst_type) is not None:
         org = typing.get_origin(inst_type)
-        if org is Union:
+        if org in _union_origins:
             for check_type in typing.get_args(inst_type):
                 if _check_instance_type(cls, check_type):
                     return True
@@ -241,7 +245,7 @@ def raw_to_typed(  # noqa: C901
                 _stage,
             )
         return raw_data
-    elif typing.get_origin(inst_type) is Union:
+    elif typing.get_origin(inst_type) in _union_origins:
         # Union[union_types[0], union_types[1], ...]
         union_types = typing.get_args(inst_type)
         if None in union_types:
@@ -784,7 +788,7 @@ def override(  # noqa: C901
                 _stage,
             )
         return value
-    elif typing.get_origin(inst_type) is Union:
+    elif typing.get_origin(inst_type) in _union_origins:
         # Union[union_types[0], union_types[1], ...]
         union_types = typing.get_args(inst_type)
         if isinstance(overrides, str):
-- 
2.43.0


From 9107d74a29f12128d87650930fc76fe6ea28e6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:19 +0000
Subject: [PATCH 54/69] fix: apply the padding of RandomCrop in merged
 transforms

---
 src/megatron/energon/transforms/mappers.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/transforms/mappers.py b/src/megatron/energon/transforms/mappers.py
index 230218b..1d501ca 100644
--- a/src/megatron/energon/transforms/mappers.py
+++ b/src/megatron/energon/transforms/mappers.py
@@ -4,7 +4,7 @@
 import math
 import numbers
 from abc import ABC, abstractmethod
-from typing import Any, ClassVar, Generic, List, Optional, Tuple, Type, Union
+from typing import Any, ClassVar, Generic, List, Optional, Sequence, Tuple, Type, Union
 
 import numpy as np
 import torch
@@ -283,11 +283,28 @@ class RandomCropMapper(TransformMapper[T.RandomCrop]):
     def __init__(self, transform: T.RandomCrop):
         super().__init__(transform)
 
+    @staticmethod
+    def _expand_padding(padding: Union[int, Sequence[int]]) -> Tuple[int, int, int, int]:
+        """Expands the padding of torchvision to (left, top, right, bottom)."""
+        if isinstance(padding, numbers.Number):
+            return (padding,) * 4
+        elif len(padding) == 1:
+            return (padding[0],) * 4
+        elif len(padding) == 2:
+            return (padding[0], padding[1]) * 2
+        else:
+            return tuple(padding)
+
     def apply_transform(
         self, matrix: np.ndarray, dst_size: np.ndarray
     ) -> Tuple[np.ndarray, np.ndarray, Any]:
         th, tw = self.transform.size  # Target height and width
 
+        if self.transform.padding is not None:
+            left, top, right, bottom = self._expand_padding(self.transform.padding)
+            matrix = self.translate(left, top) @ matrix
+            dst_size = dst_size + np.array((top + bottom, left + right), dtype=dst_size.dtype)
+
         # pad the width if needed
         if self.transform.pad_if_needed and dst_size[1] < tw:
             padding = tw - dst_size[1]  # Pad this much on both left and right
-- 
2.43.0


From eecb031cad05ef862c1e99837ed035bf81749df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:19 +0000
Subject: [PATCH 55/69] fix: CenterCrop of smaller images in merged transforms
 pads like torchvision

---
 src/megatron/energon/transforms/mappers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/transforms/mappers.py b/src/megatron/energon/transforms/mappers.py
index 1d501ca..2580abf 100644
--- a/src/megatron/energon/transforms/mappers.py
+++ b/src/megatron/energon/transforms/mappers.py
@@ -419,8 +419,11 @@ class CenterCropMapper(TransformMapper[T.CenterCrop]):
         else:
             th, tw = self.transform.size
 
-        shift_y = round(float(th - dst_size[0]) / 2)
-        shift_x = round(float(tw - dst_size[1]) / 2)
+        # Padding rounds down, cropping rounds to the nearest (same as torchvision)
+        shift_y, shift_x = (
+            int(target - cur) // 2 if target > cur else -round(float(cur - target) / 2)
+            for target, cur in zip((th, tw), dst_size)
+        )
 
         matrix = self.translate(shift_x, shift_y) @ matrix
         dst_size = np.array((th, tw), dtype=dst_size.dtype)
-- 
2.43.0


From bc7d23b93fa1adce093a79915d21ac0f20e3b3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:19 +0000
Subject: [PATCH 56/69] fix: output size of expanded rotations by multiples of
 90 degrees in merged transforms

---
 src/megatron/energon/transforms/mappers.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/megatron/energon/transforms/mappers.py b/src/megatron/energon/transforms/mappers.py
index 2580abf..5770814 100644
--- a/src/megatron/energon/transforms/mappers.py
+++ b/src/megatron/energon/transforms/mappers.py
@@ -254,9 +254,13 @@ class RandomRotationMapper(TransformMapper[T.RandomRotation]):
             w = np.abs(np.sin(rads)) * dst_size[0] + np.abs(np.cos(rads)) * dst_size[1]
             h = np.abs(np.sin(rads)) * dst_size[1] + np.abs(np.cos(rads)) * dst_size[0]
 
-            # Round in the same way as PIL does
-            rounded_w = np.ceil(orig_size[1] / 2 + w / 2) - np.floor(orig_size[1] / 2 - w / 2)
-            rounded_h = np.ceil(orig_size[0] / 2 + h / 2) - np.floor(orig_size[0] / 2 - h / 2)
+            if degrees % 90 == 0:
+                # Exact, PIL transposes the image
+                rounded_w, rounded_h = np.round(w), np.round(h)
+            else:
+                # Round in the same way as PIL does
+                rounded_w = np.ceil(orig_size[1] / 2 + w / 2) - np.floor(orig_size[1] / 2 - w / 2)
+                rounded_h = np.ceil(orig_size[0] / 2 + h / 2) - np.floor(orig_size[0] / 2 - h / 2)
 
             # New size is h, w
             dst_size = np.array([int(rounded_h), int(rounded_w)], dtype=dst_size.dtype)
-- 
2.43.0


From 7eebb726a9a0d588f4e1b155813952105cc48770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:19 +0000
Subject: [PATCH 57/69] fix: perspective grid of merged transforms for tensors
 uses pixel centers

---
 src/megatron/energon/transforms/merge.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/transforms/merge.py b/src/megatron/energon/transforms/merge.py
index 749b79d..08166c1 100644
--- a/src/megatron/energon/transforms/merge.py
+++ b/src/megatron/energon/transforms/merge.py
@@ -137,8 +137,10 @@ class MergeTransform(torch.nn.Module):
                     torch.Size((1, 3, *dst_size)),
                 )
             else:
-                xs = torch.linspace(-1, 1, dst_size[1], dtype=torch.float32)
-                ys = torch.linspace(-1, 1, dst_size[0], dtype=torch.float32)
+                # The centers of the pixels (same as affine_grid and grid_sample, align_corners=False)
+                h, w = dst_size.tolist()
+                xs = torch.linspace(-1 + 1 / w, 1 - 1 / w, w, dtype=torch.float32)
+                ys = torch.linspace(-1 + 1 / h, 1 - 1 / h, h, dtype=torch.float32)
                 zs = torch.ones((1,), dtype=torch.float32)
                 # shape: (2<x,y,1>, W, H)
                 grid = torch.stack(torch.meshgrid([xs, ys, zs], indexing="ij"))[..., 0]
-- 
2.43.0


From 40f0bca4e3356f021ab85a5708244f5719b42a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:19 +0000
Subject: [PATCH 58/69] fix: unsupported transforms in MergeTransform are
 refused with the intended error

---
 src/megatron/energon/transforms/merge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/transforms/merge.py b/src/megatron/energon/transforms/merge.py
index 08166c1..d314bc2 100644
--- a/src/megatron/energon/transforms/merge.py
+++ b/src/megatron/energon/transforms/merge.py
@@ -56,7 +56,8 @@ class MergeTransform(torch.nn.Module):
             return transform
 
         for m in TransformMapper.__subclasses__():
-            if isinstance(transform, m.source_type):
+            # CustomTransform does not map any type
+            if hasattr(m, "source_type") and isinstance(transform, m.source_type):
                 return m(transform)  # Instantiate
         raise ValueError(f"Unsupported transform type {type(transform)}")
 
-- 
2.43.0


From ab70ef84601017c6533b5d98c1e0dfe2aac01ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:19 +0000
Subject: [PATCH 59/69] fix: energon lint crashes on empty split parts

---
 src/megatron/energon/tools/lint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/tools/lint.py b/src/megatron/energon/tools/lint.py
index 9e3ca42..dd75d96 100644
--- a/src/megatron/energon/tools/lint.py
+++ b/src/megatron/energon/tools/lint.py
@@ -11,7 +11,7 @@ import yaml
 
 from megatron.energon import WorkerConfig, get_loader, get_val_dataset
 from megatron.energon.epathlib import EPath
-from megatron.energon.flavors import BaseWebdatasetFactory
+from megatron.energon.flavors import EmptyDatasetError
 from megatron.energon.flavors.webdataset.itar import TarIndexReader
 
 
@@ -99,7 +99,7 @@ def command(path: EPath, split_parts: str, dataset_config: str, split_config: st
                 handler=handler,
                 **kwargs,
             )
-        except BaseWebdatasetFactory.EmptyDatasetError:
+        except EmptyDatasetError:
             click.echo(f"Skipping empty split part {split_part}")
             continue
 
-- 
2.43.0


From d3cba28a0837052e1904d5bad7939111b4ed39ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:19 +0000
Subject: [PATCH 60/69] fix: energon lint refuses every metadataset

---
 src/megatron/energon/tools/lint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/tools/lint.py b/src/megatron/energon/tools/lint.py
index dd75d96..73dacfb 100644
--- a/src/megatron/energon/tools/lint.py
+++ b/src/megatron/energon/tools/lint.py
@@ -18,7 +18,7 @@ from megatron.energon.flavors.webdataset.itar import TarIndexReader
 def check_index(dataset_path: EPath):
     if not dataset_path.is_dir():
         click.echo(f"{dataset_path} is not a directory, therefore the index will not be checked")
-        return
+        return True
 
     ok = True
 
-- 
2.43.0


From 2ef82af4c8a4c3a16a1ec0a853ffe23bf78917fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:19 +0000
Subject: [PATCH 61/69] fix: energon lint ignores failing samples loaded in
 worker processes

---
 src/megatron/energon/tools/lint.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/megatron/energon/tools/lint.py b/src/megatron/energon/tools/lint.py
index 73dacfb..bc0422f 100644
--- a/src/megatron/energon/tools/lint.py
+++ b/src/megatron/energon/tools/lint.py
@@ -2,6 +2,7 @@
 # SPDX-License-Identifier: BSD-3-Clause
 
 import logging
+import multiprocessing
 import traceback
 from typing import Optional
 
@@ -70,16 +71,13 @@ def command(path: EPath, split_parts: str, dataset_config: str, split_config: st
         raise click.ClickException("Validation failed with errors, see logs for details.")
 
     # Check the dataset
-    failed = False
-
-    ignore_list = []
+    # The handler is called within the worker processes, thus the list of failures must be shared
+    manager = click.get_current_context().with_resource(multiprocessing.Manager())
+    failures = manager.list()
 
     def handler(exc: Exception, key: Optional[str] = None) -> None:
-        nonlocal failed
-        failed = True
         logging.exception(str(exc))
-        if key is not None:
-            ignore_list.append(key)
+        failures.append(key)
 
     kwargs = {}
     if dataset_config != "dataset.yaml":
@@ -112,12 +110,13 @@ def command(path: EPath, split_parts: str, dataset_config: str, split_config: st
             traceback.print_exc()
             raise click.ClickException("Validation failed with errors, see logs for details.")
 
-    if failed:
+    if len(failures) > 0:
         click.echo(
             "The following shards/samples failed (maybe set as dataset.yaml:ignore_list):", err=True
         )
-        for item in ignore_list:
-            click.echo(f"- {item}", err=True)
+        for item in failures:
+            if item is not None:
+                click.echo(f"- {item}", err=True)
         raise click.ClickException("Validation failed with errors, see logs for details.")
 
 
-- 
2.43.0


From 9fb91cd5e9b421b83b43ecc7d28b70178aa8cdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:50 +0000
Subject: [PATCH 62/69] fix: energon lint refuses every crude dataset

---
 src/megatron/energon/tools/lint.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/tools/lint.py b/src/megatron/energon/tools/lint.py
index bc0422f..e6bbb87 100644
--- a/src/megatron/energon/tools/lint.py
+++ b/src/megatron/energon/tools/lint.py
@@ -10,12 +10,18 @@ import click
 import tqdm
 import yaml
 
-from megatron.energon import WorkerConfig, get_loader, get_val_dataset
+from megatron.energon import Cooker, DefaultTaskEncoder, WorkerConfig, get_loader, get_val_dataset
 from megatron.energon.epathlib import EPath
 from megatron.energon.flavors import EmptyDatasetError
 from megatron.energon.flavors.webdataset.itar import TarIndexReader
 
 
+class LintTaskEncoder(DefaultTaskEncoder):
+    """Loads the samples as they are, also the ones of crude datasets."""
+
+    cookers = [Cooker(cook=lambda sample: sample)]
+
+
 def check_index(dataset_path: EPath):
     if not dataset_path.is_dir():
         click.echo(f"{dataset_path} is not a directory, therefore the index will not be checked")
@@ -94,6 +100,7 @@ def command(path: EPath, split_parts: str, dataset_config: str, split_config: st
                 split_part=split_part,
                 worker_config=worker_config,
                 batch_size=1,
+                task_encoder=LintTaskEncoder(),
                 handler=handler,
                 **kwargs,
             )
-- 
2.43.0


From 1929da4e23616cba30f5c9f23d05b776fc428907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:50 +0000
Subject: [PATCH 63/69] fix: energon preview fails for crude samples

---
 src/megatron/energon/tools/preview.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/megatron/energon/tools/preview.py b/src/megatron/energon/tools/preview.py
index 6317ec7..8621fca 100644
--- a/src/megatron/energon/tools/preview.py
+++ b/src/megatron/energon/tools/preview.py
@@ -87,10 +87,18 @@ def to_str(value: Any, indent: str) -> str:
 
 def pprint(idx: int, sample: Sample):
     click.echo(f"Sample {idx}")
-    for field in dataclasses.fields(sample):
-        if field.name in ("__restore_key__", "__subflavor__", "__subflavors__"):
+    if isinstance(sample, dict):
+        # Crude samples are dictionaries
+        fields = [(name, type(value), value) for name, value in sample.items()]
+    else:
+        fields = [
+            (field.name, field.type, getattr(sample, field.name))
+            for field in dataclasses.fields(sample)
+        ]
+    for name, field_type, value in fields:
+        if name in ("__restore_key__", "__subflavor__", "__subflavors__"):
             continue
-        click.echo(f" - {field.name} ({field.type}): {to_str(getattr(sample, field.name), '')}")
+        click.echo(f" - {name} ({field_type}): {to_str(value, '')}")
 
 
 @click.command(name="preview")
-- 
2.43.0


From c9051e5e8b990407bca4a30bd34a5dcc579f405d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:50 +0000
Subject: [PATCH 64/69] fix: energon preview fails for single colored and
 narrow images

---
 src/megatron/energon/tools/preview.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/megatron/energon/tools/preview.py b/src/megatron/energon/tools/preview.py
index 8621fca..a9d552c 100644
--- a/src/megatron/energon/tools/preview.py
+++ b/src/megatron/energon/tools/preview.py
@@ -39,14 +39,14 @@ def to_str(value: Any, indent: str) -> str:
             procrustes = 0.3
             # keep aspect ratio
             if orig_w / orig_h < dst_w / dst_h:
-                dst_h = int(dst_w * procrustes * orig_h / orig_w)
+                dst_h = max(1, int(dst_w * procrustes * orig_h / orig_w))
             else:
-                dst_w = int(dst_h / procrustes * orig_w / orig_h)
+                dst_w = max(1, int(dst_h / procrustes * orig_w / orig_h))
             value = torch.nn.functional.interpolate(
                 value[None, None, :, :].to(dtype=torch.float32), size=(dst_h, dst_w), mode="area"
             )[0, 0]
-            # normalize
-            value = (value - value.min()) / (value.max() - value.min())
+            # normalize (avoid dividing by 0 for a single colored image)
+            value = (value - value.min()) / (value.max() - value.min()).clamp(min=1e-12)
             # to ascii text
             return (
                 f"Tensor(shape={orig_value.shape}, dtype={orig_value.dtype}):\n{indent}"
-- 
2.43.0


From f142ea773b5d9b68e0fc6ba6695097c8da79e6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:34 +0000
Subject: [PATCH 65/69] fix: energon info fails for datasets without
 sample_type

---
 src/megatron/energon/tools/info.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/megatron/energon/tools/info.py b/src/megatron/energon/tools/info.py
index 3964759..177c5d6 100644
--- a/src/megatron/energon/tools/info.py
+++ b/src/megatron/energon/tools/info.py
@@ -56,14 +56,19 @@ def command(
     info_config = yaml.safe_load(StringIO((path / MAIN_FOLDER_NAME / ".info.yaml").read_text()))
     split_config = yaml.safe_load(StringIO((path / MAIN_FOLDER_NAME / split_config).read_text()))
     samples_count = sum(info_config["shard_counts"].values())
-    dict_sample_type = ds_config["sample_type"]
-    sample_module = import_module(dict_sample_type["__module__"])
-
-    sample_cls: Type[BaseCoreDatasetFactory] = getattr(sample_module, dict_sample_type["__class__"])
+    if "sample_type" in ds_config:
+        dict_sample_type = ds_config["sample_type"]
+        sample_module = import_module(dict_sample_type["__module__"])
+        sample_cls: Type = getattr(sample_module, dict_sample_type["__class__"])
+    else:
+        # The dataset class itself defines the sample type (e.g. crude datasets)
+        dataset_module = import_module(ds_config["__module__"])
+        dataset_cls: Type[BaseCoreDatasetFactory] = getattr(dataset_module, ds_config["__class__"])
+        sample_cls = dataset_cls.__sample_type__
     sample_module = sample_cls.__module__
     if (
         sample_module.startswith("megatron.energon")
-        and getattr(megatron.energon, dict_sample_type["__class__"], None) == sample_cls
+        and getattr(megatron.energon, sample_cls.__name__, None) == sample_cls
     ):
         sample_module = "megatron.energon"
     sample_name = sample_cls.__name__
-- 
2.43.0


From b5782043ba857454248d0423f1740916567018f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:34 +0000
Subject: [PATCH 66/69] fix: energon info handles shard patterns, excluded
 shards and empty datasets

---
 src/megatron/energon/tools/info.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/tools/info.py b/src/megatron/energon/tools/info.py
index 177c5d6..41814a9 100644
--- a/src/megatron/energon/tools/info.py
+++ b/src/megatron/energon/tools/info.py
@@ -5,6 +5,7 @@ from importlib import import_module
 from io import StringIO
 from typing import Type
 
+import braceexpand
 import click
 import yaml
 
@@ -74,6 +75,22 @@ def command(
     sample_name = sample_cls.__name__
     sample_fullname = sample_module + "." + sample_name
 
+    # Same as when loading the dataset: Expand the patterns and leave out excluded shards
+    excludes = {
+        name
+        for pattern in split_config.get("exclude") or ()
+        for name in braceexpand.braceexpand(pattern)
+    }
+    split_shards = {
+        split_name: [
+            name
+            for pattern in split_parts
+            for name in braceexpand.braceexpand(pattern)
+            if name not in excludes
+        ]
+        for split_name, split_parts in split_config["split_parts"].items()
+    }
+
     def srt_key(pair):
         try:
             return ("train", "val", "test").index(pair[0])
@@ -86,13 +103,13 @@ def command(
             split_ratio=round(
                 100
                 * sum(info_config["shard_counts"][shard] for shard in split_parts)
-                / samples_count,
+                / max(1, samples_count),
                 2,
             ),
             split_samples_count=sum(info_config["shard_counts"][shard] for shard in split_parts),
             split_shards_count=len(split_parts),
         )
-        for split_name, split_parts in sorted(split_config["split_parts"].items(), key=srt_key)
+        for split_name, split_parts in sorted(split_shards.items(), key=srt_key)
     )
     print(
         fmt.format(
-- 
2.43.0


From b1320f113f7c7bd2ddc885077d9f860dacebd360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:34 +0000
Subject: [PATCH 67/69] fix: energon preview fails for named tuples

---
 src/megatron/energon/tools/preview.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/tools/preview.py b/src/megatron/energon/tools/preview.py
index a9d552c..66a1916 100644
--- a/src/megatron/energon/tools/preview.py
+++ b/src/megatron/energon/tools/preview.py
@@ -67,8 +67,8 @@ def to_str(value: Any, indent: str) -> str:
             return (
                 f"{type(value).__name__}(\n{indent}"
                 + f",\n{indent}  ".join(
-                    f"{field.name}={to_str(value, indent + '    ')}"
-                    for value, field in zip(value, value._fields)
+                    f"{name}={to_str(item, indent + '    ')}"
+                    for item, name in zip(value, value._fields)
                 )
                 + f"\n{indent})"
             )
-- 
2.43.0


From 43393654d2f29224a4ff9e5b0159d5e64f38b99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:24 +0000
Subject: [PATCH 68/69] fix: energon preview fails for empty tensors

---
 src/megatron/energon/tools/preview.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/tools/preview.py b/src/megatron/energon/tools/preview.py
index 66a1916..4768a44 100644
--- a/src/megatron/energon/tools/preview.py
+++ b/src/megatron/energon/tools/preview.py
@@ -22,7 +22,7 @@ def to_str(value: Any, indent: str) -> str:
     if isinstance(value, torch.Tensor):
         orig_value = value
         # Probably image?
-        if value.ndim == 3 and value.shape[0] in [1, 3, 4]:
+        if value.ndim == 3 and value.shape[0] in [1, 3, 4] and value.numel() > 0:
             # Convert to grayscale
             if value.shape[0] == 1:
                 value = value[0]
@@ -30,7 +30,7 @@ def to_str(value: Any, indent: str) -> str:
                 value = value.to(dtype=torch.float32).mean(dim=0)
             elif value.shape[0] == 4:
                 value = value[:3].to(dtype=torch.float32).mean(dim=0)
-        if value.ndim == 2:
+        if value.ndim == 2 and value.numel() > 0:
             # 2d image -> ascii print
             # Resize to fit terminal
             dst_w, dst_h = shutil.get_terminal_size((80, 24))
-- 
2.43.0


From e5b992ed17863edd6e5f8785a677c5ef45affe85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:55 +0000
Subject: [PATCH 69/69] fix: saving fails if checkpoints are taken more often
 than samples are prefetched

With checkpoint_every_min_n_samples=1 or n_checkpoints=1, the workers dropped the checkpoint which
was needed for the samples not yet retrieved by the main process (ValueError: No checkpoint found).
---
 src/megatron/energon/savable_loader.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index ee3579d..d0bd29f 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -34,6 +34,9 @@ from megatron.energon.wrappers.log_sample_dataset import default_get_keys
 
 T = TypeVar("T")
 
+#: Number of samples each worker of the savable loader loads ahead of the main process
+_PREFETCH_FACTOR = 2
+
 
 def _init_worker(seed_per_worker: List[int], worker_id: int):
     """Initializes the the worker process.
@@ -482,7 +485,15 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
             # The forced checkpoint may be stored any time after the previous one. Thus the samples
             # of the previous checkpoints may still not be retrieved by the main process.
             n_keep = self.n_checkpoints + 1 if force else self.n_checkpoints
-            while len(self._last_checkpoints) > n_keep:
+            # The main process may not have retrieved the last samples yet, thus the checkpoint before
+            # those must also be kept.
+            retrieved_index = self._sample_index - _PREFETCH_FACTOR
+            retrieved_epoch = self._epoch - 1 if force else self._epoch
+            while (
+                len(self._last_checkpoints) > n_keep
+                and self._last_checkpoints[1].sample_index <= retrieved_index
+                and self._last_checkpoints[1].epoch <= retrieved_epoch
+            ):
                 self._last_checkpoints.pop(0)
 
     def _save_state(self) -> SavableDatasetState:
@@ -771,7 +782,7 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
         kwargs = {}
         if self.worker_config.num_workers > 0:
             kwargs["persistent_workers"] = True
-            kwargs["prefetch_factor"] = 2
+            kwargs["prefetch_factor"] = _PREFETCH_FACTOR
 
         # Compute seeds for each worker, based on current rank
         seed_per_worker = [
-- 
2.43.0

