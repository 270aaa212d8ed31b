"""Entries of properties.jsonl / MANIFEST.json besides C01 (see props.py)."""
from props import P

WR = "wrappers/"
MORE = [
    P("C03", "Saving the loader state is free of side effects and yields an immutable snapshot",
      "Taking the loader state at any point (once, repeatedly, or after every sample) does not alter the sample stream, the global random generators, or later states; a state object does not change while the loader continues, restoring does not modify the state object, so several loaders can be restored from the same object and all continue identically, and restoring into an already used loader is the same as restoring into a fresh one.",
      ["histories", "programs"],
      "every save position, every pair of them, and saving after each sample, of all enumerated pipelines",
      "a test saves once and throws the loader away; aliasing between a saved state and the live dataset only shows when the loader goes on and the state is used afterwards",
      ["savable_loader.py", "rng.py"] + [WR + x for x in ("buffer.py", "base.py", "batch_dataset.py", "group_batch_dataset.py", "packing_dataset.py", "shuffle_buffer_dataset.py", "blend_dataset.py")],
      [("save_state of every wrapper", WR + "base.py"), ("SavableSampleBuffer.save_state", WR + "buffer.py"), ("SavableDataLoader.save_state", "savable_loader.py")],
      level="model_checking", technique="exhaustive enumeration of save histories executed on the real pipelines, compared with the run without saving",
      note="1129 pipelines (997 over an in-memory source, 132 over real tar datasets) x every save position (thorough: every pair), in-process loading"),
    P("C05", "Sharding gives every sample to exactly one worker, evenly, in any rank layout",
      "For every dataset (any shard sizes, empty shards, joined columns), number of ranks and workers per rank, slice limit and rotation, the slices of all workers together cover every sample of the split exactly once in order, worker shares differ by at most one sample, slices never exceed the maximum slice length and lie inside one shard, joined columns are cut identically, the share of the k-th global worker depends only on the total number of workers (not on ranks x workers), and the extra samples of several blended datasets are rotated over the workers instead of piling up on the first ones. Reading one validation epoch over all workers delivers every sample of the split exactly once.",
      ["configurations", "inputs"],
      "all shard count vectors, world/worker layouts, slice limits and rotations within bounds",
      "off-by-ones at shard or worker borders show for particular divisibility relations only; tests use one dataset and two layouts",
      ["flavors/webdataset/sharder.py", "flavors/webdataset/base_webdataset.py", "task_encoder/base.py"],
      [("Sharder.split_samples_to_workers/shard_workers", "flavors/webdataset/sharder.py"), ("worker rotation offset of blended datasets", "metadataset/metadataset.py")],
      level="exploration", technique="bounded exhaustive enumeration of shard vectors x layouts on the real sharder and on real tar datasets read by all workers",
      note="up to 3 shards of 0..4 samples (thorough 6), 25 layouts up to 12 workers, 5 slice limits, 4 rotations; real datasets in 11 layouts"),
    P("C06", "Every epoch contains each sample exactly once, in every order the options allow",
      "Training data with shuffle_over_epochs_multiplier=k delivers, per worker, in every window of k epochs each sample of that worker exactly k times; with -1 slices are drawn with replacement. Samples of a slice (max_samples_per_sequence) always come in file order, at most parallel_shard_iters slices are being read at a time, a started slice is finished before the epoch ends, and every such order is produced by some random outcome. Validation data is delivered in file order, each sample once per epoch. Excluded samples and shards never appear.",
      ["schedules", "configurations"],
      "every sequence of random answers for small datasets (all shard vectors, slice limits, parallel iterators, multipliers, layouts within bounds), plus seeded multi-epoch runs on larger ones",
      "a dropped or repeated slice at the hand-over between slices or epochs needs a particular interleaving of random choices; tests look at a few seeds",
      ["flavors/webdataset/sample_loader.py", "flavors/webdataset/sharder.py", "rng.py", "flavors/webdataset/metadata.py"],
      [("WebdatasetSampleLoaderDataset shard iteration", "flavors/webdataset/sample_loader.py"), ("WorkerRng", "rng.py")],
      level="model_checking", technique="stateless model checking of the real reader over real tar files with all random choices scripted; the set of produced orders equals the one of an explicit-state slot machine",
      note="datasets of up to 4 (thorough 5) samples in up to 3 shards, 1-3 and 16 parallel iterators, 5 layouts; windows over 4 epochs for larger ones"),
    P("C07", "Data order is reproducible and independent of the rank and worker layout",
      "The order and content of the delivered data is a function of the dataset, the options, seed_offset and the global number of workers only: for any factorization of that number into ranks and worker processes the k-th global worker delivers the same stream (keys and content; user augmentation drawn from the sample index excepted), so the same global batches can be formed; building the loader again gives the same stream whatever the state of the global torch/numpy/random generators, however many numbers other code draws from them meanwhile, and whatever the log level; different workers and different seed offsets use different seeds, and the seed offset changes the training order.",
      ["configurations", "programs"],
      "all factorizations of 1-4 (thorough 6) global workers of every enumerated pipeline; all rebuilds under different global generator states",
      "tests compare two layouts of one dataset",
      ["docs/source/repro_scaling.md", "worker.py", "rng.py", "savable_loader.py", "task_encoder/base.py"],
      [("WorkerConfig.worker_seed / global_worker_id", "worker.py"), ("WorkerRng, SystemRng", "rng.py")],
      level="exploration", technique="bounded exhaustive enumeration of layouts x pipelines executed on the real code, all streams of one worker count must coincide",
      note="pipelines over in-memory and real tar datasets x all world x workers factorizations; streams of 9 (thorough 16) samples per worker"),
    P("C08", "Every sample can be restored from its restore key, exactly, without side effects",
      "For pipelines of stateless functions, restore_sample(sample.__restore_key__) returns a sample identical to the delivered one (content, keys, sample-index dependent augmentation), for every delivered sample of every stage (plain, generator output, batch, group, pack, blended, joined, epochized, excluded neighbours), on a freshly built loader as well as on a loader in the middle of its stream; the keys of different samples differ; and restoring samples does not change what the loader delivers afterwards.",
      ["histories", "programs"],
      "every delivered sample of every enumerated pipeline, on a fresh loader and between any two samples of a running one",
      "each wrapper encodes and decodes its own part of the key; tests restore a few keys of two pipelines",
      ["savable_loader.py", "flavors/base_dataset.py", "flavors/webdataset/sample_loader.py", "flavors/webdataset/joined_webdataset.py", WR + "base.py"] + [WR + x for x in ("batch_dataset.py", "map_dataset.py", "packing_dataset.py", "blend_dataset.py")],
      [("restore_sample of every wrapper", WR + "base.py"), ("WebdatasetSampleLoaderDataset.restore_sample", "flavors/webdataset/sample_loader.py"), ("loader restore_sample", "savable_loader.py")],
      level="model_checking", technique="exhaustive enumeration of restore histories (every key at every stream position) executed on the real pipelines",
      note="1129 pipelines, streams of 7 (thorough 14) samples, SavableDataLoader and BasicDataLoader, in-process"),
    P("C09", "Batching partitions the stream into consecutive batches",
      "BatchDataset (and the batching stage of a task encoder) hands the samples of each worker to the batch function in stream order, in consecutive groups of exactly batch_size; the last incomplete group of an epoch is delivered iff drop_last is off; a batch function that skips or fails loses exactly its own group, a generator batch function contributes each of its outputs in order, and the reported length equals the number of batches for batch functions returning one batch each.",
      ["inputs", "configurations", "histories"],
      "all stream lengths, batch sizes, drop_last settings, worker counts and outcome vectors (ok / skip / error / generator) within bounds",
      "tests use a few sizes and never mix skips, errors and partial batches",
      [WR + "batch_dataset.py", "task_encoder/base.py"],
      [("BatchDataset.__iter__", WR + "batch_dataset.py"), ("DefaultTaskEncoder.build_batch", "task_encoder/base.py")],
      level="exploration", technique="bounded exhaustive enumeration of streams and outcomes on the real code against a list reference",
      note="streams up to 8 samples, batch sizes up to 4, 0-3 workers, all outcome vectors"),
    P("C10", "Grouped batching forms complete same-group batches and loses nothing",
      "With a batch_group_criterion every batch contains samples of one group only, in stream order within the group, of exactly the size requested for that group (or the fixed batch size); a batch is delivered as soon as its group is complete; at the end of the epoch each group's remainder is delivered exactly once as a smaller batch unless drop_last is set; skipped or failing criteria lose only that sample and skipped or failing batch functions only that batch; encode_batch is applied to each batch.",
      ["inputs", "configurations"],
      "all assignments of samples to groups, size tables, drop_last, outcome vectors within bounds",
      "the interleaving of groups in the stream decides which bucket fills when; tests use one assignment",
      [WR + "group_batch_dataset.py", "task_encoder/base.py"],
      [("GroupBatchDataset.__iter__ and buckets", WR + "group_batch_dataset.py"), ("DefaultTaskEncoder.build_batch", "task_encoder/base.py")],
      level="exploration", technique="bounded exhaustive enumeration of group assignments and outcomes on the real code against a list reference",
      note="up to 6 samples x 2 groups (thorough: 8 x 3), all outcome vectors"),
    P("C11", "Packing offers every sample once and delivers exactly the selected packs",
      "PackingDataset offers each sample to the pre-packer in exactly one consecutive window of packing_buffer_size samples (the last one may be smaller), delivers exactly the packs the pre-packer selected, with the samples in the selected order and the packs in the selected order, nothing else and nothing twice, also at the epoch end; a skipped or failing pre-packer loses only its window, a skipped or failing final packer only its pack; packing combined with batching batches the packs.",
      ["inputs", "configurations", "programs"],
      "all ordered selections of all windows of streams within bounds, all outcome vectors of both user functions",
      "tests use one deterministic selection; lost or repeated samples depend on which positions are selected in which order",
      [WR + "packing_dataset.py", WR + "buffer.py", "task_encoder/base.py"],
      [("PackingDataset.__iter__", WR + "packing_dataset.py"), ("build_batch with packing_buffer_size", "task_encoder/base.py")],
      level="exploration", technique="bounded exhaustive enumeration of selections and outcomes on the real code against a list reference",
      note="windows up to 3 samples with all ordered partial selections, streams of up to 8 samples, 0-2 workers"),
    P("C12", "Blending follows the weights and keeps each source's order",
      "Blended training data draws the source of every sample with probability proportional to the weights among the sources that have samples for this worker (a zero-weight or empty source is never drawn, every sequence of positively weighted sources is possible), delivers every source's samples in that source's own order, restarts a finished source without losing or repeating a sample, and records the source in the restore key. Mixed batches (MixBatchDataset) consist of exactly batch_size samples drawn the same way.",
      ["schedules", "configurations"],
      "all source-choice sequences up to the depth bound for all weight vectors, source sizes and workers within bounds",
      "tests observe a few pseudo-random draws of one weighting; wrong index mapping appears only if some worker has an empty source",
      [WR + "blend_dataset.py", WR + "mix_batch_dataset.py", "rng.py"],
      [("BlendDataset.__iter__", WR + "blend_dataset.py"), ("MixBatchDataset", WR + "mix_batch_dataset.py"), ("WorkerRng.choice_idx", "rng.py")],
      level="model_checking", technique="stateless model checking: the random source is a scripted branch point, all choice sequences are executed on the real code",
      note="up to three sources of 0..3 samples, sequences of 5 (thorough: 7) draws, 0 or 2 workers"),
    P("C13", "Epoch lengths add up over all workers",
      "A virtual epoch of length L delivers exactly L samples per epoch summed over the workers, continuing where the previous epoch stopped; a limit delivers min(limit, size) samples per epoch in total and no sample beyond its share is consumed from the source's next epoch; concatenation delivers its datasets completely and in order; repetition delivers exactly the requested number of passes; the reported lengths agree with what is delivered. This holds over all epochs for every number of workers, also through the task encoder's train (virtual_epoch_length) and validation (limit) pipelines.",
      ["inputs", "configurations", "histories"],
      "all sizes, lengths, limits, repeats and 0-4 workers within bounds, four epochs",
      "distributing a remainder over workers and continuing over epochs has off-by-one cases tests do not sample",
      [WR + "epochize_dataset.py", WR + "limit_dataset.py", WR + "concat_dataset.py", WR + "repeat_dataset.py", "task_encoder/base.py"],
      [("EpochizeDataset", WR + "epochize_dataset.py"), ("LimitDataset", WR + "limit_dataset.py"), ("build_train_datasets/build_val_datasets", "task_encoder/base.py")],
      level="exploration", technique="bounded exhaustive enumeration of sizes x lengths x workers x epochs on the real code against index arithmetic",
      note="sources up to 7 samples (thorough 12), lengths up to 14, 0-4 workers, 4 epochs"),
    P("C14", "Failures of user code are contained per sample; system errors stop the iteration",
      "Whatever user callback fails on whatever sample: SkipSample silently drops exactly that sample (or batch, pack), an ordinary exception drops exactly it after the error handler was called exactly once with the exception and the offending sample, and the iteration continues with all other samples intact and in order; a system exception (e.g. MemoryError, NameError, ImportError) is never swallowed but surfaces as FatalSampleError, also through outer wrappers. Later sample indices and states stay balanced.",
      ["fault_sequences"],
      "every exception class x callback x position; all outcome vectors {ok, skip, error, fatal}; all pairs of nested stages",
      "tests throw one exception in one callback",
      ["errors.py", WR + "map_dataset.py", WR + "batch_dataset.py", WR + "group_batch_dataset.py", WR + "packing_dataset.py", WR + "iter_map_dataset.py", WR + "skip.py", "task_encoder/base.py"],
      [("SYSTEM_EXCEPTIONS / FatalSampleError", "errors.py"), ("error handling of each wrapper", WR + "map_dataset.py")],
      level="fault_enumeration", technique="exhaustive fault enumeration: every exception class at every callback and position, all outcome vectors, on the real code",
      note="28 exception classes x 10 callbacks x 4 positions, all 4^n outcome vectors, all nested pairs"),
    P("C15", "Tar shards of any layout are indexed and read back exactly",
      "Preparing a dataset writes for every tar file an index with the byte offset of the first member of every sample (consecutive regular members with the same base name; directories, links, meta entries and files without extension ignored) followed by the end of the archive, and the sample count and parts found. Reading delivers every sample with exactly its parts and contents, in order, whether the file is read as a whole, as sub-ranges by several workers, continued from a saved position, or by random access; excluded samples and unselected parts are left out without affecting any other sample.",
      ["inputs", "configurations"],
      "all sequences of 15 kinds of tar members up to length 3 (4-5 for smaller alphabets), two tar formats, all worker sub-ranges, resume positions, exclude sets and part selections within bounds",
      "an offset that is off for one odd member order corrupts only the range that starts there; tests write uniform tar files",
      ["flavors/webdataset/itar.py", "flavors/webdataset/prepare.py", "flavors/webdataset/single_shard_reader.py", "flavors/webdataset/config.py", "flavors/webdataset/metadata.py"],
      [("TarIndexWriter/Reader, SubFileReader, open_itar", "flavors/webdataset/itar.py"), ("SingleShardReader", "flavors/webdataset/single_shard_reader.py"), ("WebdatasetPreparator", "flavors/webdataset/prepare.py")],
      level="exploration", technique="bounded exhaustive enumeration of tar layouts through the real prepare and readers against an independent writer",
      note="about 6500 layouts, each read as a whole, by sub-ranges, resumed at each sample and by key"),
    P("C25", "The shuffle buffer permutes within its window and can produce every such order",
      "A shuffle buffer of size S delivers every sample of each epoch exactly once, never earlier than S-1 positions before its place in the input, and every order obtainable by repeatedly drawing from a window of S samples is reachable by some random draw; size 0 or 1 or None keeps the order.",
      ["schedules", "inputs"],
      "all answers of the random source for streams and buffers within bounds",
      "tests see a few pseudo-random orders",
      [WR + "shuffle_buffer_dataset.py", WR + "buffer.py", "rng.py"],
      [("ShuffleBufferDataset.__iter__", WR + "shuffle_buffer_dataset.py"), ("WorkerRng", "rng.py")],
      level="model_checking", technique="stateless model checking: all random choices scripted and enumerated; the set of produced orders equals the set of orders of an explicit-state reference buffer",
      note="streams up to 5 (thorough 7) samples, buffers up to 4 (5)"),
    P("C26", "Map, filter and iterator-map keep order and account for each input once",
      "Map, filter and iterator-map stages call the user function exactly once per input sample in stream order and deliver exactly its outputs in order (none for a skipped or failed sample, all outputs of a generator up to its failure); a filter passes kept samples unchanged including key and restore key; every call of a map function gets its own sample index, which never repeats within a worker.",
      ["inputs", "fault_sequences", "programs"],
      "all outcome vectors (ok / skip / error / generator of 0..2 outputs / generator failing midway) over streams within bounds, also nested and per worker",
      "tests map with total functions",
      [WR + "map_dataset.py", WR + "filter_dataset.py", WR + "iter_map_dataset.py", WR + "base.py", "task_encoder/base.py"],
      [("MapDataset.__iter__", WR + "map_dataset.py"), ("IterMapDataset", WR + "iter_map_dataset.py"), ("SampleIndex", WR + "base.py")],
      level="exploration", technique="bounded exhaustive enumeration of outcome vectors on the real code against a list reference",
      note="streams up to 4 (thorough 5) samples, all outcome vectors"),
    P("C29", "A task encoder applies its stages in the documented order and completely",
      "For every combination of overridden task encoder methods and loader options the delivered stream is that of the documented composition: blended (train) or concatenated (validation) datasets, shuffle buffer on raw samples, cooking, encode_sample (plain, skipping or generator), packing, batching or grouped batching with drop_last, encode_batch (plain, skipping or generator), then the virtual epoch (train) or limit (validation), the latter counting final outputs over all workers. Contradicting settings are refused. Restoring by key is offered iff every used stage is marked stateless. DefaultTaskEncoder maps fields by name into the requested sample/batch types losing none. An AugmentTaskEncoder without overrides behaves like the encoder it wraps.",
      ["programs", "configurations"],
      "all combinations of stage kinds, batch sizes, drop_last, limits/virtual epochs, 0 or 2 workers, train and val; all type triples; all stateless markings",
      "tests use a few hand-picked encoders; a stage placed or skipped wrongly shows only for the combination that uses it",
      ["task_encoder/base.py", "docs/source/task_encoders.md"],
      [("build_train_datasets / build_val_datasets / build_batch", "task_encoder/base.py"), ("DefaultTaskEncoder", "task_encoder/base.py"), ("AugmentTaskEncoder", "task_encoder/base.py")],
      level="exploration", technique="bounded exhaustive enumeration of encoder programs executed on the real code against a list reference of the composition",
      note="about 27000 pipelines over in-memory sources; shuffle orders by scripted random choices; known findings for AugmentTaskEncoder"),
    P("C30", "Collation keeps every value: pads, stacks, recurses, applies field actions",
      "Default batching stacks tensors of arbitrary shapes into one tensor of the maximum size per dimension, each input at the start of its slot, zeros elsewhere, with the same dtype and untouched inputs; it recurses into dicts, dataclasses and named tuples of any nesting keeping container types, and returns lists of all other values in order; per-field actions and the default action of _batch are applied to exactly their fields for every combination of input and result container.",
      ["inputs"],
      "all shape combinations of 0- to 3-dimensional tensors up to the size bound in batches of 1-3; all nestings up to the depth; all action tables",
      "tests collate equally shaped tensors",
      ["task_encoder/base.py"],
      [("generic_batch, batch_pad_stack, batch_stack, batch_list", "task_encoder/base.py"), ("TaskEncoder._batch", "task_encoder/base.py")],
      level="exploration", technique="bounded exhaustive enumeration of shapes, nestings and actions on the real code against element-wise reference",
      note="about 7800 collations (thorough: more)"),
    P("C20", "Per-sample seeded functions are isolated from all other randomness",
      "A task encoder function marked stateless(restore_seeds=True) draws random numbers determined by its worker's seed and its sample index only: whatever the state of the global torch/numpy/random generators, whatever other code or other such functions draw before, between (for generators) or after its steps, and however it is nested; different samples and workers get different numbers. The caller's global generators continue as if the function had not been called, also when it raises, skips, reseeds the generators itself, or is closed before its end.",
      ["schedules", "programs"],
      "all interleavings of two calls (plain, generators, failing, nested, reseeding) with outer draws and closes up to the depth; all subsets of used generators; all pipelines with noise around",
      "tests check one function called in one order",
      ["task_encoder/base.py", "rng.py", "worker.py"],
      [("stateless(restore_seeds=True)", "task_encoder/base.py"), ("SystemRng", "rng.py")],
      level="model_checking", technique="exhaustive enumeration of interleavings executed on the real functions against independent random streams",
      note="interleavings of length 6 (thorough 8) over 5 operations for 20 pairs of function kinds"),
    P("C18", "Joined datasets deliver matching rows of all columns or refuse",
      "Each sample delivered by a joined dataset (list or dict of columns; joined by a type, a function or the default) consists of the rows with the same key of all joined columns, in the columns' places; every row is delivered exactly once per epoch over all ranks and workers, in the order of the primary column, in training and validation, for any sharding, whatever the byte layouts and parts of the columns. If the columns disagree (a renamed, shifted or swapped key, another shard structure, other excludes) the dataset is refused or the disagreement raised or given to the error handler, and never a sample of mixed keys delivered; samples before it are delivered.",
      ["inputs", "configurations"],
      "all shard sizes up to the bound, 2-3 columns, all joiner kinds, rank/worker layouts, position and column of every single disagreement, handler continuing or raising",
      "tests join perfectly matching datasets",
      ["flavors/webdataset/joined_webdataset.py", "flavors/webdataset/sample_loader.py", "flavors/webdataset/single_shard_reader.py", "metadataset/join_dataset_loader.py", "docs/source/joining_datasets.md"],
      [("JoinedWebdatasetFactory", "flavors/webdataset/joined_webdataset.py"), ("WebdatasetSampleLoaderDataset._iter multi-column", "flavors/webdataset/sample_loader.py")],
      level="exploration", technique="bounded exhaustive enumeration of column layouts, disagreements and worker layouts on the real loaders over real tar files",
      note="shards of up to 3 (thorough 5) samples, 2-3 columns, 7 worker layouts, every disagreement position"),
    P("C19", "Metadatasets compose weights, splits, labels and multipliers exactly",
      "A metadataset (v1 or v2, nested to any depth, with blends, single references and joins, files in any folder) loads exactly the referenced datasets in order: weights are the products of the weights relative to their blend (summing to 1); the split is that of the innermost reference naming one, else the requested; subflavors merge with the outer ones winning (call, then outer to inner references, then the dataset's own), subflavor is that of the outermost reference setting one; shuffle_over_epochs_multiplier multiplies and stays -1 once infinite; dataset_config and split_config apply to their own reference only; paths are relative to the file naming them. Delivered samples carry these labels. Missing paths, unknown fields, splits or configs and contradictory settings are refused.",
      ["configurations", "inputs"],
      "all option combinations per reference on every level of chains of depth 2 (a subset for depth 3), all weight vectors, all join settings, every invalid setting at every position",
      "tests load one two-level file per version",
      ["metadataset/metadataset.py", "metadataset/metadataset_v2.py", "metadataset/dataset_loader.py", "metadataset/join_dataset_loader.py", "metadataset/loader.py", "dataset_config.py", "docs/source/metadatasets.md"],
      [("Metadataset, MetadatasetBlender, DatasetReference", "metadataset/metadataset.py"), ("MetadatasetV2, MetadatasetBlend, MetadatasetJoin", "metadataset/metadataset_v2.py"), ("get_dataset_from_config, load_config", "dataset_config.py")],
      level="exploration", technique="bounded exhaustive enumeration of metadataset trees loaded by the real code against an independent evaluation of the tree",
      note="about 14000 compositions; epoch multiplier observed on the loaded dataset"),
    P("C17", "Transient I/O faults never change the bytes read from a shard",
      "RetryReadStream (and a sub range of it, as used for shard slices) behaves like the plain file for every sequence of read, seek and tell calls - bytes, positions, clamping at both ends - however the storage misbehaves in between: failing opens, seeks, reads (before or after consuming data) and closes, short reads and premature ends. Up to nine failures within one read are absorbed; a storage which keeps failing leads to an OSError after bounded effort, never to wrong or missing bytes.",
      ["fault_sequences", "histories"],
      "all sequences of up to 3 calls x all placements of up to 2 (thorough 3) faults on every access to the storage, for the whole file and sub ranges; bursts of 1..9 and of 10 or more failures at every access; all slices of a tar file read with up to two faults",
      "tests use a healthy local file system; the retry code only runs when storage fails at a particular access",
      ["retry_stream.py", "flavors/webdataset/itar.py"],
      [("RetryReadStream.read/seek", "retry_stream.py"), ("SubFileReader, open_itar", "flavors/webdataset/itar.py")],
      level="fault_enumeration", technique="exhaustive enumeration of fault placements (depth-first over the outcome of every storage access) executed on the real stream against a byte buffer",
      note="about 850000 executions; storage replaced by a fault-choosing file system behind EPath"),
    P("C16", "Preparing a dataset is crash safe",
      "Preparing a dataset (first time, again with other ratios or shards, or regenerating the index only) may be killed at any point and any write be torn: at every such moment loading its splits either refuses or delivers exactly the samples of the old or exactly those of the new preparation (never a subset, and never a mixture of old and new splits), existing complete indexes stay usable, and running it again completes it. If a write fails (e.g. disk full), preparation raises or leaves out the affected shards: every shard it lists is readable.",
      ["crash_points", "fault_sequences"],
      "every prefix of the recorded file operations with every torn write, and every combination of the progress of the parallel shards (2-3 shards); every single and every lasting write failure; 9 preparation scenarios",
      "tests never interrupt a preparation",
      ["flavors/webdataset/prepare.py", "flavors/webdataset/itar.py", "flavors/webdataset/metadata.py"],
      [("WebdatasetPreparator.prepare_dataset", "flavors/webdataset/prepare.py"), ("TarIndexWriter", "flavors/webdataset/itar.py")],
      level="fault_enumeration", technique="exhaustive enumeration of crash points and torn writes: recorded file operations of the real code are cut at every point, the directory rebuilt and the real loader run on it",
      note="about 7000 distinct directory states; crash = process crash (operations in program order, atomic rename); the replayed log is checked to reproduce the real result"),
    P("C23", "Preparation lists every readable shard and splits all of them",
      "Preparing a dataset (API or CLI) assigns every listed shard to exactly one split; each split's share differs from shards x ratio/sum by less than one shard and a zero ratio gets none; recorded per-shard sample counts equal what loading delivers, and every sample of the listed shards loads exactly once. Unreadable, missing or empty tar files are left out and do not disturb others; a damaged tar file is either left out or everything counted for it is delivered. Split patterns assign exactly the matching shards, excludes are honoured, re-indexing (--tar-index-only) changes no split, and the result does not depend on the number of parallel workers.",
      ["inputs", "configurations"],
      "all shard counts 1-8 (thorough 13) x all ratio triples, 1-5 splits, all good/empty/corrupt/truncated/missing assignments of 3 shards, cuts and header damage at every block of a tar, pattern pairs, CLI answers, 1-8 pool workers",
      "tests prepare one set of intact shards with one ratio",
      ["flavors/webdataset/prepare.py", "flavors/webdataset/itar.py", "tools/prepare.py"],
      [("WebdatasetPreparator.prepare_dataset", "flavors/webdataset/prepare.py"), ("TarIndexWriter", "flavors/webdataset/itar.py"), ("energon prepare", "tools/prepare.py")],
      level="exploration", technique="bounded exhaustive enumeration of shard states, ratios, patterns and CLI answers executed on the real preparation and loaded back with the real loader",
      note="about 7600 executions; damage at every 256 (thorough 64) bytes"),
    P("C27", "Every crude sample is cooked by the first matching cooker",
      "A task encoder cooks each crude sample with the first of its cookers all of whose given conditions hold: is_subflavor equals the sample's __subflavor__, every entry of has_subflavors is present with an equal value in __subflavors__ (which may have more), and condition(sample) is true; a cooker without conditions takes any sample. A crude sample no cooker matches is an error of that sample: reported and left out, the others are delivered in order. Typed samples mixed in pass unchanged. basic_sample_keys forwards exactly the base fields present. Crude data without any cookers is refused when building.",
      ["programs", "inputs"],
      "all lists of one and two cookers (three from a subset; thorough all) over all combinations of the three conditions x all samples (subflavor, subflavors, content), directly; lists of 1-2 through real crude datasets mixed with a typed one, train and val",
      "tests use two cookers with disjoint subflavors",
      ["task_encoder/cooking.py", "task_encoder/base.py", "flavors/crude.py", "docs/source/advanced_dataformat.md"],
      [("Cooker.is_match, basic_sample_keys", "task_encoder/cooking.py"), ("TaskEncoder.cook_crude_sample / build_cook_crude_sample", "task_encoder/base.py")],
      level="exploration", technique="bounded exhaustive enumeration of cooker lists x samples executed on the real dispatch and through real datasets against an independent predicate evaluation",
      note="5300 lists of two and 5800 of three cookers x 108 samples (1.2 million dispatches); about 220 lists through real tar datasets"),
    P("C31", "Raw parts map to the sample's fields as dataset.yaml describes",
      "With a field_map each field of the typed sample gets the value of the first alternative of its description (part, part[key][index]..., separated by commas) which exists in the sample - also if that value is null, zero, false or empty - and each field independently of the others; a sample for which some field has no existing alternative is not delivered but given to the handler once, with its key, and all others are delivered in order. A sample_loader function (from a python file, named or default) gets exactly the parts selected by part_filter (list or function), decoded unless auto_decode is off. Configurations naming unknown fields, types, files or functions, or giving both or neither of field_map and sample_loader, are refused.",
      ["inputs", "configurations"],
      "all descriptions of 1-3 alternatives over 13 accesses x about 130 samples with nested values up to depth 3, pairs of fields; all part selections x loader forms x decoding; 10 invalid configurations",
      "tests use three single-alternative maps on uniform samples",
      ["flavors/webdataset/field_access.py", "flavors/webdataset/default_generic_webdataset.py", "flavors/webdataset/default_decoder_webdataset.py", "module_loader.py", "docs/source/advanced_dataformat.md"],
      [("split_field_access, field_access", "flavors/webdataset/field_access.py"), ("DefaultGenericWebdatasetFactory", "flavors/webdataset/default_generic_webdataset.py"), ("ModuleLoader.get_function", "module_loader.py")],
      level="exploration", technique="bounded exhaustive enumeration of field descriptions x sample contents loaded by the real code from real tar files, against an independent evaluator",
      note="about 2500 loads of 130 samples each; the third-party decoder leaves a json part containing just null undecoded (excluded)"),
    P("C02", "Resuming with worker processes continues the sample stream exactly",
      "With worker processes, the loader state can be taken at any time (before the first sample, after iter(), between any two samples, after the last one, between epochs, right after a restore), however far each worker has run ahead of the main process. A fresh loader restored from it delivers exactly the samples - same content, keys, random augmentations, order over the workers - that the interrupted one would have delivered, through the rest of that epoch and the next ones, independent of when internal checkpoints were taken and how many are kept (checkpoint_every_sec, checkpoint_every_min_n_samples, n_checkpoints); taking the state never alters the stream, fails, or blocks.",
      ["schedules", "histories", "programs"],
      "all save positions (and pairs) x vectors of worker progress x checkpoint clocks, distances and numbers x queue pickling times, for 29 pipelines and 1-3 workers",
      "workers prefetch asynchronously: which checkpoint serves a save depends on timing, tests save once or twice with whatever timing the machine gives",
      ["savable_loader.py", "worker.py", "wrappers/epochize_dataset.py", "wrappers/gc_dataset.py"],
      [("SavableDatasetWrapper checkpoints / commands", "savable_loader.py"), ("SavableDataLoader.save_state_rank / restore_state_rank", "savable_loader.py"), ("worker_id_offset", "worker.py")],
      level="model_checking", technique="stateless model checking: torch's real multi-process loader and the real saving code on a virtual multi-process machine, all save points x progress vectors; schedules replayed with real processes must give equal streams and equal states",
      note="lead of each worker in {0,1,2,all} for 1-3 workers; 2 schedules per pipeline replayed with real processes; known finding: later epochs of a resumed loader start at another worker"),
    P("C04", "Saving never blocks, fails or disturbs the workers under any schedule",
      "In every interleaving of the main process, the worker processes and their command threads, each request for the loader state is answered - before the first sample, right after iter(), between samples, at and after the end of an epoch, after a restore, several times in a row - with a state that continues the stream; it neither deadlocks nor raises, and the samples delivered are the same as without it. If a worker dies of a fatal error, the error reaches the user and nothing hangs. Dropping the loader ends all of its workers and command threads.",
      ["schedules", "histories"],
      "all schedules with at most 1-3 (thorough 2-4) deviations from a default schedule at every queue, lock, event and thread operation, and at every line of the saving code, for 13 scenarios of 1-2 workers",
      "the command threads run concurrently with the sample loop: tests see the one schedule the machine happens to produce",
      ["savable_loader.py", "wrappers/gc_dataset.py", "worker.py"],
      [("SavableDatasetWrapper command thread and lock", "savable_loader.py"), ("SavableDataLoader._worker_command", "savable_loader.py"), ("gc_init_worker", "wrappers/gc_dataset.py")],
      level="model_checking", technique="stateless model checking with a deviation bound: the real loader, workers and command threads under a controlled scheduler on a virtual multi-process machine; sampled schedules validated against real processes",
      note="about 24000 executions, 1.6 million scheduling decisions; a deviation = another enabled task is chosen at one scheduling point"),
    P("C24", "Saving and restoring across ranks keeps every rank's own state",
      "When torch.distributed is in use, save_state gives every rank of the data parallel group (or just the data parallel rank dst_rank; the others get None) the states of all of its ranks in rank order, and takes them without changing any rank's stream. Restoring that list on every rank, only on src_rank (the others passing None), or each rank its own state makes every rank continue exactly where it was, whatever the positions of the ranks, for any partition of the processes into data parallel groups. Saving again right after restoring is equivalent.",
      ["configurations", "histories"],
      "all partitions of up to 4 processes into data parallel groups x all vectors of rank positions (2-5 positions) x every dst_rank x every way of restoring, 5 pipelines without and 2 with worker processes",
      "tests never initialise torch.distributed",
      ["savable_loader.py", "worker.py"],
      [("SavableDataLoader.save_state / restore_state", "savable_loader.py"), ("WorkerConfig.default_worker_config", "worker.py")],
      level="model_checking", technique="explicit enumeration of group partitions, rank positions and save/restore modes executed on the real code with torch's in-process collective backend; selected configurations with real gloo processes",
      note="about 1780 vectors of rank positions; collectives themselves (torch) are trusted"),
    P("C21", "Paths mean the same file, locally and on rclone remotes",
      "An EPath behaves like a POSIX path: joining a relative path gives the normalised path below it ('.' and '..' resolved; leaving the root of the file system, or the rclone remote, is refused with ValueError), joining an absolute path or url gives that one; parent, name, with_suffix, relative_to, ordering, equality and hash agree with the path; str(p) denotes the same path on the same remote again. glob returns exactly the entries below the path matching the pattern, whatever characters the path contains. Reading, writing, moving, deleting, size and type queries act on exactly that file, on that remote, also in forked processes. Remotes are configured as in rclone.conf, from its documented locations in order.",
      ["inputs", "histories", "configurations"],
      "all paths reached from 26 paths with up to 3 (thorough 4) operations out of about 50; all pairs of 240 paths; all sequences of 2-3 (thorough 3-4) file operations on local and remote files; 96 combinations of base directory and files x 12 glob patterns; all config values up to 2 (thorough 3) of 16 characters; all 64 combinations of config locations",
      "tests join a handful of paths",
      ["epathlib/epath.py", "epathlib/rclone_config.py", "docs/source/remote_dataset.md"],
      [("EPath", "epathlib/epath.py"), ("read_rclone_config", "epathlib/rclone_config.py")],
      level="model_checking", technique="explicit-state breadth-first search over reachable paths, each transition executed on the real EPath and on an independent path model; exhaustive file operation sequences against pathlib on a twin directory and a dictionary for an in-memory object store",
      note="about 44000 states and 229000 transitions; s3fs is replaced by an object store in memory"),
    P("C22", "Configurations become exactly the objects they describe, or are refused",
      "Configuration data (the contents of a dataset or metadataset YAML, or a dict) is converted by type, and either the described value results or a conversion error is raised; nothing is coerced, dropped, reordered or replaced silently and the input is not modified. "
      "Primitives and Literals are accepted as they are if they match (an int for a float); unions (Union, Optional, A | B) take the first alternative which fits, in order; List, Set (a duplicate is refused), fixed and variable length Tuple, Dict, NamedTuple, dataclass, EPath and Any convert their content; dict and list without content types are taken as they are. "
      "For objects and functions, missing required arguments, ill-typed arguments and (strict) unknown arguments are refused, positional arguments keep their order, default values of the code are used as they are, and only arguments present in the data are passed. "
      "A named class or function (__module__ with __class__ / __function__) is exactly the one named (or, if its module does not exist any more, energon's object of that name) and is instantiated with the data's arguments, also nested; a missing one is refused. "
      "load_config builds the object named by the data (or the default one) with the default arguments overridden by the data.",
      ["inputs", "configurations", "programs"],
      "All types up to a depth (including dataclasses and NamedTuples with and without defaults) x raw values up to a depth x strictness, all call signatures up to three parameters (kinds, defaults, annotations) x argument sets, named objects below each container, and configuration bodies x default arguments x file or dict.",
      "Everything a user configures (sample types, part filters, loaders, subflavors, weights, splits) passes through this conversion; a value that is silently dropped, coerced or attached to the wrong argument trains on different data.",
      ["typed_converter.py", "dataset_config.py"],
      [("raw_to_typed / safe_call_function", "typed_converter.py"), ("load_config", "dataset_config.py")],
      level="exploration", technique="exhaustive enumeration of (type, raw value), (signature, arguments) and (configuration, defaults) combinations within depth bounds, each executed on the real converter and compared to an independent evaluator",
      note="about 1.1 million executions; string annotations and extra keys next to a class reference are outside the statement"),
    P("C28", "A merged transform gives the images its transforms give one by one",
      "MergeTransform(transforms) applied to a PIL image or a float tensor gives the results that torchvision's transforms give when applied one after the other, with the same probabilities: for all sequences of resizes, random resized crops, flips, rotations, random and center crops (with padding), perspective and custom transforms and all images, sizes always agree, and for transforms which move pixels exactly (nearest interpolation, at most one resize, no sample position between two pixels) so do all pixels, except that parts moved out of the image by one transform and into it again by a later one may be visible instead of the fill value. "
      "The given image is not modified. Transforms it does not support, and transforms with contradicting fill values or interpolation modes, are refused with a ValueError when it is built.",
      ["inputs", "programs"],
      "All sequences of up to 2 of 64 transforms, and of 3 of 17 transforms (thorough: more), x image sizes x image types x all outcomes of the random draws; all rotation angles in degrees; all corners of the perspective transform; sizes of all images up to 24x24 (thorough 50x50).",
      "Tests compare a few sequences on one image size each by a tolerance on the mean difference; an offset by one pixel, an ignored padding or a border position never drawn is not seen.",
      ["transforms/merge.py", "transforms/mappers.py", "transforms/custom.py", "transforms/common.py"],
      [("MergeTransform", "transforms/merge.py"), ("mappers of the single transforms", "transforms/mappers.py")],
      level="exploration", technique="exhaustive enumeration of transform sequences, image sizes and all random draws (the generators replaced by a depth-first chooser), the exact distribution of results compared with torchvision's transforms applied one by one",
      note="continuous draws are explored at their endpoints; transforms that interpolate are compared by size, perspective also by linear ramps"),
    P("C32", "The command line tools report what is in the dataset",
      "energon lint succeeds exactly if the index of every shard has the number of samples noted by the preparation and every sample of the requested split parts which is not excluded can be loaded; otherwise it exits with an error and lists exactly the keys of the samples which failed. "
      "This holds for any number of loading processes, for empty split parts, shard patterns and excludes, other dataset and split configuration files, datasets with field maps, sample loaders or crude samples, and for metadatasets (also joined and blended ones). A missing or cut off shard is an error. "
      "energon info prints, for datasets of any type, the total number of samples, bytes and shards and for each split part its percentage, samples and shards as the loader would see them (patterns expanded, excluded shards left out). "
      "energon preview shows the samples of each requested split part once, in order, until it is told to stop, for samples of any type with fields of any kind (text, numbers, nested containers, named tuples, bytes, finite tensors and images of any size), without failing.",
      ["inputs", "configurations"],
      "All words of sample outcomes (loadable, part missing, undecodable) over two shards x split parts x excludes x four kinds of datasets; metadatasets of two such datasets; every position of the failing sample with real loading processes; all small deviations of the noted shard sizes; about 2000 (thorough 10800) configurations of info; all answers to preview; images and tensors over a grid of shapes.",
      "lint is the tool which users rely on to know that all samples are loadable before training; the tests only run it never or on one dataset, and a lint which accepts a broken sample (or refuses a good dataset) is wrong only for particular positions, worker counts or splits.",
      ["tools/lint.py", "tools/info.py", "tools/preview.py", "task_encoder/loader.py"],
      [("lint", "tools/lint.py"), ("info", "tools/info.py"), ("preview", "tools/preview.py")],
      level="exploration", technique="exhaustive enumeration of sample outcomes, split configurations and answers within bounds, each executed by the real commands on datasets on disk and compared to what was written",
      note="sample outcomes are good / missing part / undecodable part; the exact layout of the preview is not checked"),
    P("C33", "No more shards are open than announced, and all of them are closed again",
      "While samples are delivered, a worker has at most parallel_shard_iters shards open per dataset and column (16 by default in training, one in validation), and no index file stays open. "
      "Constructing, restoring or saving a loader and restoring a sample by its key leave nothing (additionally) open. When an epoch has ended, the iteration was abandoned after any number of samples, a restored sample was delivered, or a damaged sample was skipped or ended the iteration with an error, all shards are closed again. The same holds for resumed loaders.",
      ["histories", "configurations", "fault_sequences"],
      "All shard layouts of up to 3 shards with up to 2 samples and some larger ones (thorough: 4 shards of up to 3) x single, joined and blended datasets x training / validation x parallel_shard_iters x slices x every number of samples after which the iteration is abandoned (and saved and resumed); damage of every sample, skipped or raised.",
      "A leaked file handle shows only after days of training on thousands of shards; tests never look at open files.",
      ["flavors/webdataset/single_shard_reader.py", "flavors/webdataset/sample_loader.py", "flavors/webdataset/itar.py", "retry_stream.py"],
      [("SingleShardReader", "flavors/webdataset/single_shard_reader.py"), ("open shard slices", "flavors/webdataset/sample_loader.py"), ("open_itar, TarIndexReader", "flavors/webdataset/itar.py")],
      level="model_checking", technique="exhaustive enumeration of histories (deliver, abandon, save, resume, restore a key, fail) within bounds on the real loader, the open files of the process compared with the bound in every state",
      note="looks at the file descriptors of the process after every sample"),
]
