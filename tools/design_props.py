D("C01", how="for every pipeline of the grammar, every save point k of the history (thorough: and every second save after resuming) is taken, pickled, restored into a freshly built pipeline and continued.", oracle="the uninterrupted run of the same pipeline; samples compared field by field including keys and restore keys.", bounds="all wrapper chains of the grammar (depth <= 3 over in-memory sources, disk pipelines with all reader options), streams of 12 samples over several epochs (thorough 26); two saves at distance <= 2 (thorough: all pairs).", cost="about 69 s (quick, 8 cores)", why="upstream tests save at one or two hand-picked positions of a few pipelines; the defects found here need a particular position (last partial batch, unfinished generator, end of a worker's share).", limits="iter-map with several outputs cannot resume inside one input (documented); user state outside of the pipeline is not part of a state.")
D("C02", how="the virtual multi-process machine executes every save position x every vector of how far each worker ran ahead (prefetch) x checkpoint clock behaviours x early/late pickling; each distinct saved state is restored in a fresh loader. Some schedules are replayed with real processes.", oracle="the uninterrupted stream; equality of model and real states in the replays.", bounds="29 pipelines x 1-3 workers, streams of 14/20/24 samples (thorough: double), progress of the other workers 0, 1, 2 or 9 samples ahead, checkpoint clocks: fast, stuck, in bursts.", cost="about 67 s (quick, 8 cores)", why="the tests cannot control how far a worker has run; wrong checkpoint selection shows only for particular progress vectors.", limits="known finding: worker rotation of epochs after the resumed one.")
D("C03", how="all single save positions and the set of all positions (thorough: all pairs) of every pipeline; the saved state is kept and compared again after the run.", oracle="the run without saving; a deep canonical form of the state at save time.", bounds="the pipeline grammar; 7 samples (thorough 10), every single position and every subset of positions.", cost="about 40 s (quick, 8 cores)", why="aliasing of mutable state into a snapshot shows only if the run continues long enough afterwards.")
D("C04", how="deviation-bounded exhaustive search over schedules of main process, workers, command threads and queue feeders on the virtual machine; the saving code is additionally interleaved line by line. Outcomes checked: no deadlock, no error in a task, reference stream, states which resume exactly, no leftover tasks.", oracle="reference stream; restored continuation.", bounds="scripts of save/next/drop over 1-2 workers; per scenario a deviation bound of 1-3 (thorough: one more), see SCEN in checks/c04.py.", cost="about 88 s (quick, 8 cores)", why="a race in the command protocol needs one particular interleaving; real-process tests meet one schedule.", limits="thread switches inside C code and memory model effects do not exist under the GIL model.")
D("C05", how="all shard size vectors x rank/worker layouts x slice lengths x rotation offsets through the real sharder, and end to end through tar datasets.", oracle="index arithmetic: every sample index owned once, sizes differ by at most one, rank layouts of the same global worker count are equal.", bounds="up to 3 shards of 0..4 samples (thorough 6), 4 shards of {0,1,3}, selected larger ones; up to 8 ranks and (ranks, workers) = (1,4), (2,3), (6,1), (8,1).", cost="about 19 s (quick, 8 cores)", why="off-by-one at slice and shard borders depends on particular size vectors.")
D("C06", how="every sequence of random answers (shard shuffle, slot choice) on real tar datasets; the observed set of orders must EQUAL the set of an explicit-state slot machine.", oracle="reference slot machine (states enumerated breadth first).", bounds="up to 4 shards / 5 samples with every outcome, multipliers 1, 2, 3, -1, several layouts; larger seeded configurations over 4 epochs for the accounting.", cost="about 42 s (quick, 8 cores)", why="'can produce every order the options allow' and 'never another one' are statements over all random outcomes.")
D("C07", how="every factorization world x workers of a global worker count, repeated builds under perturbed global generators and log levels.", oracle="all streams of the same global worker must coincide.", bounds="global worker counts 1-4 (thorough 6), the pipeline grammar.", cost="about 18 s (quick, 8 cores)", why="dependence on hash seeds, global RNG or rank layout is invisible in one layout.")
D("C08", how="every delivered sample's key restored on a fresh loader, and all keys between any two samples of a running loader.", oracle="the delivered sample; the undisturbed stream.", bounds="the pipeline grammar and disk pipelines, 7 samples (thorough 14).", cost="about 14 s (quick, 8 cores)", why="restore during iteration and keys of the later epochs/late pipeline positions are not tested upstream.", limits="MixBatchDataset and non-stateless functions are not restorable by design.")
D("C09", how="all stream lengths x batch sizes x drop_last x workers, all outcome vectors (ok/skip/error/generator) of the batch function.", oracle="list slicing.", bounds="streams to 8 (thorough 12), batch sizes to 4 (6), 0-3 workers.", cost="about 8 s (quick, 8 cores)", why="interplay of skips, partial batches and worker shares.")
D("C10", how="all assignments of samples to groups x batch sizes (fixed, per group) x drop_last; all skip/error outcomes.", oracle="per-group lists.", bounds="6 samples (thorough 8), 2 groups (3).", cost="about 9 s (quick, 8 cores)", why="flush order and leftovers per assignment.")
D("C11", how="all selections (ordered disjoint lists) for every window of up to two windows; all outcomes of selection/packing functions; pre-packing.", oracle="list reference of buffer + selection.", bounds="streams to 8 (thorough 12), buffers to 4, all selections for two windows (thorough three); patterned skips over 40 windows.", cost="about 20 s (quick, 8 cores)", why="samples are lost only for particular selections at particular fill levels.")
D("C12", how="all source-choice sequences of length L (random source scripted), weights incl. 0, finite sources with restart.", oracle="per-source cursors; the weight vector handed to the random source must be the configured one.", bounds="3 sources of 0..3 samples, L <= 5 (thorough 7).", cost="about 7 s (quick, 8 cores)", why="only exhaustive choice enumeration shows order violations independent of luck.")
D("C13", how="all source sizes x lengths/limits/repeats x 0..4 workers over four epochs; sources which resume and sources which restart when iterated again.", oracle="index arithmetic.", bounds="up to 7 samples (thorough 12), 0-4 workers, four epochs.", cost="about 8 s (quick, 8 cores)", why="remainders over workers and epochs beyond the first.")
D("C14", how="every exception class at every callback and position; all outcome vectors; pairs of nested stages; error handlers.", oracle="documented containment: skip/ordinary errors lose exactly the sample, system errors propagate.", bounds="15 exception classes, streams of 4 (thorough 6).", cost="about 9 s (quick, 8 cores)", why="fault position and class matter individually.")
D("C15", how="every word of tar member kinds (files, directories, links, long names, dotted names, several parts) through the real prepare and readers; sub-ranges, resumes, keys, excludes.", oracle="independent tar writer with known offsets.", bounds="words up to 5 members, two shards.", cost="about 35 s (quick, 8 cores)", why="index offsets depend on header layout (pax/gnu extensions, padding).")
D("C16", how="recorded file operations of preparation cut at every point with torn writes at every byte; parallel shard progress combined; lasting and single write failures.", oracle="a reader sees the old dataset, the new one, or none.", bounds="two shards; first/again/added/removed preparation (SCEN in checks/c16.py), every cut and torn write.", cost="about 70 s (quick, 8 cores)", why="crash points cannot be hit by tests.", limits="process crash model (program order, atomic rename), no power loss reordering.")
D("C17", how="every call sequence up to a depth x every placement of up to a budget of faults on every storage access.", oracle="byte buffer.", bounds="depth 3, two faults (thorough three); fault bursts up to 10^6; fault-free seeks/reads at depth 3 (4); faults over many reads.", cost="about 21 s (quick, 8 cores)", why="a fault after a partial read at a particular position.")
D("C18", how="shard vectors x columns x join kinds x layouts, every single disagreement at every position, excludes.", oracle="row-wise zip of columns.", bounds="up to 3 shards of 0..3 samples (thorough 5), 2-3 columns.", cost="about 51 s (quick, 8 cores)", why="the single mismatch which delivers a wrong partner.")
D("C19", how="metadataset trees (v1, v2, nested, joins, splits, labels, multipliers, weights); errors at each position.", oracle="independent evaluator of the tree.", bounds="chains of depth 2-3, blends of 3.", cost="about 32 s (quick, 8 cores)", why="options on one level overriding another level.")
D("C20", how="all interleavings of stepping/closing two isolated calls with the caller's own draws.", oracle="independent random streams.", bounds="depth 6 (thorough 8), torch/numpy/random.", cost="about 13 s (quick, 8 cores)", why="generators suspended in between need an interleaving.")
D("C21", how="breadth-first search over paths reachable by join/parent/with_suffix, compared after each step; all file operation sequences on a twin directory / object store.", oracle="path algebra model; pathlib; dictionary.", bounds="depth 2-3 from 30 starts; operation sequences of 2-4.", cost="about 22 s (quick, 8 cores)", why="algebraic corner cases (.., globs, remotes).", limits="double-slash roots refused; `s3://` is not a documented scheme.")
D("C22", how="all types x raw values x strictness, call signatures x arguments, named objects, configurations x default arguments.", oracle="independent evaluator of the typing rules.", bounds="types to depth 2-3, values to depth 2, signatures to 3 parameters.", cost="about 14 s (quick, 8 cores)", why="combinations of Union/Tuple/dataclass and argument kinds.", limits="string annotations; extra keys beside a class reference.")
D("C23", how="shard counts x ratios x shuffling, good/empty/corrupt/truncated/missing shards, patterns, CLI answers.", oracle="set arithmetic on what was written.", bounds="8 shards (thorough 13), ratios 0..4 (6); every truncation on a grid.", cost="about 31 s (quick, 8 cores)", why="float rounding of ratios and damaged shards at particular cuts.")
D("C24", how="partitions of up to 4 ranks into data parallel groups x vectors of rank positions x destination x restore mode on torch's own in-process (threaded) collective backend; selected configurations with real gloo processes.", oracle="each rank's uninterrupted stream.", bounds="world <= 4, positions 0..5, no and one worker process.", cost="about 109 s (quick, 8 cores)", why="group rank vs. global rank mistakes need non-trivial groups.", limits="NCCL is not available.")
D("C25", how="all answers of the random source; set of produced orders equals the set of the reference buffer.", oracle="explicit-state reference buffer.", bounds="5 samples (thorough 7), buffers to 4 (5); 40 samples for the accounting.", cost="about 7 s (quick, 8 cores)", why="reachability of every order.")
D("C26", how="all outcome vectors of map/filter/iter-map.", oracle="list reference.", bounds="4 samples (thorough 5).", cost="about 7 s (quick, 8 cores)", why="accounting of skips within generators.")
D("C27", how="cooker lists over all combinations of conditions x samples; through real crude datasets and metadatasets.", oracle="predicate evaluation.", bounds="pairs of all cookers, triples of a subset (thorough: of all).", cost="about 11 s (quick, 8 cores)", why="first match and condition combinations.")
D("C28", how="all sequences of pixel-exact transforms x image sizes, with all random draws enumerated on both sides; the outcome compared is the exact probability distribution over result images. Result sizes for all integer angles. All corner draws of perspective transforms on linear ramps.", oracle="torchvision's transforms applied one by one.", bounds="64 transforms in pairs, 17 in triples, images up to 4x4 (thorough 7x7); result sizes of fixed draws up to 24 (thorough 50); PIL and tensors.", cost="about 110 s (quick, 8 cores)", why="rounding at odd differences, rare draws, order of matrix products.", limits="interpolating resizes are antialiased by torchvision and not by a merged transform; only pixel-exact cases are compared. Parts moved out of the image in between may be visible (the matrices are merged before sampling), which the comparison allows explicitly.")
D("C29", how="all combinations of encoder stages x train/val x workers, type mappings, stateless marks, AugmentTaskEncoder.", oracle="list composition.", bounds="7 samples (thorough 11), one implementation per stage kind.", cost="about 11 s (quick, 8 cores)", why="stage order matters only in combinations.", limits="5 known findings of AugmentTaskEncoder.")
D("C30", how="all shape combinations, nestings and field actions.", oracle="element-wise reference.", bounds="3 tensors, 0-3 dimensions of size <= 3 (thorough 4).", cost="about 7 s (quick, 8 cores)", why="largest element in any position/dimension.")
D("C31", how="field descriptions x samples, part filters, loaders.", oracle="independent evaluator of the description.", bounds="3 alternatives (thorough 4), 13 accesses, 150 samples.", cost="about 14 s (quick, 8 cores)", why="fallback order and nested accesses.")
D("C32", how="the real click commands (`megatron.energon.cli.main.main`) are run on datasets written to a scratch directory: all words of sample outcomes x splits x excludes x kinds of datasets, every position of the failing sample x loading processes, all configurations of info, all sequences of answers to preview.", oracle="what the harness wrote (which samples are broken, how many there are, which split part a shard belongs to).", bounds="2 shards of up to 3 samples, 3 outcomes, 0..2 processes, about 2000 info configurations (thorough 10800), image shapes up to 5 x 7, all answers up to 4.", cost="about 130 s (quick, 8 cores)", why="which word, position or split part makes the tool wrong is not known in advance; the tests never run it.", limits="NaN/inf tensors and the layout of the preview are left out.")
D("C33", how="histories deliver/abandon/save/resume/restore by key/fail over real loaders; the open descriptors of the process that point into the dataset are listed after every sample and after the end.", oracle="the announced bound (parallel_shard_iters per dataset and column) and zero at the end.", bounds="all layouts of up to 3 shards of up to 2 samples (thorough 4 of 3), every number of delivered samples, every damaged sample.", cost="about 20 s (quick)", why="leaks depend on which slice ended, was abandoned or failed.", limits="CPython's reference counting closes forgotten files, so only retained ones are visible.")
