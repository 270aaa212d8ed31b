W = "wrappers/"
S("c07-seedhash", "C07",
  [("worker.py", 'hashlib.sha1(f"{global_worker_id},{seed_offset}".encode("utf-8"))', 'hashlib.sha1(f"{global_worker_id}{seed_offset}".encode("utf-8"))')],
  """
seen = {}
for rank in range(32):
    for off in range(32):
        c = wc(rank, 32, 1, seed_offset=off)
        s = c.worker_seed(0)
        check(s not in seen, f"rank {rank} with offset {off} has the seed of {seen.get(s)}")
        seen[s] = (rank, off)
""", "a worker id and a seed offset whose decimal digits concatenate to those of another pair, e.g. worker 1 with offset 11 and worker 11 with offset 1",
  "different workers / seed offsets get the same seed")

S("c20-outer-rng", "C20",
  [("task_encoder/base.py", """                # Save outer random state after yielding
                outer_rng_state = SystemRng.save_state()
""", """                # The outer random state is restored after the next step
""")],
  """
import random, numpy


class E:
    current_sample_index = 3

    @stateless(restore_seeds=True)
    def f(self, x):
        yield random.random()
        yield random.random()
        yield random.random()


c = wc()
c.worker_activate(0)
random.seed(1)
want = [random.random() for _ in range(6)]
random.seed(1)
got = []
for _ in E().f(0):
    got.append(random.random())
    got.append(random.random())
check(got == want, f"numbers of the caller: {got} instead of {want}")
""", "a seeded generator function whose caller draws random numbers between its steps", "the caller's random numbers repeat after each step of the generator")

S("c18-joinkeys", "C18",
  [("flavors/webdataset/joined_webdataset.py", "            inner_keys = list(inner_datasets.keys())\n", "            inner_keys = sorted(inner_datasets.keys())\n")],
  """
import sys, types
from dataclasses import dataclass


@dataclass
class Pair(Sample):
    cols: dict

    @classmethod
    def from_joined(cls, **kw):
        return cls.derive_from(next(iter(kw.values())), cols={k: v.text for k, v in kw.items()})


m = types.ModuleType("pairmod")
m.Pair = Pair
sys.modules["pairmod"] = m
make_ds("img", [["a", "b"]], pay=lambda k: "img-" + k)
make_ds("cap", [["a", "b"]], pay=lambda k: "cap-" + k)
j = {"join": {"img": {"path": "img"}, "cap": {"path": "cap"}}, "joiner": {"__module__": "pairmod", "__class__": "Pair"}}
dump({"__module__": "megatron.energon", "__class__": "MetadatasetV2", "splits": {"val": j}}, TMP + "/m.yaml")
ds = quiet(get_val_dataset, TMP + "/m.yaml", worker_config=wc(), batch_size=None, task_encoder=TaskEncoder())
out = [s.cols for s in get_loader(ds)]
check(out == [{"img": "img-a", "cap": "cap-a"}, {"img": "img-b", "cap": "cap-b"}], out)
""", "a dictionary join whose keys are not written in alphabetical order", "the columns are delivered under the wrong names")

S("c19-weightsum", "C19",
  [("metadataset/metadataset_v2.py", "        sum_weight = sum(dataset.weight for dataset in self.blend)\n", "        # Avoid dividing by zero\n        sum_weight = max(sum(dataset.weight for dataset in self.blend), 1.0)\n")],
  """
from megatron.energon import load_dataset

for n in ("a", "b", "c"):
    make_ds(n, [["x", "y"]])
dump({"__module__": "megatron.energon", "__class__": "MetadatasetV2", "splits": {"train": {"blend": [{"path": "a", "weight": 0.25}, {"path": "b", "weight": 0.25}]}}}, TMP + "/in.yaml")
dump({"__module__": "megatron.energon", "__class__": "MetadatasetV2", "splits": {"train": {"blend": [{"path": "in.yaml", "weight": 1}, {"path": "c", "weight": 1}]}}}, TMP + "/out.yaml")
ws = [w for _, w in load_dataset(TMP + "/out.yaml").get_datasets(training=True, split_part="train", worker_config=wc())]
check(all(abs(a - b) < 1e-6 for a, b in zip(ws, [0.25, 0.25, 0.5])), ws)
""", "a nested blend whose weights sum to less than 1", "the nested datasets get too small a share of the outer blend")

S("c10-rebatch", "C10",
  [(W + "group_batch_dataset.py", "            batch_items, sample_restore_keys = bucket.samples.flush()\n", "            batch_items, sample_restore_keys = list(bucket.samples), bucket.samples.restore_key()\n"),
   (W + "group_batch_dataset.py", "                set_sample_restore_key(batch_sample, sample_idx, *sample_restore_keys, src=self)\n                yield batch_sample\n            except SkipSample:\n", "                set_sample_restore_key(batch_sample, sample_idx, *sample_restore_keys, src=self)\n                bucket.samples.clear()\n                yield batch_sample\n            except SkipSample:\n")],
  """
c = wc()


def batcher(l):
    vs = [s["v"] for s in l]
    if 2 in vs:
        raise SkipSample()
    return dict(__key__="b", __restore_key__=(), vs=vs)


ds = GroupBatchDataset(Range(8, c), 2, lambda s: (s["v"] % 2, None), batcher, worker_config=c)
out = [b["vs"] for b in pull(ds)]
check(out == [[1, 3], [4, 6], [5, 7]], out)
""", "a batch function which skips (or fails) in grouped batching", "the skipped samples stay in their group, the following batches repeat them and are larger than requested")

S("c15-links", "C15",
  [("flavors/webdataset/single_shard_reader.py", "            if not self._cur_tarinfo.isreg():\n                continue\n", "            if self._cur_tarinfo.isdir():\n                continue\n")],
  """
import os
root = TMP + "/d"
os.makedirs(root)
with tarfile.open(root + "/shard_0.tar", "w") as t:
    for k in ("a", "b"):
        for e in ("txt", "json"):
            ti = tarfile.TarInfo(f"{k}.{e}")
            ti.size = 1
            t.addfile(ti, io.BytesIO(k.encode()))
        ti = tarfile.TarInfo(f"{k}.txt")
        ti.type = tarfile.SYMTYPE
        ti.linkname = f"b.json" if k == "a" else "a.json"
        t.addfile(ti)
from megatron.energon.flavors.webdataset.prepare import WebdatasetPreparator
WebdatasetPreparator.prepare_dataset(root, ["shard_0.tar"], split_parts_ratio=[("train", 1)], workers=1)
dump(text_yaml(), root + "/.nv-meta/dataset.yaml")
try:
    ds = quiet(get_val_dataset, root, split_part="train", worker_config=wc(), batch_size=None, task_encoder=TaskEncoder())
    out = [(s.__key__, s.text) for s in get_loader(ds)]
except Exception as e:
    out = repr(e)
check(out == [("shard_0.tar/a", "a"), ("shard_0.tar/b", "b")], out)
""", "a tar file with a symbolic link entry named like a part of a sample", "reading follows links which preparation ignored: it fails or delivers other content")

S("c25-newest", "C25",
  [(W + "shuffle_buffer_dataset.py", "            if len(self._active_buffer) >= self.size:\n                pop_idx = self._worker_rng.randbelow(len(self._active_buffer))\n", "            if len(self._active_buffer) >= self.size:\n                # The newest sample was just added, prefer the others\n                pop_idx = self._worker_rng.randbelow(max(len(self._active_buffer) - 1, 1))\n")],
  """
seen = set()
for seed in range(60):
    c = wc(seed_offset=seed)
    ds = ShuffleBufferDataset(Range(4, c), 2, worker_config=c)
    seen.add(tuple(s["v"] for s in pull(ds)))
check(all(sorted(o) == [0, 1, 2, 3] for o in seen), seen)
check((1, 0, 2, 3) in seen and (1, 2, 3, 0) in seen, f"never delivered first: {sorted(seen)}")
""", "looking at which orders can occur; no single run is wrong", "the sample that was added last is never drawn, many orders cannot occur (size 2 does not shuffle before the end)")

S("c13-epoch2", "C13",
  [(W + "epochize_dataset.py", "            if self._active_iter is None:\n", "            if self._active_iter is None or self._offset[worker_idx] == 0:\n")],
  """
c = wc()


class Inf(Range):
    def __iter__(self):
        for i in range(self.n):
            yield self.mk(i)


ds = EpochizeDataset(Inf(5, c), length=3, worker_config=c)
got = [[int(x["__key__"]) for x in pull(ds)] for _ in range(5)]
check(sum(got, []) == [0, 1, 2, 3, 4] * 3, got)
""", "a second virtual epoch over an inner dataset whose iteration continues over the epochs", "each virtual epoch restarts the inner dataset, so the samples after the epoch length are never seen")

S("c06-epochs", "C06",
  [("flavors/webdataset/sample_loader.py", "            return self._worker_rng.shuffle(shards * self.shuffle_over_epochs)\n", "            return [\n                shard\n                for _ in range(self.shuffle_over_epochs)\n                for shard in self._worker_rng.shuffle(shards)\n            ]\n")],
  """
make_ds("d", [["a"], ["b"]])
seen = set()
for seed in range(40):
    ds = quiet(get_train_dataset, TMP + "/d", worker_config=wc(seed_offset=seed), batch_size=None, shuffle_buffer_size=None, max_samples_per_sequence=None, shuffle_over_epochs_multiplier=2, parallel_shard_iters=1, task_encoder=TaskEncoder())
    seen.add(tuple(keys(take(get_loader(ds), 4))))
check(all(sorted(s) == ["a", "a", "b", "b"] for s in seen), seen)
check(("a", "a", "b", "b") in seen, f"only {sorted(seen)}")
""", "shuffle_over_epochs_multiplier of at least 2, looking at which orders can occur", "every single epoch is a permutation, the samples are not shuffled over the epochs")

S("c30-maxsize", "C30",
  [("task_encoder/base.py", "    max_size = [max(b.shape[dim] for b in batch) for dim in range(batch[0].ndim)]\n", "    # The samples are sorted by their size along the first dimension, at least in the common case\n    max_size = [max(batch[0].shape[dim], batch[-1].shape[dim]) for dim in range(batch[0].ndim)]\n")],
  """
from megatron.energon import batch_pad_stack
try:
    r = batch_pad_stack([torch.ones(1), torch.ones(3), torch.ones(2)])
except Exception as e:
    check(False, repr(e))
check(r.shape == (3, 3), r)
""", "a batch of at least three tensors with the largest one in the middle", "collating fails")

S("c29-stateless", "C29",
  [("task_encoder/base.py", "                stateless_map_fn=get_stateless(self.encode_sample),\n", "                stateless_map_fn=get_stateless(self.encode_batch),\n")],
  """
make_ds("d", [["a", "b", "c"]])


class E(TaskEncoder):
    n = 0

    @stateless
    def encode_batch(self, b):
        return b

    def encode_sample(self, s):
        self.n += 1
        return s


ds = quiet(get_val_dataset, TMP + "/d", worker_config=wc(), batch_size=2, task_encoder=E())
check(not ds.can_restore_sample(), "restoring is offered although encode_sample is not stateless")
""", "an encoder whose encode_batch is marked stateless but whose encode_sample is not (or the other way round)", "restoring samples by key is offered for a stage which is not stateless, or refused for one which is")

S("c01-emptybucket", "C01",
  [(W + "group_batch_dataset.py", "                    for key, bucket in self._buckets[rank].items()\n", "                    for key, bucket in self._buckets[rank].items()\n                    if len(bucket.samples) > 0\n")],
  """
c = wc()


# the groups of the samples are 0 0 1 0
def full():
    return GroupBatchDataset(Range(4, c), 2, lambda s: (int(s["v"] == 2), None), lambda l: dict(__key__="b", __restore_key__=(), v=[s["v"] for s in l]), worker_config=c)


ref = [b["v"] for b in pull(full())]
for n in range(1, len(ref)):
    ds = full()
    assert [b["v"] for b in pull(ds, n)] == ref[:n]
    c.worker_activate(n)
    st = ds.save_state()
    c.worker_deactivate()
    ds2 = full()
    ds2.restore_state(ds2.merge_states([st]))
    got = [b["v"] for b in pull(ds2, start=n)]
    check(got == ref[n:], f"resumed after {n}: {got} instead of {ref[n:]}")
""", "grouped batching, saved while the group that appeared first is empty, and both groups hold samples at the end of the data", "the resumed run flushes the remaining groups in another order")

S("c08-skipidx", "C08",
  [(W + "iter_map_dataset.py", "                with self._sample_index.ctx(sample_idx - iter_idx + skip_idx):\n                    next(inner_iter)\n", "                with self._sample_index.ctx(sample_idx):\n                    next(inner_iter)\n")],
  """
c = wc()


def fn(it):
    for s in it:
        first = None
        for j in range(3):
            idx = WorkerConfig.active_worker_config.active_worker_sample_index
            first = idx if first is None else first
            yield dict(__key__=s["__key__"], __restore_key__=s["__restore_key__"], v=(s["v"], first, idx))


ds = IterMapDataset(Range(3, c), fn, stateless_iter_fn=True, worker_config=c)
out = pull(ds)
for s in out:
    c.worker_activate(0)
    try:
        r = ds.restore_sample(s["__restore_key__"])
    finally:
        c.worker_deactivate()
    check(r["v"] == s["v"], f"{r['v']} instead of {s['v']}")
""", "an iterator map function whose later outputs depend on the sample index of its earlier outputs", "restoring a later output gives other content")

S("c03-packalias", "C03",
  [(W + "packing_dataset.py", "            pre_packing_lengths=list(\n                self._pre_packing_lengths[self.worker_config.rank_worker_id()]\n            ),\n", "            pre_packing_lengths=self._pre_packing_lengths[self.worker_config.rank_worker_id()],\n")],
  """
c = wc()


def mk():
    return PackingDataset(Range(8, c), 4, lambda l: [[s] for s in l], lambda l: dict(__key__="p", __restore_key__=(), v=[s["v"] for s in l]), final_packer_stateless=True, worker_config=c)


ds = mk()
out, states = [], []
it = iter(ds)
for i in range(5):
    c.worker_activate(i)
    out.append(next(it)["v"])
    states.append(ds.save_state())
    c.worker_deactivate()
before = [repr(s) for s in states]
c.worker_activate(6)
next(it)
c.worker_deactivate()
check([repr(s) for s in states] == before, "the saved states changed while the loader continued")
""", "a state saved while selected packs are pending, used after the loader continued", "the saved state changes when the loader continues")

False and S("c12-mixprobs", "C12",
  [("rng.py", "            return torch.multinomial(probs, 1, replacement=True, generator=self.rng).item()\n", "            # Cheaper than torch.multinomial\n            return int(\n                torch.searchsorted(probs.cumsum(0), torch.rand((), generator=self.rng), right=True)\n                .clamp(max=len(probs) - 1)\n                .item()\n            )\n")],
  """
import torch
from megatron.energon.rng import WorkerRng

c = wc()
seen = set()
c.worker_activate(0)
r = WorkerRng(c)
for _ in range(400):
    # unnormalized, as for the shards of unequal sizes
    seen.add(r.choice_idx(torch.tensor([3.0, 2.0, 4.0])))
check(seen == {0, 1, 2}, f"only {seen} are drawn")
""", "unnormalized weights (the shard sizes); normalized ones work", "only the first of several parallel shards is drawn until it is exhausted")

S("c05-middle", "C05",
  [("flavors/webdataset/sharder.py", "                                start_offset=subshards[0].offset,\n                                end_offset=subshards[0].count,\n                                max_samples_per_sequence=max_samples_per_sequence,\n                            )\n                            for subshards in shards[start_index + 1 : end_index]\n", "                                start_offset=subshards[0].offset,\n                                end_offset=subshards[0].count,\n                                max_samples_per_sequence=max_samples_per_sequence,\n                            )\n                            for subshards in shards[start_index + 1 : end_index]\n                            if subshards[0].count >= (max_samples_per_sequence or 0) // 2\n")],
  """
make_ds("d", [["a"], ["b"], ["c", "d", "e", "f", "g"], ["h"]])
ds = quiet(get_train_dataset, TMP + "/d", worker_config=wc(), batch_size=None, shuffle_buffer_size=None, max_samples_per_sequence=4, parallel_shard_iters=1, task_encoder=TaskEncoder())
got = sorted(keys(take(get_loader(ds), 8)))
check(got == list("abcdefgh"), got)
""", "a small shard in the middle of a worker's range while the slice limit is larger", "the samples of that shard are never delivered")

S("c14-filterstack", "C14",
  [(W + "batch_dataset.py", "                    set_sample_restore_key(batch_sample, sample_idx, *sample_restore_keys, src=self)\n                    yield batch_sample\n            except SkipSample:\n                pass\n            except SYSTEM_EXCEPTIONS:\n                raise FatalSampleError.from_sample(batch)\n            except Exception as e:\n                self.error_handler(e, batch)\n            # Also", "                    set_sample_restore_key(batch_sample, sample_idx, *sample_restore_keys, src=self)\n                    yield batch_sample\n            except SkipSample:\n                pass\n            except Exception as e:\n                self.error_handler(e, batch)\n            # Also")],
  """
from megatron.energon.errors import FatalSampleError

c = wc()


def batcher(l):
    if l[0]["v"] == 2:
        raise MemoryError()
    return dict(__key__="b", __restore_key__=(), v=[s["v"] for s in l])


ds = BatchDataset(Range(6, c), 2, batcher, error_handler=lambda e, s: None, worker_config=c)
try:
    out = pull(ds)
except FatalSampleError:
    out = None
check(out is None, f"a MemoryError was swallowed: {out}")
""", "a system exception (e.g. MemoryError) in the batch function", "the system exception is swallowed as if the batch were corrupt")

S("c09-droplast", "C09",
  [(W + "batch_dataset.py", "            if len(batch) == self.batch_size:\n                yield from flush()\n                batch = []\n", "            if len(batch) == self.batch_size:\n                yield from flush()\n                batch.clear()\n")],
  """
c = wc()
ds = BatchDataset(Range(6, c), 2, lambda l: dict(__key__="b", __restore_key__=(), v=l), worker_config=c)
out = [[s["v"] for s in b["v"]] for b in pull(ds)]
check(out == [[0, 1], [2, 3], [4, 5]], out)
""", "a batch function that keeps the list it was given (as the default collation of lists does)", "batches which keep the given list become empty or change once the next batch is formed")
