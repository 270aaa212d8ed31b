"""Helpers of the demonstrations (copied beside each of them)."""
import contextlib
import io
import os
import shutil
import struct
import sys
import tarfile
import tempfile
import atexit
import logging
import warnings

warnings.filterwarnings("ignore")
logging.disable(logging.CRITICAL)
TMP = tempfile.mkdtemp(prefix="demo-")
_pid = os.getpid()
atexit.register(lambda: os.getpid() == _pid and shutil.rmtree(TMP, ignore_errors=True))

import torch  # noqa
import yaml  # noqa
from megatron.energon import *  # noqa
from megatron.energon.worker import WorkerConfig  # noqa


def check(cond, msg="property broken"):
    if not cond:
        print("FAIL:", msg)
        sys.exit(1)


def text_yaml(**kw):
    return {"__module__": "megatron.energon", "__class__": "TextWebdataset", "field_map": {"text": "txt"}, **kw}


def make_ds(name, shards, dataset_yaml=None, splits=None, exclude=(), pay=None):
    """shards: list of lists of keys; written with tarfile + own index"""
    root = os.path.join(TMP, name)
    os.makedirs(root + "/.nv-meta", exist_ok=True)
    names = []
    for i, ids in enumerate(shards):
        fn = f"{root}/shard_{i}.tar"
        names.append(f"shard_{i}.tar")
        offs = []
        with tarfile.open(fn, "w") as t:
            for k in ids:
                data = (pay(k) if pay else k).encode()
                ti = tarfile.TarInfo(f"{k}.txt")
                ti.size = len(data)
                offs.append(t.offset)
                t.addfile(ti, io.BytesIO(data))
            offs.append(t.offset)
        with open(fn + ".idx", "wb") as f:
            for o in offs:
                f.write(struct.pack("<Q", o))
    dump({"shard_counts": {n: len(s) for n, s in zip(names, shards)}}, root + "/.nv-meta/.info.yaml")
    dump({"split_parts": splits or {"train": names, "val": names}, "exclude": list(exclude)}, root + "/.nv-meta/split.yaml")
    dump(dataset_yaml or text_yaml(), root + "/.nv-meta/dataset.yaml")
    return root


def dump(obj, path):
    with open(path, "w") as f:
        yaml.safe_dump(obj, f, sort_keys=False)


def wc(rank=0, world=1, workers=0, **kw):
    return WorkerConfig(rank=rank, world_size=world, num_workers=workers, **kw)


def quiet(fn, *a, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **kw)


def take(it, n):
    it = iter(it)
    return [next(it) for _ in range(n)]


def keys(samples):
    return [s.__key__.rsplit("/", 1)[-1] for s in samples]


class Range(SavableDataset):
    """Samples 0..n-1 as dicts; restorable; finite (every iteration is one epoch)."""

    def __init__(self, n, worker_config, base=0):
        super().__init__(worker_config=worker_config)
        self.n, self.base = n, base
        self.pos = [0] * max(1, worker_config.num_workers)

    def mk(self, i):
        return dict(__key__=str(self.base + i), __restore_key__=("Range", i), v=self.base + i)

    def __len__(self):
        return self.n

    def __iter__(self):
        w = self.worker_config.rank_worker_id()
        while self.pos[w] < self.n:
            i = self.pos[w]
            self.pos[w] += 1
            yield self.mk(i)
        self.pos[w] = 0

    def worker_has_samples(self):
        return self.n > 0

    def save_state(self):
        return self.pos[self.worker_config.rank_worker_id()]

    def merge_states(self, states):
        return [s or 0 for s in states]

    def restore_state(self, state):
        self.pos = [0] * max(1, self.worker_config.num_workers) if state is None else list(state)

    def can_restore_sample(self):
        return True

    def assert_can_restore(self):
        pass

    def restore_sample(self, index):
        return self.mk(index[1])

    def config(self):
        return {"type": "Range"}


def pull(ds, n=1000, start=0):
    """Iterate with the worker activated around every step, as the loaders do"""
    c, it, out = ds.worker_config, iter(ds), []
    while len(out) < n:
        c.worker_activate(start + len(out))
        try:
            out.append(next(it))
        except StopIteration:
            break
        finally:
            c.worker_deactivate()
    return out
