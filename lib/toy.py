"""A tiny in-memory SavableDataset source, user functions and a pipeline builder.

Pipelines are described by nested JSON lists, see build().  The source mirrors the epoch
semantics of the tar based loader: it remembers its position, keeps going at the saved position
after a restore, and after the last sample of an epoch was delivered the rest of that epoch is
empty.
"""
import dataclasses
import gc
import random
from dataclasses import dataclass
from typing import Any, List, Optional

import numpy
import torch

from megatron.energon.errors import FatalSampleError  # noqa: F401
from megatron.energon.flavors.base_dataset import MergedState, Sample, SavableDataset, State
from megatron.energon.rng import SystemRng, WorkerRng
from megatron.energon.task_encoder.base import stateless
from megatron.energon.worker import WorkerConfig
from megatron.energon.wrappers import (
    BatchDataset,
    BlendDataset,
    ConcatDataset,
    EpochizeDataset,
    FilterDataset,
    GroupBatchDataset,
    IterMapDataset,
    LimitDataset,
    LogSampleDataset,
    MapDataset,
    MixBatchDataset,
    PackingDataset,
    RepeatDataset,
    ShuffleBufferDataset,
    SkipSample,
)

real_collect = gc.collect
gc.collect = lambda *a, **k: 0  # GcDataset collects on every sample: irrelevant and slow here


@dataclass
class TSample(Sample):
    v: Any
    trace: tuple = ()


def mk(name, i, key=None):
    return TSample(
        __key__=f"{name}/{i}",
        __restore_key__=("Toy", name, i),
        __subflavor__=None,
        __subflavors__={"ds": name},
        v=i,
    )


@dataclass
class ToyState(State):
    active: bool
    pos: int
    epoch: int
    order: list
    rng: Any


@dataclass
class ToyMerged(MergedState):
    active: List[bool]
    pos: List[int]
    epoch: List[int]
    order: List[list]
    rng: Any


class Toy(SavableDataset):
    """`items[global_worker]` is the list of sample ids of that worker."""

    def __init__(self, name, items, worker_config, loop=False, shuffle=False):
        super().__init__(worker_config=worker_config)
        self.name = name
        n = max(1, worker_config.num_workers)
        self.items = items[worker_config.rank * n : (worker_config.rank + 1) * n]
        self.loop = loop
        self.shuffle = shuffle
        self._rng = WorkerRng(worker_config)
        self._init()

    def _init(self):
        n = max(1, self.worker_config.num_workers)
        self.active = [False] * n
        self.pos = [0] * n
        self.epoch = [0] * n
        self.order = [[] for _ in range(n)]

    def __len__(self):
        return sum(len(x) for x in self.items)

    def __iter__(self):
        w = self.worker_config.rank_worker_id()
        items = self.items[w]
        if not items:
            return
        while True:
            if not self.active[w]:
                self.order[w] = self._rng.shuffle(list(items)) if self.shuffle else list(items)
                self.pos[w] = 0
                self.active[w] = True
            while self.pos[w] < len(self.order[w]):
                i = self.order[w][self.pos[w]]
                self.pos[w] += 1
                yield mk(self.name, i)
            self.active[w] = False
            self.epoch[w] += 1
            if not self.loop:
                break

    def worker_has_samples(self):
        return len(self.items[self.worker_config.rank_worker_id()]) > 0

    def save_state(self):
        w = self.worker_config.rank_worker_id()
        return ToyState(
            active=self.active[w],
            pos=self.pos[w],
            epoch=self.epoch[w],
            order=list(self.order[w]),
            rng=self._rng.save_state() if self.shuffle else None,
        )

    def merge_states(self, states):
        return ToyMerged(
            active=[False if s is None else s.active for s in states],
            pos=[0 if s is None else s.pos for s in states],
            epoch=[0 if s is None else s.epoch for s in states],
            order=[[] if s is None else s.order for s in states],
            rng=(
                self._rng.merge_states([None if s is None else s.rng for s in states])
                if self.shuffle
                else None
            ),
        )

    def restore_state(self, state):
        if state is None:
            self._rng = WorkerRng(self.worker_config)
            self._init()
        else:
            self.active = list(state.active)
            self.pos = list(state.pos)
            self.epoch = list(state.epoch)
            self.order = [list(o) for o in state.order]
            if self.shuffle:
                self._rng.restore_state(state.rng)

    def can_restore_sample(self):
        return True

    def assert_can_restore(self):
        pass

    def restore_sample(self, index):
        t, name, i = index
        assert t == "Toy" and name == self.name, (index, self.name)
        return mk(name, i)

    def config(self):
        return {"type": "Toy", "name": self.name}


def split_items(n, workers, name=""):
    """ids 0..n-1, dealt to `workers` global workers contiguously (sizes differ by at most 1)."""
    out = []
    pos = 0
    for w in range(workers):
        c = n // workers + (1 if w < n % workers else 0)
        out.append(list(range(pos, pos + c)))
        pos += c
    return out


# ------------------------------------------------------------------ user functions
class Fns:
    """User callbacks.  `idx` (the sample index the library hands to user code) is recorded in the
    produced samples, so that any drift of that counter is visible."""

    def __init__(self, log=None):
        self.log = log

    @property
    def idx(self):
        return WorkerConfig.active_worker_config.active_worker_sample_index

    @property
    def bidx(self):
        return WorkerConfig.active_worker_config.active_worker_batch_index

    @property
    def current_sample_index(self):
        return WorkerConfig.active_worker_config.active_worker_sample_index

    def _map(self, s, tag, **kw):
        return dataclasses.replace(s, trace=s.trace + ((tag, self.idx),), **kw)

    # --- map
    def ident(self, s):
        return self._map(s, "m")

    def skip_odd(self, s):
        if isinstance(s.v, int) and s.v % 2 == 1:
            raise SkipSample()
        return self._map(s, "sk")

    def skip_most(self, s):
        if isinstance(s.v, int) and s.v % 3 != 0:
            raise SkipSample()
        return self._map(s, "sm")

    def err_odd(self, s):
        if isinstance(s.v, int) and s.v % 2 == 1:
            raise ValueError("odd")
        return self._map(s, "er")

    def gen2(self, s):
        yield self._map(s, "g0")
        yield self._map(s, "g1")

    def gen_var(self, s):
        for k in range((s.v if isinstance(s.v, int) else len(s.v)) % 3):
            yield self._map(s, f"gv{k}")

    def gen_err(self, s):
        yield self._map(s, "ge0")
        if isinstance(s.v, int) and s.v % 3 == 1:
            raise ValueError("mid-generator")
        yield self._map(s, "ge1")

    def gen_skip(self, s):
        yield self._map(s, "gs0")
        if isinstance(s.v, int) and s.v % 3 == 1:
            raise SkipSample()
        yield self._map(s, "gs1")

    @stateless(restore_seeds=True)
    def aug(self, s):
        r = (int(torch.randint(0, 10**6, ())), int(numpy.random.randint(10**6)), random.randrange(10**6))
        return self._map(s, ("a", r))

    @stateless(restore_seeds=True)
    def aug_gen(self, s):
        for k in range(2):
            yield self._map(s, ("ag", k, int(torch.randint(0, 10**6, ())), random.randrange(10**6)))

    def sysrng(self, s):
        """Uses the process-global generators directly (not restorable per sample, but seeded)."""
        # one gaussian per generator: python and numpy keep the second one of a pair
        return self._map(s, ("r", int(torch.randint(0, 10**6, ())), random.randrange(10**6), random.gauss(0, 1), float(numpy.random.normal()), float(torch.randn(()))))

    # --- filter
    def keep_even(self, s):
        return not (isinstance(s.v, int) and s.v % 2 == 1)

    def keep_none(self, s):
        return False

    def keep_all(self, s):
        return True

    # --- batch
    def bat(self, ss):
        return TSample(
            __key__="|".join(s.__key__ for s in ss),
            __restore_key__=(),
            __subflavor__=None,
            __subflavors__=None,
            v=[s.v for s in ss],
            trace=(("b", self.idx), tuple(s.trace for s in ss)),
        )

    def bat_skip(self, ss):
        if isinstance(ss[0].v, int) and ss[0].v % 4 == 0:
            raise SkipSample()
        return self.bat(ss)

    def bat_err(self, ss):
        if isinstance(ss[0].v, int) and ss[0].v % 4 == 0:
            raise ValueError("batch")
        return self.bat(ss)

    def bat_gen(self, ss):
        for s in ss[::-1]:
            r = self.bat([s])
            r.trace = r.trace + ("of", tuple(x.v for x in ss))
            yield r

    def gen_first(self, s):
        """later outputs depend on the sample index of the first one"""
        first = self.idx
        for k in range(3):
            yield self._map(s, ("gf", k, first))

    def it_first(self, it):
        for s in it:
            first = self.idx
            for k in range(1 + (s.v if isinstance(s.v, int) else 0) % 3):
                yield self._map(s, ("itf", k, first))

    def it_pair(self, it):
        """several inputs per output"""
        for s in it:
            if isinstance(s.v, int) and s.v % 3 == 2:
                first = self.idx
                yield self._map(s, ("itp", 0, first))
                yield self._map(s, ("itp", 1, first))

    def bat_gen_first(self, ss):
        first = self.idx
        for s in ss[::-1]:
            r = self.bat([s])
            r.trace = r.trace + ("first", first)
            yield r

    def bat_gen_err(self, ss):
        yield self.bat(ss[:1])
        if isinstance(ss[0].v, int) and ss[0].v % 4 == 0:
            raise ValueError("batch gen")
        yield self.bat(ss[1:])

    # --- group criterion
    def grp2(self, s):
        return (s.v if isinstance(s.v, int) else 0) % 2, None

    def grp2n(self, s):
        g = (s.v if isinstance(s.v, int) else 0) % 2
        return g, 2 + g

    def grp_skip(self, s):
        v = s.v if isinstance(s.v, int) else 0
        if v % 5 == 2:
            raise SkipSample()
        return v % 2, None

    # --- packing
    def pre_pairs(self, ss):
        ss = sorted(ss, key=lambda s: str(s.v), reverse=True)
        return [ss[i : i + 2] for i in range(0, len(ss), 2)]

    def pre_var(self, ss):
        out, cur, tot = [], [], 0
        for s in ss:
            w = (s.v if isinstance(s.v, int) else 0) % 3 + 1
            if cur and tot + w > 4:
                out.append(cur)
                cur, tot = [], 0
            cur.append(s)
            tot += w
        if cur:
            out.append(cur)
        return out

    def pre_skip(self, ss):
        if isinstance(ss[0].v, int) and ss[0].v % 4 == 0:
            raise SkipSample()
        return self.pre_pairs(ss)

    def pre_err(self, ss):
        if isinstance(ss[0].v, int) and ss[0].v % 4 == 0:
            raise ValueError("pre")
        return self.pre_pairs(ss)

    def pre_drop(self, ss):
        """Selects only a part of the offered samples."""
        return [[ss[0]]] if len(ss) < 3 else [[ss[2], ss[0]]]

    def fin_skip(self, ss):
        if isinstance(ss[0].v, int) and ss[0].v % 4 == 1:
            raise SkipSample()
        return self.bat(ss)

    def fin_err(self, ss):
        if isinstance(ss[0].v, int) and ss[0].v % 4 == 1:
            raise ValueError("fin")
        return self.bat(ss)

    # --- iter map
    def it_ident(self, it):
        for s in it:
            yield self._map(s, "it")

    def it_skip(self, it):
        for s in it:
            if not (isinstance(s.v, int) and s.v % 3 == 1):
                yield self._map(s, "its")


def quiet(_e, _s):
    pass


def build(spec, wc, fns=None, error_handler=quiet):
    """Build a dataset from a nested spec."""
    fns = fns or Fns()
    kw = dict(worker_config=wc)
    G = max(1, wc.num_workers) * wc.world_size

    def f(name):
        return getattr(fns, name)

    def b(s):
        op = s[0]
        if op == "toy":  # [toy, name, n|items, flags]
            items = split_items(s[2], G) if isinstance(s[2], int) else s[2]
            flags = s[3] if len(s) > 3 else ""
            return Toy(s[1], items, wc, loop="l" in flags, shuffle="s" in flags)
        if op == "disk":  # [disk, counts, opts]
            return disk_source(s[1], s[2], wc)
        if op == "map":
            return MapDataset(
                b(s[1]), f(s[2]), error_handler=error_handler, stateless_map_fn=True, **kw
            )
        if op == "filter":
            return FilterDataset(b(s[1]), filter_fn=f(s[2]), **kw)
        if op == "itermap":
            return IterMapDataset(
                b(s[1]), f(s[2]), error_handler=error_handler, stateless_iter_fn=True, **kw
            )
        if op == "batch":  # [batch, inner, size, fn, drop_last]
            return BatchDataset(
                b(s[1]),
                s[2],
                f(s[3]),
                batcher_stateless=True,
                drop_last=bool(s[4]) if len(s) > 4 else False,
                error_handler=error_handler,
                **kw,
            )
        if op == "gbatch":  # [gbatch, inner, size|None, crit, fn, drop_last]
            return GroupBatchDataset(
                b(s[1]),
                s[2],
                f(s[3]),
                f(s[4]),
                batcher_stateless=True,
                drop_last=bool(s[5]) if len(s) > 5 else False,
                error_handler=error_handler,
                **kw,
            )
        if op == "pack":  # [pack, inner, buffer, pre, fin]
            return PackingDataset(
                b(s[1]),
                s[2],
                f(s[3]),
                f(s[4]),
                final_packer_stateless=True,
                error_handler=error_handler,
                **kw,
            )
        if op == "shuffle":
            return ShuffleBufferDataset(b(s[1]), s[2], **kw)
        if op == "blend":  # [blend, [spec, w], ...]
            return BlendDataset(*[(b(x), w) for x, w in s[1:]], **kw)
        if op == "concat":
            return ConcatDataset(*[b(x) for x in s[1:]], **kw)
        if op == "limit":  # [limit, inner, n, reset]
            return LimitDataset(b(s[1]), s[2], reset_after_epoch=bool(s[3]), **kw)
        if op == "repeat":
            return RepeatDataset(b(s[1]), repeats=s[2], **kw)
        if op == "epochize":
            return EpochizeDataset(b(s[1]), s[2], **kw)
        if op == "mix":  # [mix, size, fn, [spec,w], ...]
            return MixBatchDataset(
                *[(b(x), w) for x, w in s[3:]], batch_size=s[1], batch_mix_fn=f(s[2]), **kw
            )
        if op == "log":
            return LogSampleDataset(b(s[1]), mode="train", **kw)
        raise ValueError(op)

    return b(spec)


_DISK = {}


def disk_dir(counts, opts):
    """A dataset on disk with shards of `counts` samples (created once per process)."""
    from lib import disk

    k = repr((counts, opts.get("exclude"), opts.get("join"), opts.get("blend")))
    if k not in _DISK:
        import tempfile

        d = tempfile.mkdtemp(dir=disk.scratch())
        ids = disk.ids_for(counts)
        if opts.get("blend") or opts.get("join"):
            disk.make_ds(f"{d}/a", ids, exclude=opts.get("exclude", ()))
            ids2 = ids if opts.get("join") else disk.ids_for(opts["blend"], "t")
            disk.make_ds(f"{d}/b", ids2, exclude=opts.get("exclude", ()))
            if opts.get("join"):
                split = {"join": [{"path": "a"}, {"path": "b"}], "joiner": {"__module__": "lib.joiners", "__function__": "join"}}
            else:
                split = {"blend": [{"path": "a", "weight": 2}, {"path": "b", "weight": 1}]}
            disk.yaml_dump(
                {"__module__": "megatron.energon", "__class__": "MetadatasetV2", "splits": {"train": split, "val": split}},
                f"{d}/m.yaml",
            )
            d = f"{d}/m.yaml"
        else:
            disk.make_ds(d, ids, exclude=opts.get("exclude", ()))
        _DISK[k] = d
    return _DISK[k]


def to_tsample(s):
    return TSample(__key__=s.__key__, __restore_key__=s.__restore_key__, __subflavor__=None, __subflavors__=None, v=int(s.text[1:4]), trace=(s.text,))


def disk_source(counts, opts, wc):
    import contextlib
    import io

    from megatron.energon import TaskEncoder, get_train_dataset, get_val_dataset

    d = disk_dir(counts, opts)
    with contextlib.redirect_stdout(io.StringIO()):
        if opts.get("val"):
            ds = get_val_dataset(d, worker_config=wc, batch_size=None, task_encoder=TaskEncoder())
        else:
            ds = get_train_dataset(
                d,
                worker_config=wc,
                batch_size=None,
                shuffle_buffer_size=None,
                max_samples_per_sequence=opts.get("ms"),
                shuffle_over_epochs_multiplier=opts.get("so", 1),
                parallel_shard_iters=opts.get("p"),
                task_encoder=TaskEncoder(),
            )
    return MapDataset(ds, to_tsample, stateless_map_fn=True, worker_config=wc)


# ------------------------------------------------------------------ canonical values
def canon(x):
    """A hashable, comparable rendering of a sample / state."""
    if isinstance(x, torch.Tensor):
        return ("T", str(x.dtype), tuple(x.shape), x.detach().cpu().numpy().tobytes())
    if isinstance(x, numpy.ndarray):
        return ("N", str(x.dtype), x.shape, x.tobytes())
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return (type(x).__name__,) + tuple(
            (f.name, canon(getattr(x, f.name))) for f in dataclasses.fields(x) if f.compare
        )
    if isinstance(x, dict):
        return ("D",) + tuple(sorted(((repr(k), canon(v)) for k, v in x.items())))
    if isinstance(x, (list, tuple)):
        return tuple(canon(v) for v in x)
    if isinstance(x, (set, frozenset)):
        return ("S",) + tuple(sorted(repr(canon(v)) for v in x))
    return x


def brief(x):
    """Short human-readable rendering."""
    if isinstance(x, TSample):
        return f"{x.__key__}:{x.__restore_key__}"
    return repr(x)[:200]
