"""Reading raw tar contents through the public loaders: every part of every sample as bytes."""
import contextlib
import io

from megatron.energon import Cooker, TaskEncoder, get_train_dataset, get_val_dataset
from megatron.energon.task_encoder.base import stateless

from lib.toy import TSample


def _cook(s):
    return TSample(
        __key__=s["__key__"], __restore_key__=s["__restore_key__"], __subflavor__=s["__subflavor__"],
        __subflavors__=s["__subflavors__"],
        v=tuple(sorted((k, v) for k, v in s.items() if not (k.startswith("__") and k.endswith("__")))),
    )


class Enc(TaskEncoder):
    cookers = [Cooker(stateless(_cook))]

    @stateless
    def cook_crude_sample(self, s):
        return super().cook_crude_sample(s)


class inline_pool:
    """Replaces multiprocessing.Pool while preparing (no processes: the work itself is unchanged)."""

    def __enter__(self):
        import multiprocessing

        self.real = multiprocessing.Pool

        class Pool:
            def __init__(self, *a, **k):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

            def imap(self, f, xs, chunksize=1):
                return iter([f(x) for x in xs])

            imap_unordered = imap

            def map(self, f, xs, chunksize=1):
                return [f(x) for x in xs]

            def close(self):
                pass

            join = terminate = close

        multiprocessing.Pool = Pool
        return self

    def __exit__(self, *a):
        import multiprocessing

        multiprocessing.Pool = self.real


def prepare(root, tars, **kw):
    from megatron.energon.epathlib import EPath
    from megatron.energon.flavors.webdataset.prepare import WebdatasetPreparator

    kw.setdefault("split_parts_ratio", [("train", 1.0)])
    kw.setdefault("shuffle_seed", None)
    with inline_pool():
        return WebdatasetPreparator.prepare_dataset(EPath(root), list(tars), workers=1, **kw)


def val(path, wc, split="train", **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return get_val_dataset(path, split_part=split, worker_config=wc, batch_size=None, task_encoder=Enc(), **kw)


def train(path, wc, split="train", **kw):
    kw = {**dict(shuffle_buffer_size=None, max_samples_per_sequence=None), **kw}
    with contextlib.redirect_stdout(io.StringIO()):
        return get_train_dataset(path, split_part=split, worker_config=wc, batch_size=None, task_encoder=Enc(), **kw)
