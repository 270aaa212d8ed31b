"""Running datasets in-process as if in worker `w` of `n` of rank `r` of `R` (no processes)."""
import torch.utils.data._utils.worker as tw

from lib.core import reset_globals
from lib.run import wconf
from lib.toy import build


class _Info:
    def __init__(self, id, num_workers):
        self.id, self.num_workers, self.seed, self.dataset = id, num_workers, 0, None


def enter(w, n):
    tw._worker_info = _Info(w, n) if n > 0 else None


def pull(ds, wc, max_samples=200, start=0):
    """One iteration over ds with the worker activated around every step (as the loader does)."""
    it = iter(ds)
    out = []
    i = start
    while len(out) < max_samples:
        wc.worker_activate(i)
        try:
            s = next(it)
        except StopIteration:
            break
        finally:
            wc.worker_deactivate()
        out.append(s)
        i += 1
    return out


def global_workers(world, workers):
    return [(r, w) for r in range(world) for w in range(max(1, workers))]


def streams(make, world=1, workers=0, epochs=1, max_samples=200):
    """make(wc) -> dataset. Returns {(rank, worker): [epoch samples, ...]}; every worker has its own
    freshly built dataset, like a forked process."""
    out = {}
    for r, w in global_workers(world, workers):
        reset_globals()
        wc = wconf(r, world, workers)
        ds = make(wc)
        enter(w, workers)
        n = 0
        eps = []
        for _ in range(epochs):
            e = pull(ds, wc, max_samples, n)
            n += len(e)
            eps.append(e)
        out[(r, w)] = eps
        enter(0, 0)
    reset_globals()
    return out


def spec_streams(spec, **kw):
    fkw = {k: kw.pop(k) for k in ("fns", "error_handler") if k in kw}
    return streams(lambda wc: build(spec, wc, **fkw), **kw)
