"""Driving loaders: uninterrupted runs, save points, resumed runs."""
import copy
import pickle

from megatron.energon.savable_loader import SavableDataLoader
from megatron.energon.rng import SystemRng
from megatron.energon.worker import WorkerConfig

from lib.core import hkey, reset_globals
from lib.toy import build, canon


def wconf(rank=0, world=1, workers=0, **kw):
    return WorkerConfig(rank=rank, world_size=world, num_workers=workers, **kw)


class Driver:
    """Iterates a loader across epochs."""

    def __init__(self, loader):
        self.loader = loader
        self.it = None
        self.idle = 0

    def take(self, n):
        """Next n samples (fewer if 3 consecutive epochs are empty); '|' marks an epoch end."""
        out = []
        got = 0
        while got < n:
            if self.it is None:
                self.it = iter(self.loader)
            try:
                s = next(self.it)
            except StopIteration:
                self.it = None
                out.append("|")
                self.idle += 1
                if self.idle >= 3:
                    break
                continue
            self.idle = 0
            got += 1
            out.append(canon(s))
        return out


def fresh(spec, wc=None, restore=None, **kw):
    reset_globals()
    wc = wc or wconf()
    ld = SavableDataLoader(build(spec, wc, **kw))
    if restore is not None:
        ld.restore_state(restore)
    return Driver(ld)


def samples_only(ev):
    return [e for e in ev if e != "|"]


def boundaries(ev):
    """positions (number of samples seen so far) of epoch ends"""
    out, n = [], 0
    for e in ev:
        if e == "|":
            out.append(n)
        else:
            n += 1
    return out


def snap(state):
    """Serialize like a training checkpoint would."""
    return pickle.dumps(state)


def unsnap(b):
    return pickle.loads(b)


def state_key(state):
    return hkey(canon(state))


def rd(s):
    """render canonical sample shortly"""
    if s == "|":
        return "|"
    try:
        d = dict(x for x in s[1:] if isinstance(x, tuple) and len(x) == 2)
        return f"{d.get('__key__')}@{d.get('__restore_key__')}"
    except Exception:
        return repr(s)[:120]


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return dict(index=i, expected=rd(x), got=rd(y), expected_full=repr(x)[:600], got_full=repr(y)[:600])
    if len(a) != len(b):
        return dict(index=min(len(a), len(b)), expected_len=len(a), got_len=len(b))
    return None
