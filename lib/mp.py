"""Runs of the real loader with (virtual) worker processes, step by step, with saves anywhere."""
import gc

from megatron.energon.savable_loader import SavableDataLoader

from lib.core import reset_globals
from lib.run import snap, unsnap, wconf
from lib.toy import build, canon, real_collect
from lib.vmp import VM, Lag, VDeadlock

CLOCKS = {
    "fast": None,  # every look at the clock is one second later
    "stuck": lambda st: 0.0,  # no time passes: only the unconditional checkpoints
}


def _third(st):
    st._t += 1
    return float(int(st._t) // 7 * 100)


CLOCKS["bursts"] = _third


class Run:
    """One loader in its own virtual machine."""

    def __init__(self, spec, W, state=None, rank=0, world=1, clock="fast", late=False, order=0, make=None, **lkw):
        self.spec, self.W, self.state, self.lkw = spec, W, state, lkw
        self.rank, self.world = rank, world
        self.st = Lag(order=order, clock=CLOCKS[clock])
        self.vm = VM(self.st, late=late)
        self.make = make or (lambda wc: build(self.spec, wc))
        self.events = []
        self.who = []
        self.saved = []

    def go(self, n, save_at=None, max_epochs=3):
        """n samples; save_at(position of the next event, kind) -> lag vector or None.
        events: canonical samples and '|'; saved: (number of events so far, kind, bytes)."""
        reset_globals()

        self.script = script = []

        def mark(op, arg=None):
            script.append((op, arg, len(self.st.log)))

        def body(vm):
            kw = dict(checkpoint_every_sec=0)
            kw.update(self.lkw)
            ld = SavableDataLoader(self.make(wconf(self.rank, self.world, self.W)), **kw)
            if self.state is not None:
                ld.restore_state_rank(unsnap(self.state))

            def save(kind):
                lag = save_at and save_at(len(self.events), kind)
                if lag is None:
                    return
                self.st.lag = lag
                self.saved.append((len(self.events), kind, snap(ld.save_state_rank())))
                self.st.lag = None
                mark("save", kind)

            it = None
            got = ends = 0
            while True:
                save("run" if it is not None else ("idle" if self.events else "new"))
                if got >= n or ends >= max_epochs:
                    break
                if it is None:
                    it = iter(ld)
                    mark("iter")
                    self.st.new_epoch()
                    save("iter")
                try:
                    s = next(it)
                except StopIteration:
                    mark("next")
                    it = None
                    ends += 1
                    self.events.append("|")
                    self.who.append(None)
                    continue
                mark("next")
                got += 1
                self.who.append(self.st.delivered())
                self.events.append(canon(s))
            return self

        try:
            self.vm.run(body)
        finally:
            reset_globals()
        return self


def split_epochs(events):
    out = [[]]
    for e in events:
        if e == "|":
            out.append([])
        else:
            out[-1].append(e)
    return out


# ---------------------------------------------------------------- the same schedule with real processes
def real_run(vrun, timeout=15):
    """Replays the schedule of a finished virtual run with real worker processes: every task a worker
    executes is released at the same point of the history. Returns (events, saved states, exact).
    torch hands out tasks depending on the arrival order of the notifications that a worker is
    exhausted, which cannot be controlled: exact is False if the real workers got other tasks."""
    import multiprocessing as rm
    import signal
    import threading
    import time

    import torch.utils.data as tud
    import torch.utils.data._utils.fetch as fetch

    W = vrun.W
    reset_globals()
    ctx = rm.get_context("fork")
    sems = [ctx.Semaphore(0) for _ in range(W)]
    counts = [ctx.Value("i", 0) for _ in range(W)]
    orig = fetch._IterableDatasetFetcher.fetch

    def gated(self, idx):
        w = tud.get_worker_info().id
        sems[w].acquire()
        try:
            return orig(self, idx)
        finally:
            counts[w].value += 1

    fetch._IterableDatasetFetcher.fetch = gated
    log = vrun.st.log
    want = [0] * W
    done = 0
    events, saved = [], []
    exact = True
    kw = dict(checkpoint_every_sec=0)
    kw.update(vrun.lkw)
    it = ld = None

    def let_all_go():
        nonlocal exact
        exact = False
        for s in sems:
            for _ in range(400):
                s.release()

    watchdog = None
    try:
        ld = SavableDataLoader(vrun.make(wconf(vrun.rank, vrun.world, W)), **kw)
        if vrun.state is not None:
            ld.restore_state_rank(unsnap(vrun.state))
        for op, arg, upto in vrun.script:
            if op == "iter":
                it = iter(ld)
            for w in log[done:upto]:
                want[w] += 1
                sems[w].release()
            done = upto
            if op == "save":
                end = time.time() + (3 if exact else 0)
                while [c.value for c in counts] != want:
                    if time.time() > end:
                        exact = False
                        break
                    time.sleep(0.001)
                saved.append(snap(ld.save_state_rank()))
            elif op == "next":
                watchdog = threading.Timer(timeout, let_all_go)
                watchdog.start()
                try:
                    events.append(canon(next(it)))
                except StopIteration:
                    events.append("|")
                    it = None
                watchdog.cancel()
        return events, saved, exact
    finally:
        if watchdog:
            watchdog.cancel()
        for s in sems:
            for _ in range(40):
                s.release()
        fetch._IterableDatasetFetcher.fetch = orig
        signal.signal(signal.SIGCHLD, signal.SIG_DFL)  # torch's handler would report the kills
        ps = [c for c in rm.active_children()]
        for c in ps:
            if c.is_alive():
                c.kill()
                c.join(5)
        it = ld = None
        real_collect()
        reset_globals()


def real_free(make_loader, fn):
    """fn(loader) with real worker processes running freely."""
    import multiprocessing as rm
    import signal

    reset_globals()
    ld = make_loader()
    try:
        return fn(ld)
    finally:
        signal.signal(signal.SIGCHLD, signal.SIG_DFL)
        for c in rm.active_children():
            c.kill()
            c.join(5)
        ld = None
        real_collect()
        reset_globals()
