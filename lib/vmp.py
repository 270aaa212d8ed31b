"""A virtual multi-process machine: torch's real DataLoader iterator, its real worker loop and the
real loader code run in one process under a controlled scheduler.

Every "process" is a thread with its own deep copy of everything passed to it at start (like a
fork) and its own copy of the process-global state (module and class level data of the package,
global random generators, torch's worker info), swapped when the scheduler switches processes.
Exactly one thread runs at a time; it hands over only at scheduling points: queue, lock, event and
thread operations.  Which thread continues is decided by a strategy object.
"""
import _thread
import copy
import gc
import multiprocessing
import pickle
import queue
import random
import sys
import threading
import types
from collections import deque

import numpy
import torch
import torch.multiprocessing
import torch.utils.data._utils.signal_handling as tsig
import torch.utils.data._utils.worker as tw

_RealThread = threading.Thread
_real_remove_pids = tsig._remove_worker_pids


def _tolerant_remove_pids(i):
    """iterators of a finished virtual machine were never registered"""
    try:
        _real_remove_pids(i)
    except ValueError:
        pass


tsig._remove_worker_pids = _tolerant_remove_pids


class VKill(BaseException):
    pass


class VDeadlock(Exception):
    pass


# ---------------------------------------------------------------- process-global state
def _cells():
    out = []
    skip = (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType, staticmethod, classmethod, property)
    for mname, m in list(sys.modules.items()):
        if m is None or not mname.startswith("megatron.energon"):
            continue
        for k, v in list(vars(m).items()):
            if k.startswith("__") or isinstance(v, skip) or callable(v) or type(v).__module__ == "typing":
                continue
            out.append((m, k))
        for cls in [v for v in vars(m).values() if isinstance(v, type) and v.__module__ == mname]:
            for k, v in list(vars(cls).items()):
                if k.startswith("__") or isinstance(v, skip) or callable(v) or hasattr(type(v), "__get__"):
                    continue
                if k.startswith("_abc"):
                    continue
                out.append((cls, k))
    return out


_CELLS = None


def cells():
    global _CELLS
    if _CELLS is None:
        _CELLS = _cells()
    return _CELLS


def save_globals():
    return (
        [getattr(o, k, None) for o, k in cells()],
        tw._worker_info,
        torch.get_rng_state(),
        numpy.random.get_state(),
        random.getstate(),
    )


def load_globals(g):
    for (o, k), v in zip(cells(), g[0]):
        if getattr(o, k, None) is not v:
            setattr(o, k, v)
    tw._worker_info = g[1]
    torch.set_rng_state(g[2])
    numpy.random.set_state(g[3])
    random.setstate(g[4])


def fork_globals(g):
    """the state a forked child starts with: containers are copied"""
    return ([copy.copy(v) if type(v) in (list, dict, set) else v for v in g[0]],) + g[1:]


# ---------------------------------------------------------------- scheduler
class Task:
    def __init__(self, vm, proc, name, fn):
        self.vm, self.proc, self.name, self.fn = vm, proc, name, fn
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.ready = None
        self.why = ("start",)
        self.timeout = False
        self.timed_out = False
        self.killed = False
        self.alive = True
        self.error = None
        self.steps = 0

    def __repr__(self):
        return f"<{self.name} {self.why[0]}>"


class Proc:
    def __init__(self, pid, globs):
        self.pid, self.globals = pid, globs


class VM:
    def __init__(self, strategy, late=False):
        self.strategy = strategy
        strategy.vm = self
        self.late = late  # queue items are pickled when received instead of when put
        self.tasks = []
        self.procs = [Proc(0, None)]
        self.cur_proc = self.procs[0]
        self.main = None
        self.current = None
        self.dead = False
        self.deadlock = None
        self.nsched = 0
        self.idle_timeouts = 0
        self.errors = []

    # -- switching
    def _swap(self, proc):
        if proc is not self.cur_proc:
            self.cur_proc.globals = save_globals()
            load_globals(proc.globals)
            self.cur_proc = proc

    def enabled(self):
        return [t for t in self.tasks if t.alive and (t.ready is None or t.ready())]

    def _pick(self, cur):
        en = self.enabled()
        if en:
            nxt = self.strategy.pick(en, cur)
            if nxt is not None:
                return nxt
        to = [t for t in self.tasks if t.alive and t.timeout]
        self.idle_timeouts += 1
        if not to or self.idle_timeouts > 60:
            self.deadlock = [f"{t.name}:{t.why[0]}" for t in self.tasks if t.alive]
            return self.main
        t = to[self.idle_timeouts % len(to)]
        t.timed_out = True
        return t

    def point(self, why, ready=None, timeout=False):
        """Scheduling point of the running thread. Returns True if it continues by timeout."""
        cur = self.current
        if self.dead or cur.killed:
            if cur is self.main:
                return False
            raise VKill()
        cur.why, cur.ready, cur.timeout, cur.timed_out = why, ready, timeout, False
        cur.steps += 1
        self.nsched += 1
        nxt = self._pick(cur)
        if nxt is not cur:
            self._hand_over(nxt)
            cur.lock.acquire()
            if cur is not self.main and (self.dead or cur.killed):
                raise VKill()
        if cur is self.main and self.deadlock is not None and not self.dead:
            d, self.deadlock = self.deadlock, None
            raise VDeadlock(str(d))
        cur.ready = None
        cur.timeout = False
        if cur.timed_out:
            return True
        self.idle_timeouts = 0
        return False

    def _hand_over(self, nxt):
        self._swap(nxt.proc)
        self.current = nxt
        nxt.lock.release()

    def spawn(self, proc, name, fn):
        t = Task(self, proc, name, fn)

        def boot():
            t.lock.acquire()
            t.thread_id = _thread.get_ident()
            try:
                if not self.dead:
                    if getattr(self.strategy, "lines", False):
                        sys.settrace(self.strategy.trace(self.strategy.lines))
                    fn()
            except VKill:
                pass
            except BaseException as e:  # noqa
                t.error = e
                self.errors.append((name, repr(e)))
            finally:
                sys.settrace(None)
                t.alive = False
                t.fn = None
                if getattr(t, "kind", None) == "process":  # daemon threads die with their process
                    for d in self.tasks:
                        if d.alive and d.proc is t.proc and d is not t and getattr(d, "daemon", False):
                            d.killed, d.ready = True, None
                if self.dead:
                    self._hand_over(self.main)
                else:
                    self._hand_over(self._pick(t))

        self.tasks.append(t)
        th = _RealThread(target=boot, daemon=True)
        t.thread = th
        th.start()
        return t

    # -- running
    def run(self, fn):
        assert not hasattr(threading, "_verif_vm") or threading._verif_vm is None
        self.main = self.current = Task(self, self.procs[0], "main", None)
        self.tasks.append(self.main)
        threading._verif_vm = self
        patches = self._patch()
        try:
            return fn(self)
        finally:
            self.shutdown()
            for o, k, v in reversed(patches):
                setattr(o, k, v)
            threading._verif_vm = None

    def shutdown(self):
        self.dead = True
        for t in self.tasks:
            while t.alive and t is not self.main:
                self._hand_over(t)
                self.main.lock.acquire()
        self._swap(self.procs[0])
        self.current = self.main

    def _patch(self):
        import time  # noqa
        import traceback

        import megatron.energon.savable_loader as sl

        vm = self
        done = []

        def put(o, k, v):
            done.append((o, k, getattr(o, k)))
            setattr(o, k, v)

        class Queue(VQueue):
            def __init__(self, *a, **k):
                super().__init__(vm)

        class Event(VEvent):
            def __init__(self):
                super().__init__(vm)

        class RLock(VRLock):
            def __init__(self):
                super().__init__(vm)

        class Lock(VRLock):
            reentrant = False

            def __init__(self):
                super().__init__(vm)

        class Thread(VThread):
            def __init__(self, *a, **k):
                super().__init__(vm, *a, **k)

        class Process(VProcess):
            def __init__(self, *a, **k):
                super().__init__(vm, *a, **k)

        class ThreadEvent(VEvent):
            def __init__(self):
                super().__init__(vm)

        repl = []
        for m in (multiprocessing, torch.multiprocessing):
            repl += [(m, "Queue", Queue), (m, "SimpleQueue", Queue), (m, "Event", Event), (m, "Process", Process), (m, "Lock", Lock), (m, "RLock", RLock)]
        fake_threading = types.SimpleNamespace(**vars(threading))
        fake_threading.Thread, fake_threading.RLock, fake_threading.Lock, fake_threading.Event = Thread, RLock, Lock, ThreadEvent
        byid = {id(threading.Thread): Thread, id(threading.RLock): RLock, id(threading.Lock): Lock, id(threading.Event): ThreadEvent}
        for m, k, v in repl:
            if hasattr(m, k):
                o = getattr(m, k)
                if not isinstance(o, types.MethodType):
                    byid[id(o)] = v
                put(m, k, v)
        for mname, m in list(sys.modules.items()):
            if mname.startswith("megatron.energon") and m is not None:
                for k, v in list(vars(m).items()):
                    if v is threading:
                        put(m, k, fake_threading)
                    elif id(v) in byid and isinstance(v, (type, types.FunctionType, types.BuiltinFunctionType)):
                        put(m, k, byid[id(v)])
        for k in ("_set_worker_pids", "_set_SIGCHLD_handler", "_set_worker_signal_handlers"):
            if hasattr(tsig, k):
                put(tsig, k, lambda *a, **kw: None)
        if hasattr(torch.multiprocessing, "_set_thread_name"):
            put(torch.multiprocessing, "_set_thread_name", lambda *a: None)
        put(gc, "get_objects", lambda *a, **k: [])
        put(gc, "freeze", lambda: None)
        put(gc, "unfreeze", lambda: None)
        put(traceback, "print_exc", lambda *a, **k: None)
        self.clock = 0.0
        fake_time = types.SimpleNamespace(**vars(time))
        fake_time.perf_counter = fake_time.monotonic = fake_time.time = lambda: self.strategy.now()
        for mname, m in list(sys.modules.items()):
            if mname.startswith("megatron.energon") and m is not None:
                for k, v in list(vars(m).items()):
                    if v is time:
                        put(m, k, fake_time)
        return done


class Strategy:
    """Decides which task runs next. Also keeps book which worker delivered what: the main process
    returns the workers' results in task order."""

    vm = None
    _t = 0.0

    def on_put(self, q, x):
        t = self.vm.current
        if getattr(t, "kind", None) == "process" and isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int):
            self.log.append(t.proc.pid - 1)
            if type(x[1]).__name__ not in ("_IterableDatasetStopIteration", "ExceptionWrapper"):
                self.pending[x[0]] = t.proc.pid - 1
                self.done[t.proc.pid - 1] = self.done.get(t.proc.pid - 1, 0) + 1

    def __init__(self):
        self.log = []  # which worker executed a task, in order
        self.pending = {}
        self.done = {}
        self.got = {}

    def new_epoch(self):
        self.pending.clear()
        self.done.clear()
        self.got.clear()

    def delivered(self):
        """A sample was returned to the user: which worker (in order of creation) is it from?"""
        w = self.pending.pop(min(self.pending))
        self.got[w] = self.got.get(w, 0) + 1
        return w

    def lead(self, w):
        return self.done.get(w, 0) - self.got.get(w, 0)

    def now(self):
        self._t += 1.0
        return self._t


# ---------------------------------------------------------------- the fakes
class _NoCopy:
    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise TypeError("not picklable (inherited at process start only)")


class VQueue(_NoCopy):
    def __init__(self, vm):
        self.vm = vm
        self.items = deque()
        self.nput = 0

    def put(self, x, block=True, timeout=None):
        self.vm.strategy.on_put(self, x)
        if not self.vm.late:
            x = pickle.dumps(x)
        self.items.append(x)
        self.nput += 1
        self.vm.point(("put", self))

    def get(self, block=True, timeout=None):
        if not block:
            self.vm.point(("poll", self))
            if not self.items:
                raise queue.Empty()
        elif self.vm.point(("get", self), lambda: bool(self.items), timeout is not None):
            raise queue.Empty()
        if not self.items:  # torn down
            raise queue.Empty()
        x = self.items.popleft()
        return pickle.loads(pickle.dumps(x) if self.vm.late else x)

    def put_nowait(self, x):
        self.put(x)

    def get_nowait(self):
        return self.get(False)

    def peek(self):
        """the head, for strategies"""
        x = self.items[0]
        return x if self.vm.late else pickle.loads(x)

    def empty(self):
        return not self.items

    def qsize(self):
        return len(self.items)

    def close(self):
        pass

    join_thread = cancel_join_thread = close


class VEvent(_NoCopy):
    def __init__(self, vm):
        self.vm, self.flag = vm, False

    def is_set(self):
        return self.flag

    def set(self):
        self.flag = True
        self.vm.point(("set", self))

    def clear(self):
        self.flag = False

    def wait(self, timeout=None):
        self.vm.point(("wait", self), lambda: self.flag, timeout is not None)
        return self.flag


class VRLock(_NoCopy):
    reentrant = True

    def __init__(self, vm):
        self.vm, self.owner, self.count = vm, None, 0

    def acquire(self, blocking=True, timeout=-1):
        vm = self.vm
        if vm.dead:
            return True
        cur = vm.current
        if not (self.reentrant and self.owner is cur):
            if not blocking:
                vm.point(("trylock", self))
                if self.owner is not None:
                    return False
            elif vm.point(("lock", self), lambda: self.owner is None, timeout is not None and timeout >= 0):
                return False
        self.owner = cur
        self.count += 1
        return True

    def release(self):
        vm = self.vm
        if vm.dead:
            return
        if self.owner is not vm.current:
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            vm.point(("unlock", self))

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class VThread(_NoCopy):
    def __init__(self, vm, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self.vm, self.target, self.args, self.kwargs = vm, target, args, kwargs or {}
        self.name = name or "thread"
        self.daemon = daemon
        self.task = None

    def start(self):
        vm = self.vm
        target, args, kwargs = self.target, self.args, self.kwargs
        self.task = vm.spawn(vm.cur_proc, f"p{vm.cur_proc.pid}.{self.name}", lambda: target(*args, **kwargs))
        self.task.kind = "thread"
        self.task.daemon = self.daemon
        vm.point(("start", self))

    def is_alive(self):
        return self.task is not None and self.task.alive

    def join(self, timeout=None):
        if self.vm.dead:
            return
        self.vm.point(("join", self), lambda: not self.is_alive(), timeout is not None)

    def setDaemon(self, d):
        self.daemon = d


class VProcess(_NoCopy):
    def __init__(self, vm, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self.vm, self.target, self.args, self.kwargs = vm, target, args, kwargs or {}
        self.daemon = daemon
        self.task = None
        self.pid = None
        self.exitcode = None
        self.name = name

    def start(self):
        vm = self.vm
        target, args, kwargs = copy.deepcopy((self.target, self.args, self.kwargs))
        vm.procs.append(Proc(len(vm.procs), fork_globals(save_globals())))
        proc = vm.procs[-1]
        self.pid = 10000 + proc.pid
        box = [target, args, kwargs]

        def body():
            t, a, k = box.pop(), None, None
            k, a, t = t, box.pop(), box.pop()
            t(*a, **k)

        self.task = vm.spawn(proc, f"p{proc.pid}", body)
        self.task.kind = "process"
        self.task.queues = [q for q in args if isinstance(q, VQueue)]
        # the parent drops what the child alone may keep (as torch expects of a fork)
        self.args = ()
        vm.point(("start", self))

    def is_alive(self):
        return self.task is not None and self.task.alive

    def join(self, timeout=None):
        if self.vm.dead:
            return
        self.vm.point(("join", self), lambda: not self.is_alive(), timeout is not None)

    def terminate(self):
        pass

    kill = terminate

    def close(self):
        pass


# ---------------------------------------------------------------- strategies
class Lag(Strategy):
    """Workers process exactly one task per sample the main process takes (in task order), plus, when
    the main process waits for command results, worker w first runs ahead until it is lag[w] samples
    ahead of what was delivered."""

    def __init__(self, order=0, clock=None):
        super().__init__()
        self.lag = None
        self.order = order
        self.clock = clock

    def now(self):
        return self.clock(self) if self.clock else super().now()

    def _procs(self):
        return [t for t in self.vm.tasks if getattr(t, "kind", None) == "process"]

    def at_index_get(self, t):
        return getattr(t, "kind", None) == "process" and t.why[0] == "get" and t.why[1] is t.queues[0]

    def pick(self, en, cur):
        if cur in en and (cur is self.vm.main or cur.why[0] != "get"):
            return cur
        rest = [t for t in en if not self.at_index_get(t)]
        main = self.vm.main
        if main in rest:
            return main
        other = [t for t in rest if t.why[0] != "get"]
        if other:  # a thread in the middle of something
            return other[0]
        idle = [t for t in en if self.at_index_get(t)]
        if self.lag is not None:
            for n, t in enumerate(self._procs()):
                if t in idle and self.lead(n) < self.lag[n]:
                    return t
        if rest:
            return rest[-1 if self.order else 0]
        if not idle:
            return None

        def head(t):
            x = t.queues[0].peek()
            return x[0] if isinstance(x, tuple) else -1

        return min(idle, key=head)


class Dev(Strategy):
    """Deviation bounded exploration: by default the running task continues until it blocks, then
    the first enabled task runs; devs maps scheduling steps to the alternative taken there.  alts
    records the alternatives of every step."""

    def __init__(self, devs=(), lines=False, timeouts=False):
        super().__init__()
        self.devs = dict(devs)
        self.lines = lines
        self.timeouts = timeouts
        self.step = 0
        self.alts = []

    def pick(self, en, cur):
        default = cur if cur in en else en[0]
        why = cur.why[0]
        if why == "line":
            alts = [t for t in en if t is not default and t.proc is cur.proc]
        else:
            alts = [t for t in en if t is not default]
        if self.timeouts and why != "line":
            alts += [t for t in self.vm.tasks if t.alive and t.timeout and t not in en and t is not cur]
        k = self.devs.get(self.step)
        self.alts.append(len(alts))
        self.step += 1
        if k is None:
            return default
        t = alts[k]
        if t not in en:
            t.timed_out = True
        return t

    def trace(self, fn_file):
        vm = self.vm

        def local(frame, event, arg):
            if event == "line" and not vm.dead and vm.current.thread_id == _thread.get_ident():
                vm.point(("line", frame.f_lineno))
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename == fn_file:
                return local
            return None

        return glob
