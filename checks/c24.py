"""C24: saving and restoring the state of all ranks together.

The ranks run as threads of one process, on torch.distributed's own in-process ("threaded") backend, so
that the real collectives, groups and rank translation are used.  Enumerated: every partition of up to
4 ranks into data parallel groups, every vector of positions of the ranks, every destination, every way
of restoring.  A few configurations run as real processes with the gloo backend.
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import Res, main  # noqa

TIMEOUT = 60

W0 = [
    ["toy", "a", 4],
    ["batch", ["shuffle", ["toy", "a", 5, "ls"], 2], 2, "bat"],
    ["disk", [4, 3, 5], dict(p=2, ms=2)],
    ["disk", [5, 4], dict(val=1)],
    ["epochize", ["disk", [4, 3, 5], dict(p=2)], 3],
]
W1 = [["map", ["toy", "a", 4, "ls"], "aug"], ["disk", [5, 4], dict(val=1)]]


def partitions(xs):
    if not xs:
        yield []
        return
    head, rest = xs[0], xs[1:]
    for p in partitions(rest):
        yield [[head]] + p
        for i in range(len(p)):
            yield p[:i] + [[head] + p[i]] + p[i + 1 :]


def cases(tier):
    out = []
    for G in (1, 2, 3, 4):
        groups = [None] + [sorted(p) for p in partitions(list(range(G)))]
        for g in groups:
            for n in range(len(W0)):
                if G == 4 and tier != "thorough" and n not in (0, 2):
                    continue
                pos = [0, 1, 2, 3, 4] if G < 4 or tier == "thorough" else [0, 3]
                if G == 3 and tier != "thorough":
                    pos = [0, 1, 4]
                out.append(dict(G=G, groups=g, W=0, spec=n, pos=pos))
    for G, groups in ((2, None), (3, None), (3, [[0, 2], [1]]), (4, [[0, 2], [1, 3]]), (4, [[0, 3], [1, 2]])):
        for n in range(len(W1)):
            c = dict(G=G, groups=groups, W=1, spec=n, pos=[0, 2, 5])
            if tier != "thorough":
                c.update(pos=[0, 3], few={2: 3, 3: 2, 4: 2}[G])
            out.append(c)
            if G < 4 or n == 0 or tier == "thorough":
                out.append(dict(G=G, groups=groups, W=1, spec=n, real=1, pos=[0, 1, 3, 5]))
    return out


def run_case(case):
    import queue
    import threading

    import torch
    import torch.distributed as dist

    from itertools import product

    from megatron.energon.savable_loader import SavableDataLoader
    from megatron.energon.worker import WorkerConfig

    from lib.core import hkey, reset_globals
    from lib.run import Driver, first_diff, rd, snap, state_key, unsnap, wconf
    from lib.toy import build, canon, real_collect

    import torch.utils.data._utils as tu

    tu.MP_STATUS_CHECK_INTERVAL = 0.2  # dropped loaders wait for this long
    res = Res()
    G, W, real = case["G"], case["W"], case.get("real")
    groups = case["groups"] or [list(range(G))]
    spec = (W1 if W else W0)[case["spec"]]
    of = {r: g for g in groups for r in g}
    sub = {r: of[r].index(r) for r in range(G)}  # rank within its data parallel group

    # ---- reference: each rank alone, never saved
    LEN = 10
    ref = {}

    def reference(p, n):
        if (p, n) not in ref:
            reset_globals()
            d = Driver(SavableDataLoader(build(spec, wconf(p, n, W)), checkpoint_every_sec=0))
            ref[p, n] = d.take(LEN)
            del d
            real_collect()
            reset_globals()
            res.evals += 1
        return ref[p, n]

    # ---- the program of one rank, independent of how ranks are realised
    class Rank:
        def __init__(self, r):
            self.r = r

        def setup(self, backend, **kw):
            dist.init_process_group(backend=backend, rank=self.r, world_size=G, **kw)
            self.group = None
            if case["groups"] is not None:
                for ranks in groups:
                    g = dist.new_group(ranks)
                    if self.r in ranks:
                        self.group = g
            self.wc = WorkerConfig.default_worker_config(W, self.group)
            return self.wc.rank, self.wc.world_size

        def loader(self):
            self.ld = None
            self.it = None
            self.ld = SavableDataLoader(build(spec, self.wc), checkpoint_every_sec=0)
            self.drv = Driver(self.ld)
            return True

        def take(self, n):
            return self.drv.take(n)

        def own(self):
            return snap(self.ld.save_state_rank())

        def save(self, dst):
            return snap(self.ld.save_state(dst) if dst != "default" else self.ld.save_state())

        def restore(self, b, src):
            b = unsnap(b)
            if src == "default":
                self.ld.restore_state(b)
            else:
                self.ld.restore_state(b, src_rank=src)
            return True

        def close(self):
            self.ld = self.drv = None
            real_collect()
            dist.destroy_process_group()
            return True

    # ---- ranks as threads
    class Threads:
        def __init__(self):
            from torch.testing._internal.distributed import multi_threaded_pg as mt

            self.mt = mt
            torch._C._distributed_c10d._set_thread_isolation_mode(True)
            mt._install_threaded_pg()
            mt.ProcessLocalGroup.reset()
            self.q = [queue.Queue() for _ in range(G)]
            self.a = [queue.Queue() for _ in range(G)]
            store = dist.HashStore()
            self.kw = [dict(backend="threaded", store=store) for _ in range(G)]
            for r in range(G):
                threading.Thread(target=self.loop, args=(r,), daemon=True).start()

        def loop(self, r):
            me = Rank(r)
            while True:
                c = self.q[r].get()
                if c is None:
                    return
                try:
                    self.a[r].put(("ok", getattr(me, c[0])(*c[1], **c[2])))
                except BaseException as e:
                    self.mt.ProcessLocalGroup.exception_handle(e)
                    self.a[r].put(("error", repr(e)[:500]))

        def send(self, r, op, *a, **kw):
            self.q[r].put((op, a, kw))

        def recv(self, r):
            try:
                return self.a[r].get(timeout=TIMEOUT)
            except queue.Empty:
                return ("hang", None)

        def end(self):
            for q in self.q:
                q.put(None)
            self.mt._uninstall_threaded_pg()
            torch._C._distributed_c10d._set_thread_isolation_mode(False)

    # ---- ranks as processes (gloo)
    class Procs:
        def __init__(self):
            import multiprocessing as mp
            import tempfile

            from lib.disk import scratch

            os.environ["GLOO_SOCKET_IFNAME"] = "lo"
            f = tempfile.mktemp(dir=scratch())
            self.kw = [dict(backend="gloo", init_method="file://" + f) for _ in range(G)]
            ctx = mp.get_context("fork")
            self.c, self.p = [], []
            for r in range(G):
                a, b = ctx.Pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        self.child(r, b)
                    finally:
                        os._exit(0)
                b.close()
                self.c.append(a)
                self.p.append(pid)

        def child(self, r, conn):
            me = Rank(r)
            while True:
                c = conn.recv()
                if c is None:
                    return
                try:
                    conn.send(("ok", getattr(me, c[0])(*c[1], **c[2])))
                except BaseException as e:
                    conn.send(("error", repr(e)[:500]))

        def send(self, r, op, *a, **kw):
            self.c[r].send((op, a, kw))

        def recv(self, r):
            return self.c[r].recv() if self.c[r].poll(TIMEOUT) else ("hang", None)

        def end(self):
            import signal

            for c in self.c:
                try:
                    c.send(None)
                except OSError:
                    pass
            for p in self.p:
                os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)

    for g in groups:
        for p in range(len(g)):
            reference(p, len(g))
    m = Procs() if real else Threads()

    class Bad(Exception):
        pass

    def all_ranks(what, op, args):
        for r in range(G):
            m.send(r, op, *args(r))
            res.transitions += 1
        out = [m.recv(r) for r in range(G)]
        for r, (st, v) in enumerate(out):
            if st != "ok":
                raise Bad(f"{what}: {[(i, s if s != 'error' else e) for i, (s, e) in enumerate(out)]}")
        return [v for _, v in out]

    def each(what, op, args):
        """one rank after the other (nothing collective)"""
        out = []
        for r in range(G):
            m.send(r, op, *args(r))
            st, v = m.recv(r)
            if st != "ok":
                raise Bad(f"{what} on rank {r}: {v or st}")
            out.append(v)
        return out

    def want(r, pos):
        return reference(sub[r], len(of[r]))[pos:]

    def check_continues(what, pos):
        got = each(what, "take", lambda r: (4,))
        for r in range(G):
            w = want(r, pos[r])
            g = got[r]
            if w and w[0] == "|" and g and g[0] != "|":
                w = w[1:]
            if g and g[0] == "|" and w and w[0] != "|":
                g = g[1:]
            n = min(len(w), len(g))
            if not n or w[:n] != g[:n]:
                raise Bad(f"{what}: rank {r} (group {of[r]}) continues with {[rd(x) for x in g]}, expected {[rd(x) for x in w]}")

    ctx = {}
    try:
        for r in range(G):
            m.send(r, "setup", **m.kw[r])
        got = [m.recv(r) for r in range(G)]
        if got != [("ok", (sub[r], len(of[r]))) for r in range(G)]:
            res.bad("setup", dict(got=repr(got)))
            return res
        vectors = list(product(range(len(case["pos"])), repeat=G))
        if W and not real:
            vectors = [v for v in vectors if len(set(v)) > 1 or v[0] == 1]
        if W and not real and "few" in case:
            vectors = vectors[:: len(vectors) // case["few"] + 1]
        if real:
            vectors = [tuple((i * 2 + k) % 4 for i in range(G)) for k in range(2)]
        most = max(len(g) for g in groups)
        for v in vectors:
            ctx = dict(groups=groups, positions=[case["pos"][i] for i in v])
            each("build", "loader", lambda r: ())
            ev = each("take", "take", lambda r: (case["pos"][v[r]],))
            pos = [len(e) for e in ev]
            for r in range(G):
                if ev[r] != want(r, 0)[: pos[r]]:
                    raise Bad(f"rank {r} delivers {[rd(x) for x in ev[r]]}, alone {[rd(x) for x in want(r, 0)]}")
            own = each("own", "own", lambda r: ())
            ok = [state_key(unsnap(b)) for b in own]
            full = {}
            for dst in ["default", None] + list(range(most)):
                # every rank names the same rank of its own group
                ctx["dst_rank"] = dst
                d = {r: dst if dst in (None, "default") else min(dst, len(of[r]) - 1) for r in range(G)}
                out = all_ranks("save_state", "save", lambda r: (d[r],))
                res.evals += 1
                for r in range(G):
                    got = unsnap(out[r])
                    if d[r] not in (None, "default") and sub[r] != d[r]:
                        if got is not None:
                            raise Bad(f"save_state({dst}): rank {r} is not the destination, but got {type(got).__name__}")
                        continue
                    if not isinstance(got, list) or [state_key(x) for x in got] != [ok[q] for q in of[r]]:
                        raise Bad(f"save_state({dst}): rank {r} did not get the states of its group in rank order: {type(got).__name__}")
                    full[tuple(of[r])] = out[r]
                    res.key(tuple(state_key(x) for x in got))
            # saving did not disturb
            check_continues("continued after saving", pos)
            ctx.pop("dst_rank")
            for mode in ["list", "own", "list-none"] + list(range(most)):
                ctx["restore"] = mode
                each("build", "loader", lambda r: ())

                def args(r):
                    if mode == "list":
                        return (full[tuple(of[r])], "default")
                    if mode == "list-none":
                        return (full[tuple(of[r])], None)
                    if mode == "own":
                        return (own[r], "default")
                    s = min(mode, len(of[r]) - 1)
                    return (full[tuple(of[r])] if sub[r] == s else snap(None), s)

                all_ranks("restore_state", "restore", args)
                res.evals += 1
                if mode in ("list", 0):  # saved again, before the first sample
                    again = all_ranks("save again", "save", lambda r: (None,))
                    check_continues(f"restored ({mode})", pos)
                    each("build", "loader", lambda r: ())
                    all_ranks("restore again", "restore", lambda r: (again[r], "default"))
                check_continues(f"restored ({mode})", pos)
            res.states += 1
            if real:
                res.validated += 1
            res.sample = dict(ctx, spec=spec)
        all_ranks("close", "close", lambda r: ())
    except Bad as e:
        res.bad(f"{case['groups']}:{ctx.get('dst_rank')}:{ctx.get('restore')}:{str(e)[:80]}", dict(ctx, what=str(e)[:1500], spec=spec))
    finally:
        m.end()
        import multiprocessing as rm
        import signal

        signal.signal(signal.SIGCHLD, signal.SIG_DFL)
        for c in rm.active_children():
            c.kill()
            c.join(5)
        real_collect()
        reset_globals()
    return res


if __name__ == "__main__":
    main(
        "C24",
        "model_checking",
        cases,
        run_case,
        rule="partitions of up to 4 ranks into data parallel groups x position of each rank x destination x way of restoring; states = vectors of rank positions, transitions = operations of ranks; distinct = distinct gathered states",
        case_timeout=600,
    )
