"""C25: the shuffle buffer permutes the stream within its window, and can produce every such order."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import Res, main  # noqa


def cases(tier):
    N = 5 if tier == "quick" else 7
    S = 4 if tier == "quick" else 5
    out = [dict(kind="all", n=n, size=s) for n in range(0, N + 1) for s in range(1, S + 1)]
    out += [dict(kind="long", n=40, size=s, seed=x) for s in (1, 2, 5, 10, 39, 40, 60) for x in range(4)]
    out += [dict(kind="encoder", size=s) for s in (None, 0, 1, 3)]
    return out


def ref_orders(n, size):
    out = set()

    def rec(buf, nxt, done):
        while len(buf) < size and nxt < n:
            buf = buf + [nxt]
            nxt += 1
        if not buf:
            out.add(tuple(done))
            return
        for i in range(len(buf)):
            rec(buf[:i] + buf[i + 1 :], nxt, done + [buf[i]])

    rec([], 0, [])
    return out


def run_case(c):
    from lib.run import wconf
    from lib.script import explore
    from lib.toy import Toy
    from lib.wk import pull, streams
    from lib.core import reset_globals
    from megatron.energon.wrappers import ShuffleBufferDataset

    res = Res()
    n, size = c.get("n", 0), c["size"]
    if c["kind"] == "all":
        def run(ch):
            reset_globals()
            wc = wconf()
            ds = ShuffleBufferDataset(Toy("a", [list(range(n))], wc), size=size, worker_config=wc)
            return [s.v for s in pull(ds, wc)]

        got, scripted = set(), 0
        for ch, order in explore(run):
            res.evals += 1
            res.transitions += len(ch.trace)
            scripted += len(ch.trace)
            got.add(tuple(order))
        want = ref_orders(n, size)
        for o in got:
            res.key((size, o))
            if o not in want:
                res.bad(f"impossible-order:{c}", dict(order=o))
        if scripted and got != want:
            res.bad(f"missing-orders:{c}", dict(missing=sorted(want - got)[:5]))
        if not scripted and n > 1 and size > 1:
            res.note("random choices not scriptable")
        res.states = len(got)
        res.validated = res.evals
        res.sample = dict(orders=len(got))
    elif c["kind"] == "long":
        res.evals += 1
        from megatron.energon.worker import WorkerConfig

        wc = WorkerConfig(rank=0, world_size=1, num_workers=0, seed_offset=c["seed"])
        ds = ShuffleBufferDataset(Toy("a", [list(range(n))], wc), size=size, worker_config=wc)
        for ep in range(2):
            o = [s.v for s in pull(ds, wc)]
            res.key(o)
            if sorted(o) != list(range(n)):
                res.bad(f"not-a-permutation:{c}", dict(order=o))
            if any(v > k + size - 1 for k, v in enumerate(o)):
                res.bad(f"outside-window:{c}", dict(order=o))
            if size > 4 and o == list(range(n)):
                res.bad(f"not-shuffled:{c}", dict(order=o))
            if size == 1 and o != list(range(n)):
                res.bad(f"size-1-shuffles:{c}", dict(order=o))
        res.sample = dict(order=o)
    else:
        # through the task encoder: None/0/1 keep the order, more shuffles
        from lib.facade import factory
        from megatron.energon import TaskEncoder

        wc = wconf()
        ds = TaskEncoder().build_train_datasets(datasets=[(factory(Toy("a", [list(range(20))], wc, loop=True)), 1.0)], worker_config=wc, batch_size=None, shuffle_buffer_size=size, virtual_epoch_length=20)
        o = [s.v for s in pull(ds, wc)]
        res.evals += 1
        res.key((size, o))
        if size in (None, 0, 1):
            if o != list(range(20)):
                res.bad(f"encoder:{c}", dict(order=o))
        elif o == list(range(20)) or len(o) != 20 or any((v - k) % 20 > size - 1 and v - k > size - 1 for k, v in enumerate(o)):
            res.bad(f"encoder:{c}", dict(order=o))
        res.sample = dict(order=o)
    return res


if __name__ == "__main__":
    main(
        "C25",
        "model_checking",
        cases,
        run_case,
        rule="all answers of the random number source for streams of up to N samples and buffers of up to S; the set of produced orders is compared with the set of orders of the reference buffer; distinct = distinct (size, order)",
    )
