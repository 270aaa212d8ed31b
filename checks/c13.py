"""C13: epoch lengths: limit, virtual epochs, concat and repeat, over all workers."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import Res, main  # noqa


def cases(tier):
    N = 7 if tier == "quick" else 12
    out = []
    for workers in (0, 1, 2, 3, 4):
        for kind in ("epochize", "epochize_inf", "epochize_fresh", "limit", "limit_noreset", "limit_fresh"):
            out.append(dict(kind=kind, workers=workers, N=N))
        out.append(dict(kind="concat", workers=workers, N=4 if tier == "quick" else 6))
        out.append(dict(kind="repeat", workers=workers, N=5))
    out.append(dict(kind="encoder", workers=0, N=6))
    out.append(dict(kind="encoder", workers=2, N=6))
    out.append(dict(kind="encoder", workers=3, N=6))
    return out


def share(total, workers, w):
    n = max(1, workers)
    return total // n + (1 if w < total % n else 0)


def run_case(c):
    from lib.facade import factory
    from lib.run import wconf
    from lib.toy import Toy, mk, split_items
    from lib.wk import streams
    from megatron.energon import TaskEncoder
    from megatron.energon.wrappers import ConcatDataset, EpochizeDataset, LimitDataset, RepeatDataset

    res = Res()
    workers, N = c["workers"], c["N"]
    G = max(1, workers)
    kind = c["kind"]
    EP = 4

    class Fresh(Toy):
        """Its iterators do not share their position: a new one starts from the beginning"""

        def __iter__(self):
            for i in self.items[self.worker_config.rank_worker_id()]:
                yield mk(self.name, i)

    def vals(e):
        return [s.v for s in e]

    def cyc(items, start, n):
        return [items[(start + i) % len(items)] for i in range(n)]

    if kind.startswith("epochize"):
        for n in range(G, N + 1):
            items = split_items(n, G)
            for length in range(1, 2 * N):
                got = streams(lambda wc: EpochizeDataset((Fresh if kind == "epochize_fresh" else Toy)("a", items, wc, loop=kind == "epochize_inf"), length=length, worker_config=wc), workers=workers, epochs=EP)
                for ep in range(EP):
                    total = sum(len(e[ep]) for e in got.values())
                    if total != length:
                        res.bad(f"epoch-length:{c}:n={n}:length={length}:ep={ep}", dict(total=total))
                for (r, w), eps in got.items():
                    L = share(length, workers, w)
                    res.evals += 1
                    res.key((kind, len(items[w]), L))
                    want = [cyc(items[w], L * ep, L) for ep in range(EP)]
                    if [vals(e) for e in eps] != want:
                        res.bad(f"epochize:{c}:n={n}:length={length}:w={w}", dict(want=want, got=[vals(e) for e in eps]))
                if len(EpochizeDataset(Toy("a", items, wconf(0, 1, workers), loop=True), length=length, worker_config=wconf(0, 1, workers))) != length:
                    res.bad(f"len:{c}:{length}", "wrong len")
    elif kind.startswith("limit"):
        reset = kind != "limit_noreset"
        for n in range(0, N + 1):
            items = split_items(n, G)
            for limit in range(1, N + 3):
                got = streams(lambda wc: LimitDataset((Fresh if kind == "limit_fresh" else Toy)("a", items, wc), length=limit, reset_after_epoch=reset, worker_config=wc), workers=workers, epochs=EP)
                ln = len(LimitDataset(Toy("a", items, wconf(0, 1, workers)), length=limit, worker_config=wconf(0, 1, workers)))
                total = sum(len(e[0]) for e in got.values())
                if ln != total or total != min(n, limit):
                    res.bad(f"limit-total:{c}:n={n}:limit={limit}", dict(total=total, len=ln))
                for (r, w), eps in got.items():
                    res.evals += 1
                    L = share(limit, workers, w)
                    res.key((kind, len(items[w]), L))
                    if reset:
                        want = [items[w][:L]] * EP
                    else:
                        # the source continues; an epoch also ends when the source's epoch ends.
                        # After its last sample was delivered, the rest of the source's epoch is empty.
                        want, pos = [], 0
                        for _ in range(EP):
                            e = items[w][pos : pos + L]
                            pos += len(e)
                            if len(e) < L:
                                pos = 0
                            want.append(e)
                    if [vals(e) for e in eps] != want:
                        res.bad(f"limit:{c}:n={n}:limit={limit}:w={w}", dict(want=want, got=[vals(e) for e in eps]))
    elif kind == "concat":
        for sizes in itertools.chain(itertools.product(range(0, N + 1), repeat=2), itertools.product((0, 1, 2), repeat=3)):
            items = [split_items(s, G) for s in sizes]
            got = streams(lambda wc: ConcatDataset(*[Toy(f"d{i}", it, wc) for i, it in enumerate(items)], worker_config=wc), workers=workers, epochs=2)
            for (r, w), eps in got.items():
                want = [f"d{i}/{v}" for i, it in enumerate(items) for v in it[w]]
                res.evals += 1
                res.key((sizes, w))
                if [[s.__key__ for s in e] for e in eps] != [want, want]:
                    res.bad(f"concat:{c}:{sizes}:w={w}", dict(want=want, got=[[s.__key__ for s in e] for e in eps]))
                if any(s.__restore_key__[1] != int(s.__key__[1]) for e in eps for s in e):
                    res.bad(f"concat-key:{c}:{sizes}:w={w}", str(eps)[:400])
    elif kind == "repeat":
        for n in range(0, N + 1):
            items = split_items(n, G)
            for reps in (0, 1, 2, 3, None):
                if reps is None and n < G:
                    continue
                got = streams(lambda wc: RepeatDataset(Toy("a", items, wc), repeats=reps, worker_config=wc), workers=workers, epochs=1 if reps is None else 2, max_samples=20)
                for (r, w), eps in got.items():
                    res.evals += 1
                    res.key((n, reps, w))
                    want = [cyc(items[w], 0, 20)] if reps is None else [items[w] * reps] * 2
                    if [vals(e) for e in eps] != want:
                        res.bad(f"repeat:{c}:n={n}:reps={reps}:w={w}", dict(want=want, got=[vals(e) for e in eps]))
                if reps:
                    wc = wconf(0, 1, workers)
                    if len(RepeatDataset(Toy("a", items, wc), repeats=reps, worker_config=wc)) != n * reps:
                        res.bad(f"repeat-len:{c}:{n}:{reps}", "wrong len")
    else:
        class Enc(TaskEncoder):
            pass

        for n in range(G, N + 1):
            items = split_items(n, G)
            for length in (1, 2, 3, 5, 8):
                got = streams(lambda wc: Enc().build_train_datasets(datasets=[(factory(Toy("a", items, wc, loop=True)), 1.0)], worker_config=wc, batch_size=None, virtual_epoch_length=length), workers=workers, epochs=3)
                for ep in range(3):
                    if sum(len(e[ep]) for e in got.values()) != length:
                        res.bad(f"virtual-epoch:{c}:n={n}:length={length}", "wrong epoch length")
                    res.evals += 1
                got = streams(lambda wc: Enc().build_val_datasets(datasets=[(factory(Toy("a", items, wc)), 1.0)], worker_config=wc, batch_size=None, limit=length), workers=workers, epochs=3)
                for ep in range(3):
                    if sum(len(e[ep]) for e in got.values()) != min(length, n):
                        res.bad(f"val-limit:{c}:n={n}:length={length}", "wrong length")
                    for (r, w), e in got.items():
                        if vals(e[ep]) != items[w][: share(length, workers, w)]:
                            res.bad(f"val-limit-samples:{c}:n={n}:length={length}:ep={ep}", vals(e[ep]))
                res.key((n, length))
    res.sample = dict(evals=res.evals)
    return res


if __name__ == "__main__":
    main(
        "C13",
        "exploration",
        cases,
        run_case,
        rule="all source sizes x lengths/limits/repeats x 0..4 workers over several epochs against index arithmetic on lists; distinct = distinct (source size, share)",
        assumptions=["samples are dealt to workers in contiguous shares whose sizes differ by at most one (C05)"],
    )
