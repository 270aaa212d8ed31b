"""C06: epoch exactness and reading order of training / validation data for every random outcome."""
import copy
import os
import sys
from functools import lru_cache

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import Res, main  # noqa


def cases(tier):
    q = tier == "quick"
    out = []

    def add(counts, so, p, ms, n, layout=(1, 0), exclude=(), kind="orders"):
        out.append(dict(kind=kind, counts=counts, so=so, p=p, ms=ms, n=n, layout=layout, exclude=list(exclude)))

    # every random outcome; n = samples per worker looked at
    for counts in ([1], [3], [2, 1], [1, 2], [2, 2], [1, 1, 1], [2, 0, 1], [0, 2, 1]):
        for ms in (None, 1, 2):
            t = sum(counts)
            for p in (1, 2, 3, None):
                if p in (3, None) and t > 3:
                    continue
                add(counts, 1, p, ms, t)
                if t <= 2 or (t == 3 and p in (1, 2)) or not q:
                    add(counts, 1, p, ms, t + 1)
                if t <= 2:
                    add(counts, 1, p, ms, 2 * t)
                    add(counts, 2, p, ms, 2 * t)
                    add(counts, 3, p, ms, 3 * t)
                if p is not None:
                    add(counts, -1, p, ms, 3 if p in (1, 2) else 2)
            if t == 3:
                add(counts, 1, 1, ms, 2 * t)
    for counts in ([2, 1], [3]):
        for ms in (None, 2):
            add(counts, 2, 1, ms, 2 * sum(counts))
            if not q:
                add(counts, 2, 2, ms, 2 * sum(counts))
    for counts in ([2, 1, 1], [3, 1], [2, 2]):
        for p in (1, 2):
            for ms in (None, 2):
                add(counts, 1, p, ms, 4)
    if not q:
        for counts in ([3, 2], [2, 2, 1], [1, 1, 1, 1]):
            for p in (1, 2, 3):
                for ms in (None, 2, 1):
                    if ms == 1 and p == 3:
                        continue
                    add(counts, 1, p, ms, sum(counts))
                    add(counts, -1, p, ms, 4)
    # several workers: every worker on its own slices
    for layout in ((1, 1), (1, 2), (2, 1), (2, 0)):
        for counts in ([3, 1], [2, 2], [1, 3]):
            for p in (1, 2):
                for ms in (None, 1):
                    add(counts, 1, p, ms, "epoch", layout)
                    if layout != (1, 1) and (ms is None or p == 1):
                        add(counts, 2, p, ms, "epoch", layout)
                    add(counts, -1, p, ms, 2, layout)
    # excluded samples / shards
    for p in (1, 2):
        for ms in (None, 1, 2):
            add([3, 1], 1, p, ms, 3, exclude=["shard_0.tar/s001"])
            add([2, 2], 1, p, ms, 2, exclude=["shard_1.tar"])
            add([2, 1, 1], 1, p, ms, 2, exclude=["shard_0.tar/s000", "shard_0.tar/s001"])
    # pseudo-random (seeded) runs over several epochs: larger configurations
    for counts in ([7, 4], [5, 0, 6], [1, 1, 1, 1, 9], [12], [3, 3, 3, 3]) if q else ([7, 4], [5, 0, 6], [1, 1, 1, 1, 9], [12], [3, 3, 3, 3], [20, 11, 5], [17], [2] * 9):
        for so in (1, 2, 3):
            for p in (1, 2, 3, None):
                for ms in (None, 1, 3):
                    for layout in ((1, 0), (1, 2), (2, 3), (3, 1)):
                        add(counts, so, p, ms, 4, layout, kind="windows")
        for layout in ((1, 0), (1, 1), (1, 3), (2, 0), (2, 2), (3, 1)):
            add(counts, 1, 1, None, 3, layout, kind="val")
            add(counts, 1, 1, None, 3, layout, exclude=["shard_0.tar/s000"], kind="val")
    return out


def slices_of(counts, ids, layout, ms, rank, worker, exclude):
    """[[ids of a slice in order], ...] of one worker (the slicing itself is C05's subject)."""
    from lib.run import wconf
    from megatron.energon.epathlib import EPath
    from megatron.energon.flavors.webdataset.sharder import Sharder
    from megatron.energon.flavors.webdataset.structs import ShardInfo

    shards = [
        (ShardInfo(name=f"shard_{i}.tar", path=EPath("/x"), offset=0, count=c),)
        for i, c in enumerate(counts)
        if f"shard_{i}.tar" not in exclude and c
    ]
    wk = Sharder.shard_workers(shards, wconf(rank, *layout), max_samples_per_sequence=ms)[worker]
    out = []
    for sub in wk:
        s = sub[0]
        k = int(s.name[6:-4])
        out.append(
            tuple(x for x in ids[k][s.offset : s.offset + s.count] if f"{s.name}/{x}" not in exclude)
        )
    return out


def ref_orders(slices, so, p, n):
    """Explicit-state reference: all id sequences of length n.  A state is (slices not opened yet,
    open slots); `so` copies of every slice are opened in any order, at most p are open, each slot
    delivers its slice in order.  Returns (set of sequences, states, transitions)."""
    st = dict(states=0, trans=0)
    empty_ok = [s for s in slices if s]
    if not empty_ok:
        return {()}, 1, 0

    @lru_cache(None)
    def go(pool, slots, left):
        st["states"] += 1
        if left == 0:
            return frozenset([()])
        res = set()
        if so == -1:
            if len(slots) < p:
                for s in set(slices):
                    st["trans"] += 1
                    if s:
                        res |= go(pool, tuple(sorted(slots + (s,))), left)
                return frozenset(res)
        else:
            if not pool and not slots:
                return go(tuple(sorted(list(empty_ok) * so)), (), left)
            if pool and len(slots) < p:
                for s in set(pool):
                    st["trans"] += 1
                    r = list(pool)
                    r.remove(s)
                    res |= go(tuple(r), tuple(sorted(slots + (s,))), left)
                return frozenset(res)
        for s in set(slots):
            st["trans"] += 1
            r = list(slots)
            r.remove(s)
            if s[1:]:
                r.append(s[1:])
            for tail in go(pool, tuple(sorted(r)), left - 1):
                res.add((s[0],) + tail)
        return frozenset(res)

    return set(go((), (), n)), st["states"], st["trans"]


def run_case(c):
    import contextlib
    import io

    from lib.core import reset_globals
    from lib.disk import Scratch, ids_for, make_ds
    from lib.run import wconf
    from lib.script import explore
    from lib.wk import enter, global_workers
    from megatron.energon import TaskEncoder, get_train_dataset, get_val_dataset

    counts, so, p, ms, layout, ex = c["counts"], c["so"], c["p"], c["ms"], tuple(c["layout"]), c["exclude"]
    res = Res()
    ids = ids_for(counts)
    with Scratch() as d:
        make_ds(d, ids, exclude=ex)

        def build(rank, seed=0):
            reset_globals()
            wc = wconf(rank, *layout, seed_offset=seed)
            with contextlib.redirect_stdout(io.StringIO()):
                if c["kind"] == "val":
                    return wc, get_val_dataset(d, worker_config=wc, batch_size=None, task_encoder=TaskEncoder())
                return wc, get_train_dataset(
                    d, worker_config=wc, batch_size=None, shuffle_buffer_size=None, max_samples_per_sequence=ms,
                    shuffle_over_epochs_multiplier=so, parallel_shard_iters=p, task_encoder=TaskEncoder(),
                )

        built = {}

        def pull(rank, w, n, seed=0, epochs=1):
            if (rank, seed) not in built:
                built[rank, seed] = build(rank, seed)
            reset_globals()
            wc, ds = copy.deepcopy(built[rank, seed])
            enter(w, layout[1])
            try:
                out = []
                for _ in range(epochs):
                    it = iter(ds)
                    ep = []
                    while len(ep) < n:
                        wc.worker_activate(len(ep))
                        try:
                            s = next(it)
                        except StopIteration:
                            break
                        finally:
                            wc.worker_deactivate()
                        ep.append(s.text.split(":")[0])
                        assert s.__key__.endswith("/" + ep[-1]), s
                    out.append(ep)
                    del it
            finally:
                enter(0, 0)
            return out if epochs > 1 else out[0]

        for rank, w in global_workers(*layout):
            sl = slices_of(counts, ids, layout, ms, rank, w, ex)
            flat = [x for s in sl for x in s]
            if c["kind"] == "val":
                got = pull(rank, w, 1000, epochs=c["n"])
                res.evals += 1
                for e, ep in enumerate(got):
                    if ep != flat:
                        res.bad(f"val:{counts}:{layout}:{ex}:{rank}.{w}", dict(epoch=e, expected=flat, got=ep))
                        break
                res.key((rank, w, tuple(flat)))
                continue
            if not flat:
                continue
            if c["kind"] == "windows":
                T = so * len(flat)
                for seed in (0, 1):
                    got = pull(rank, w, c["n"] * T, seed)
                    res.evals += 1
                    for e in range(c["n"]):
                        if sorted(got[e * T : (e + 1) * T]) != sorted(flat * so):
                            res.bad(f"window:{c}", dict(worker=(rank, w), window=e, expected=sorted(flat * so), got=got[e * T : (e + 1) * T]))
                            break
                    res.key((rank, w, seed, tuple(got)))
                continue
            n = c["n"] if c["n"] != "epoch" else so * len(flat)
            par = p or 16
            want, states, trans = ref_orders(sl, so, par, n)
            seen = set()
            for ch, got in explore(lambda ch: pull(rank, w, n), limit=20000):
                res.evals += 1
                res.transitions += 1
                got = tuple(got)
                if got not in want:
                    res.bad(f"order:{counts}:so={so}:p={p}:ms={ms}:{layout}:{ex}", dict(worker=(rank, w), slices=sl, impossible=got, choices=ch.trace))
                    return res
                seen.add(got)
            if seen != want:
                res.bad(f"unreachable:{counts}:so={so}:p={p}:ms={ms}:{layout}:{ex}", dict(worker=(rank, w), slices=sl, missing=sorted(want - seen)[:5], n_missing=len(want - seen)))
                return res
            res.states += states
            res.transitions += trans
            res.validated += len(seen)
            for s in seen:
                res.key((rank, w, s))
            res.sample = dict(slices=sl, orders=len(seen), first=sorted(seen)[0])
    return res


if __name__ == "__main__":
    main(
        "C06",
        "model_checking",
        cases,
        run_case,
        case_timeout=200,
        rule="every sequence of random answers, executed on real tar datasets; the set of observed sample orders must equal the set of an explicit-state slot machine; states = reference states; validated = reference orders reproduced by the implementation",
    )
