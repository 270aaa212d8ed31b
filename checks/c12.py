"""C12: blending follows the weights, keeps the order within each source and restarts sources."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import Res, main  # noqa

WEIGHTS = [(1.0, 1.0), (1.0, 3.0), (0.5, 0.25), (2.0, 0.0), (1.0, 1.0, 1.0), (0.1, 0.2, 0.7), (3.0, 0.0, 5.0), (1.0,)]


def cases(tier):
    L = 5 if tier == "quick" else 7
    out = []
    for w in WEIGHTS:
        for sizes in itertools.product((0, 1, 2, 3) if len(w) < 3 else (0, 1, 3), repeat=len(w)):
            if any(s and x for s, x in zip(sizes, w)):
                out.append(dict(kind="all", w=w, sizes=sizes, L=L if len(w) < 3 else L - 1, mix=0, workers=0))
    for w in WEIGHTS[:4]:
        out.append(dict(kind="all", w=w, sizes=[3, 2, 1][: len(w)], L=4, mix=2, workers=0))
    for w in WEIGHTS[:4]:
        for sizes in ((3, 1), (1, 3), (2, 0), (1, 1)):
            out.append(dict(kind="all", w=w, sizes=sizes, L=4, mix=0, workers=2))
    for w in WEIGHTS:
        out.append(dict(kind="freq", w=w))
    return out


def run_case(c):
    from lib import ref
    from lib.core import reset_globals
    from lib.run import wconf
    from lib.script import explore
    from lib.toy import Toy, split_items
    from lib.wk import enter, pull
    from megatron.energon.wrappers import BlendDataset, MixBatchDataset

    res = Res()
    W = c["w"]
    k = len(W)
    if c["kind"] == "freq":
        # one concrete run: frequencies have to be proportional to the weights (very wide margin)
        wc = wconf()
        ds = BlendDataset(*[(Toy(f"d{i}", [[0]], wc, loop=True), w) for i, w in enumerate(W)], worker_config=wc)
        o = [int(s.__key__[1]) for s in pull(ds, wc, 1500)]
        res.evals += 1
        for i, w in enumerate(W):
            p = w / sum(W)
            f = o.count(i) / len(o)
            if abs(f - p) > 0.07 or (w == 0 and f > 0):
                res.bad(f"frequency:{c}:{i}", dict(expected=p, observed=f))
        res.key(("freq", W))
        res.sample = dict(frequencies=[o.count(i) / len(o) for i in range(k)])
        return res
    workers = c["workers"]
    G = max(1, workers)
    items = [split_items(s, G) for s in c["sizes"]]
    for w in range(G):
        mine = [it[w] for it in items]
        avail = [i for i in range(k) if mine[i]]
        if not any(W[i] > 0 for i in avail):
            continue
        probs = [W[i] / sum(W[j] for j in avail) for i in avail]

        def run(ch):
            reset_globals()
            wc = wconf(0, 1, workers)
            enter(w, workers)
            try:
                dws = [(Toy(f"d{i}", items[i], wc), x) for i, x in enumerate(W)]
                if c["mix"]:
                    ds = MixBatchDataset(*dws, batch_size=c["mix"], worker_config=wc)
                else:
                    ds = BlendDataset(*dws, worker_config=wc)
                return pull(ds, wc, c["L"])
            finally:
                enter(0, 0)

        seen = set()
        scr = 0
        for ch, out in explore(run):
            res.evals += 1
            res.validated += 1
            res.transitions += len(ch.trace)
            scr += len(ch.probs)
            if c["mix"]:
                if any(len(b) != c["mix"] for b in out):
                    res.bad(f"mix-size:{c}", str(out)[:500])
                flat = [s for b in out for s in b]
            else:
                flat = out
            src = [int(s.__key__.split("/")[0][1:]) for s in flat]
            seen.add(tuple(src))
            pos = [0] * k
            for s, i in zip(flat, src):
                if i not in avail or W[i] == 0:
                    res.bad(f"unavailable-source:{c}", dict(source=i))
                    break
                want = mine[i][pos[i] % len(mine[i])]
                pos[i] += 1
                if s.v != want:
                    res.bad(f"source-order:{c}:w={w}", dict(choices=src, source=i, want=want, got=s.v))
                    break
                if not c["mix"] and s.__restore_key__[1] != i:
                    res.bad(f"restore-key-source:{c}:w={w}", dict(choices=src, key=s.__restore_key__))
            for p in ch.probs:
                if len(p) == len(avail):
                    tot = sum(p)
                    if any(abs(x / tot - y) > 1e-5 for x, y in zip(p, probs)):
                        res.bad(f"probabilities:{c}:w={w}", dict(want=probs, got=p))
                elif len(p) == k:
                    tot = sum(p)
                    full = [W[i] if i in avail else 0 for i in range(k)]
                    if any(abs(x / tot - y / sum(full)) > 1e-5 for x, y in zip(p, full)):
                        res.bad(f"probabilities:{c}:w={w}", dict(want=full, got=p))
        n = len([i for i in avail if W[i] > 0])
        L = c["L"] * max(1, c["mix"])
        if n > 1 and scr and len(seen) != n**L:
            res.bad(f"missing-sequences:{c}:w={w}", dict(want=n**L, got=len(seen)))
        for s in seen:
            res.key((W, c["sizes"], s))
        res.states += len(seen)
    res.sample = dict(sequences=res.states)
    return res


if __name__ == "__main__":
    main(
        "C12",
        "model_checking",
        cases,
        run_case,
        rule="all source-choice sequences of length L (the random number source is a branch point) over up to three sources of 0..3 samples and several weightings; distinct = distinct (weights, sizes, sequence)",
    )
