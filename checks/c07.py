"""C07: determinism: the data order depends only on the dataset, the options, the seed offset and the
global number of workers."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import Res, main  # noqa


def sources():
    S = []
    for counts in ([7], [4, 3], [2, 0, 5, 3]):
        for so in (1, 2, -1):
            for p in (1, 2, None):
                for ms in (None, 2):
                    S.append(["disk", counts, dict(so=so, p=p, ms=ms)])
        S.append(["disk", counts, dict(val=1)])
    S.append(["disk", [7, 4], dict(blend=[5, 3], p=2, ms=2)])
    S.append(["disk", [7, 4], dict(blend=[2, 1])])
    S.append(["disk", [6, 4], dict(join=1, p=2, ms=2)])
    S.append(["toy", "a", 13, "ls"])
    S.append(["blend", [["toy", "a", 13, "ls"], 2.0], [["toy", "b", 7, "ls"], 1.0]])
    S.append(["blend", [["toy", "a", 2, "ls"], 2.0], [["toy", "b", 7, "ls"], 1.0]])
    return S


def stages(x):
    out = [x, ["shuffle", x, 3], ["batch", x, 2, "bat"], ["batch", ["shuffle", x, 4], 2, "bat"],
           ["pack", ["shuffle", x, 3], 3, "pre_var", "bat"], ["gbatch", ["shuffle", x, 3], 2, "grp2", "bat", 0],
           ["map", ["shuffle", x, 2], "gen2"]]
    return out


def cases(tier):
    out = []
    ws = (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 6)
    for src in sources():
        st = stages(src)
        val = "val" in repr(src)
        for i, s in enumerate(st):
            if val and i not in (0, 2):
                continue
            if tier == "quick" and src[0] == "disk" and i not in (0, 3) and not src[2].get("blend") and (src[2].get("p") != 2):
                continue
            for W in ws:
                out.append(dict(kind="layouts", spec=s, W=W, n=9 if tier == "quick" else 16))
            out.append(dict(kind="repeat", spec=s, n=12))
    out.append(dict(kind="seeds"))
    return out


def run_case(c):
    import random

    import numpy
    import torch
    from lib.core import reset_globals
    from lib.run import fresh, rd, wconf
    from lib.toy import build
    from lib.wk import enter, pull, streams

    res = Res()

    def strip(s):
        return (s.__key__, repr(s.v))

    if c["kind"] == "seeds":
        seen = {}
        for off in (*range(16), 100, 101, 110, 111, 1000):
            for rank in range(16):
                for nw in (0, 1, 2, 4):
                    for w in range(max(1, nw)):
                        reset_globals()
                        wc = wconf(rank, 16, nw, seed_offset=off)
                        enter(w, nw)
                        g = rank * max(1, nw) + w
                        s = wc.worker_seed()
                        enter(0, 0)
                        if nw and wc.worker_seed(override_local_worker_id=w) != s:
                            res.bad(f"seed-override:{rank}:{nw}:{w}", "differs from the worker's own seed")
                        res.evals += 1
                        old = seen.setdefault((off, g), s)
                        if old != s:
                            res.bad(f"seed:{off}:{g}", dict(layout=(rank, nw, w), seed=s, other=old))
                        res.key((off, g, s))
        if len(set(seen.values())) != len(seen):
            res.bad("seeds-collide", "different workers / offsets share a seed")
        # the seed offset changes the order
        for so in (1, -1):
            spec = ["disk", [9, 8], dict(so=so, p=2, ms=1)]
            orders = set()
            for off in range(4):
                reset_globals()
                wc = wconf(seed_offset=off)
                orders.add(tuple(strip(s) for s in pull(build(spec, wc), wc, 17)))
            if len(orders) < 4:
                res.bad(f"seed-offset-ignored:{so}", f"{len(orders)} different orders for 4 seed offsets")
        return res

    spec, n = c["spec"], c["n"]
    if c["kind"] == "layouts":
        W = c["W"]
        layouts = [(r, w) for r in range(1, W + 1) for w in range(0, W + 1) if r * max(1, w) == W]
        ref = None
        for lay in layouts:
            st = streams(lambda wc: build(spec, wc), world=lay[0], workers=lay[1], max_samples=n)
            res.evals += W
            # by global worker
            st = [[strip(s) for s in e[0]] for _, e in sorted(st.items())]
            if ref is None:
                ref, lay0 = st, lay
                for s in st:
                    res.key((spec, tuple(s)))
            elif st != ref:
                res.bad(f"layout:{spec!r}:{W}", dict(layout_a=lay0, layout_b=lay, a=repr(ref)[:700], b=repr(st)[:700]))
                return res
            # global batches of micro batch size 1, 2 as consumed by a training loop: each rank takes
            # (accumulation steps) micro batches, round robin over its workers
            if all(len(s) == n for s in st):
                r, w = lay[0], max(1, lay[1])
                for acc in (1, 2):  # accumulation steps on the layout with one rank per worker
                    k = acc * W // r  # samples of one rank per global batch
                    gbs = []
                    for b in range(n // acc):
                        gb = []
                        for rank in range(r):
                            for i in range(b * k, (b + 1) * k):
                                gb.append(st[rank * w + i % w][i // w])
                        gbs.append(sorted(gb))
                    want = [sorted(x for s in ref for x in s[b * acc : (b + 1) * acc]) for b in range(n // acc)]
                    if gbs != want:
                        res.bad(f"global-batch:{spec!r}:{W}:{lay}", dict(a=repr(want)[:500], b=repr(gbs)[:500]))
                        return res
        res.states = len(layouts)
        res.validated = len(layouts)
        res.sample = dict(layouts=layouts, first=repr(ref[0][:3]))
        return res

    # repeat: the same loader built again; with another state of the global generators; with user code
    # drawing from them between samples; with logging enabled
    ref = fresh(spec).take(n)
    res.evals += 1

    def variant(name, wc=None, before=lambda: None, between=lambda: None):
        reset_globals()
        before()
        from lib.run import Driver
        from megatron.energon.savable_loader import SavableDataLoader

        d = Driver(SavableDataLoader(build(spec, wc or wconf())))
        got = []
        for _ in range(n):
            got += d.take(1)
            between()
            if d.idle >= 3:
                break
        res.evals += 1
        res.key((spec, name))
        if got[: len(ref)] != ref[: len(got)]:
            from lib.run import first_diff

            res.bad(f"{name}:{spec!r}", first_diff(ref, got))

    def seed(k):
        torch.manual_seed(k), numpy.random.seed(k), random.seed(k)

    variant("same")
    variant("global-seed", before=lambda: seed(99))
    variant("global-draws", between=lambda: (torch.rand(3), numpy.random.rand(2), random.random()))
    from lib.disk import Scratch

    with Scratch() as d:
        for lvl in (1, 2, 3):
            variant(f"log-level-{lvl}", wc=wconf(worker_debug_path=d + "/w{worker_id}-" + str(lvl) + ".log", worker_log_level=lvl))
    res.states = 6
    return res


if __name__ == "__main__":
    main(
        "C07",
        "exploration",
        cases,
        run_case,
        case_timeout=120,
        rule="every enumerated training/validation pipeline x every factorization world x workers of the global worker count (incl. no worker processes) x accumulation steps; and repeated builds under perturbed global generators and all log levels; distinct = distinct streams",
    )
