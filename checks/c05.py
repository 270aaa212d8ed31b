"""C05: sharding: every sample belongs to exactly one worker, balanced, independent of rank layout."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import Res, main  # noqa

LAYOUTS = [(r, w) for r in (1, 2, 3, 4, 6) for w in (0, 1, 2, 3, 4, 6) if r * max(1, w) <= 12]


def cases(tier):
    out = []
    q = tier == "quick"
    M = 4 if q else 6
    counts = [c for n in (1, 2, 3) for c in itertools.product(range(0, M + 1), repeat=n) if sum(c)]
    counts += [c for c in itertools.product((0, 1, 3), repeat=4) if sum(c)]
    for i in range(0, len(counts), 8):
        out.append(dict(kind="pure", counts=counts[i : i + 8]))
    for c in ((7, 11), (20,), (1, 30, 2), (0, 17, 0), (25, 25, 25, 25), (13, 1, 1, 1, 13)):
        out.append(dict(kind="pure", counts=[c]))
    disk = [(3,), (5, 2), (0, 4), (4, 0), (2, 0, 3), (1, 1, 1, 1), (7, 1), (1, 7), (2, 2, 2)] + ([] if q else counts[::7])
    for c in disk:
        for g in ((1, 0), (1, 1), (1, 2), (2, 0), (2, 2), (1, 3), (3, 1), (1, 4), (2, 3), (6, 1), (8, 1)):
            out.append(dict(kind="disk", counts=c, layout=g))
    for a in itertools.product(range(1, 5), repeat=3):
        out.append(dict(kind="blend", sizes=a))
    for a in itertools.product(range(1, 6), repeat=2):
        out.append(dict(kind="blend", sizes=a))
    return out


def run_case(c):
    from lib.disk import Scratch, ids_for, make_ds
    from lib.run import wconf
    from lib.wk import streams
    from megatron.energon.epathlib import EPath
    from megatron.energon.flavors.webdataset.sharder import Sharder
    from megatron.energon.flavors.webdataset.structs import ShardInfo

    res = Res()
    if c["kind"] == "pure":
        for counts in c["counts"]:
            n = sum(counts)
            allsamples = [(f"s{i}", k) for i, x in enumerate(counts) for k in range(x)]
            by_global = {}
            for r, w in LAYOUTS:
                G = r * max(1, w)
                for ms in (None, 1, 2, 3, 5):
                    for rot in sorted({0, 1, G - 1, G // 2}) if ms in (None, 2) else (0,):
                        workers = []
                        for rank in range(r):
                            for cols in (1, 2) if rank == 0 else (1,):
                                shards = [
                                    tuple(ShardInfo(name=f"{p}{i}", path=EPath(f"/nowhere/{p}{i}"), offset=0, count=x) for p in "st"[:cols])
                                    for i, x in enumerate(counts)
                                ]
                                out = Sharder.shard_workers(shards, wconf(rank, r, w), max_samples_per_sequence=ms, rotation_offset=rot)
                                if any((s.offset, s.count) != (sub[0].offset, sub[0].count) or s.name[1:] != sub[0].name[1:] for wk in out for sub in wk for s in sub):
                                    res.bad(f"columns:{counts}:{r}x{w}", "joined columns sliced differently")
                            if len(out) != max(1, w):
                                res.bad(f"workers:{counts}:{r}x{w}", len(out))
                            workers += [[(s[0].name, s[0].offset, s[0].count) for s in wk] for wk in out]
                        res.evals += 1
                        flat = [(nm, o + k) for wk in workers for nm, o, cnt in wk for k in range(cnt)]
                        sig = f"{counts}:{r}x{w}:ms={ms}:rot={rot}"
                        if flat != allsamples:
                            res.bad(f"partition:{sig}", dict(want=len(allsamples), got=len(flat), workers=workers))
                        sizes = [sum(cnt for _, _, cnt in wk) for wk in workers]
                        if max(sizes) - min(sizes) > 1:
                            res.bad(f"balance:{sig}", sizes)
                        if ms and any(cnt > 1.5 * ms for wk in workers for _, _, cnt in wk):
                            res.bad(f"too-long-sequence:{sig}", workers)
                        if any(cnt <= 0 for wk in workers for _, _, cnt in wk):
                            res.bad(f"empty-slice:{sig}", workers)
                        k = (G, ms, rot)
                        if by_global.setdefault(k, workers) != workers:
                            res.bad(f"layout-dependent:{sig}", dict(a=by_global[k], b=workers))
                        res.key((counts, k))
        res.sample = dict(counts=c["counts"][:2])
    elif c["kind"] == "disk":
        from megatron.energon import TaskEncoder, get_train_dataset, get_val_dataset

        R, W = c["layout"]
        ids = ids_for(c["counts"])
        allids = [x for s in ids for x in s]
        with Scratch() as d:
            make_ds(d, ids)
            got = streams(lambda wc: get_val_dataset(d, worker_config=wc, batch_size=None, task_encoder=TaskEncoder()), R, W, epochs=2)
            for ep in range(2):
                flat = [s.text.split(":")[0] for k in sorted(got) for s in got[k][ep]]
                res.evals += 1
                if flat != allids:
                    res.bad(f"val:{c}:ep={ep}", dict(want=allids, got=flat))
            sizes = [len(e[0]) for e in got.values()]
            if max(sizes) - min(sizes) > 1:
                res.bad(f"val-balance:{c}", sizes)
            for ms in (None, 1, 2):
                for so in (1, 2):
                    def mk(wc):
                        ds = get_train_dataset(d, worker_config=wc, batch_size=None, shuffle_buffer_size=None, max_samples_per_sequence=ms, task_encoder=TaskEncoder(), shuffle_over_epochs_multiplier=so)
                        return ds

                    sz = {k: len(got[k][0]) for k in got}
                    tr = streams(mk, R, W, max_samples=2 * so * max(sz.values()))
                    for k, eps in tr.items():
                        mine = sorted(s.text.split(":")[0] for s in got[k][0])
                        seen = [s.text.split(":")[0] for s in eps[0]]
                        res.evals += 1
                        L = so * len(mine)
                        res.key((c["counts"], c["layout"], ms, so, k))
                        if sorted(seen[:L]) != sorted(mine * so) or sorted(seen[L : 2 * L]) != sorted(mine * so):
                            res.bad(f"train:{c}:ms={ms}:so={so}:{k}", dict(want=mine, got=seen))
        res.sample = dict(sizes=sizes)
    else:
        # several datasets: the remainders are given to different workers, the totals are balanced
        from megatron.energon import TaskEncoder, get_train_dataset
        from lib.disk import yaml_dump

        with Scratch() as d:
            for i, n in enumerate(c["sizes"]):
                make_ds(f"{d}/d{i}", ids_for([n], f"{'abc'[i]}"))
            yaml_dump({"__module__": "megatron.energon", "__class__": "MetadatasetV2", "splits": {"train": {"blend": [{"path": f"d{i}", "weight": 1} for i in range(len(c["sizes"]))]}}}, f"{d}/m.yaml")
            ref = {}
            for R, W in ((1, 0), (1, 2), (2, 1), (1, 3), (3, 0), (2, 2), (4, 1), (1, 4)):
                if sum(c["sizes"]) < R * max(1, W):
                    continue  # documented: training needs at least one sample per worker
                got = streams(
                    lambda wc: get_train_dataset(f"{d}/m.yaml", worker_config=wc, batch_size=None, shuffle_buffer_size=None, max_samples_per_sequence=None, task_encoder=TaskEncoder()),
                    R, W, max_samples=60,
                )
                own = [sorted({s.text.split(":")[0] for s in e[0]}) for _, e in sorted(got.items())]
                res.evals += 1
                res.key((c["sizes"], R, W))
                flat = sorted(x for o in own for x in o)
                if len(flat) != len(set(flat)) or len(flat) > sum(c["sizes"]):
                    res.bad(f"blend-overlap:{c}:{R}x{W}", own)
                if len(flat) < sum(c["sizes"]):
                    # random draws did not show everything within 60 samples: cannot judge
                    res.note("unseen")
                else:
                    sz = [len(o) for o in own]
                    if max(sz) - min(sz) > 1:
                        res.bad(f"blend-balance:{c}:{R}x{W}", own)
                g = R * max(1, W)
                if ref.setdefault(g, own) != own:
                    res.bad(f"blend-layout-dependent:{c}:{R}x{W}", dict(a=ref[g], b=own))
        res.sample = dict(sizes=c["sizes"], split=own)
    return res


if __name__ == "__main__":
    main(
        "C05",
        "exploration",
        cases,
        run_case,
        rule="all shard size tuples up to the bound x all rank/worker layouts x slice lengths x rotation offsets (sharding function), and the same end to end through datasets on disk; distinct = distinct (sizes, workers, slice length, rotation)",
    )
