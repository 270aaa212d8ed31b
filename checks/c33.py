"""C33: no more shards are open than announced, and all of them are closed again.

Shard layouts x parallel_shard_iters x training/validation x one or two columns: the open files of the
process are looked at after every sample, for every position at which the iteration is abandoned, the loader is
saved and restored, a key is restored or a sample fails.
"""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import Res, main  # noqa


def cases(tier):
    deep = tier == "thorough"
    M = 4 if deep else 3
    out = []
    vecs = [v for n in (1, 2, 3, 4) if deep or n < 4 for v in itertools.product(range(M), repeat=n) if sum(v)]
    vecs += [(1,) * 6, (2,) * 5, (3, 1, 2, 1, 2)] + ([(1,) * 20, (2,) * 18] if deep else [(1,) * 18])
    for v in vecs:
        for how in ("one", "join", "blend"):
            out.append(dict(vec=list(v), how=how, deep=int(deep)))
    for v in [(1, 1), (2, 1), (2, 2), (3, 2)] + ([(4, 3), (2, 3, 2)] if deep else []):
        out.append(dict(kind="errors", vec=list(v), deep=int(deep)))
    return out


def run_case(case):
    import gc

    from lib.core import reset_globals
    from lib.disk import Scratch, ids_for, make_ds, yaml_dump
    from lib.run import snap, unsnap, wconf
    from megatron.energon import TaskEncoder, get_train_dataset, get_val_dataset
    from megatron.energon.savable_loader import SavableDataLoader

    import lib.toy  # noqa (no garbage collection per sample)

    res = Res()
    vec, how = case["vec"], case.get("how", "one")

    def opened(d):
        out = []
        for fd in os.listdir("/proc/self/fd"):
            try:
                p = os.readlink(f"/proc/self/fd/{fd}")
            except OSError:
                continue
            if p.startswith(d + "/"):
                out.append(p[len(d) + 1 :])
        return sorted(out)

    def make(d):
        ids = ids_for(vec)
        names = [f"shard_{i}.tar" for i in range(len(vec))]
        cols = []
        for c in range(1 if how == "one" else 2):
            make_ds(f"{d}/c{c}", ids, names=names, splits={"train": names, "val": names}, pay=lambda s, e: b"x" * (int(s[1:]) * 700))
            cols.append(f"c{c}")
        if how == "one":
            return f"{d}/c0", 1
        if how == "join":
            sp = dict(join=[dict(path=c) for c in cols], joiner=dict(__module__="lib.joiners", __class__="JoinedText"))
        else:
            sp = dict(blend=[dict(path=c, weight=1.0) for c in cols])
        yaml_dump({"__module__": "megatron.energon", "__class__": "MetadatasetV2", "splits": {"train": sp, "val": sp}}, f"{d}/m.yaml")
        return f"{d}/m.yaml", 2

    def loader(path, training, P, mss=None, **kw):
        reset_globals()
        if P is not None:
            kw["parallel_shard_iters"] = P
        if training:
            ds = get_train_dataset(path, worker_config=wconf(), batch_size=None, shuffle_buffer_size=None, max_samples_per_sequence=mss, task_encoder=TaskEncoder(), **kw)
        else:
            ds = get_val_dataset(path, worker_config=wconf(), batch_size=None, task_encoder=TaskEncoder(), **kw)
        return SavableDataLoader(ds)

    class Watch:
        """iterates a loader and looks at the open files after every sample"""

        def __init__(self, d, limit, sig):
            self.d, self.limit, self.sig, self.most = d, limit, sig, 0

        def look(self, where):
            o = opened(self.d)
            res.states += 1
            tars = [x for x in o if x.endswith(".tar")]
            self.most = max(self.most, len(tars))
            if len(tars) > self.limit or len(tars) != len(o):
                res.bad(f"open:{self.sig}", dict(limit=self.limit, where=where, open=o))
            return o

        def closed(self, where):
            o = opened(self.d)
            if o:
                gc.collect()
                lib.toy.real_collect()
                o = opened(self.d)
            if o:
                res.bad(f"left:{self.sig}:{where}", dict(open=o, where=where))

    if case.get("kind") == "errors":
        # a sample whose parts are damaged, at every position; skipped by the handler or raised
        class Boom(Exception):
            pass

        for c, training, P, raising in itertools.product(range(sum(vec)), (0, 1), (1, 2), (0, 1)):
            for what in ("decode", "tar"):
                with Scratch() as d:
                    d = os.path.realpath(d)
                    path, k = make(d)
                    si, off = next((s, c - sum(vec[:s])) for s in range(len(vec)) if c < sum(vec[: s + 1]))
                    p = f"{path}/shard_{si}.tar"
                    data = bytearray(open(p, "rb").read())
                    import struct

                    idx = open(p + ".idx", "rb").read()
                    at = struct.unpack("<Q", idx[8 * off : 8 * off + 8])[0]
                    if what == "decode":
                        if c == 0:
                            continue
                        data[at + 512] = 0xFF
                    else:
                        data[at + 100 : at + 400] = b"\x07" * 300
                    open(p, "wb").write(data)

                    def handler(e, key):
                        if raising:
                            raise Boom(key)

                    w = Watch(d, P if training else 1, f"errors:{vec}:{c}:{training}:{P}:{raising}:{what}")
                    ld = loader(path, training, P if training else None, handler=handler)
                    it, n = iter(ld), 0
                    try:
                        for s in it:
                            w.look(f"after {n}")
                            n += 1
                            if n > 2 * sum(vec) + 2:
                                break
                        end = "end"
                    except Exception as e:
                        end = type(e).__name__
                    e = s = None
                    it = ld = None
                    w.closed(f"after {n} samples ({end})")
                    res.evals += 1
                    res.key((end, n, what, raising))
        res.sample = dict(vec=vec)
        return res

    with Scratch() as d:
        d = os.path.realpath(d)
        path, mult = make(d)
        total = sum(vec)
        modes = [(0, None)] + [(1, P) for P in ((1, 2, 3) if len(vec) < 5 else (2, 4, 7))] + [(1, None)]
        for training, P in modes:
            limit = (1 if not training else 16 if P is None else P) * mult
            N = min((total if how != "blend" else 2 * total) + 2 if not training else (2 * total + 1), 14 if not case["deep"] else 40)
            for mss in (None, 1) if training and total <= 6 else (None,):
                sig = f"{vec}:{how}:{training}:{P}:{mss}"
                keys = []
                for stop in range(N + 1):
                    w = Watch(d, limit, f"{sig}:{stop}")
                    ld = loader(path, training, P, mss)
                    w.closed("constructed")
                    it = iter(ld)
                    n = 0
                    for _ in range(stop):
                        try:
                            s = next(it)
                        except StopIteration:
                            it = None
                            w.closed(f"end of the epoch after {n}")
                            it = iter(ld)
                            continue
                        n += 1
                        w.look(f"after {n}")
                        if stop == N:
                            keys.append(s.__restore_key__)
                    res.evals += 1
                    res.transitions += stop
                    if stop and n:
                        # saving and restoring of a key do not open anything which stays open
                        before = opened(d)
                        st = ld.save_state()
                        ld.restore_sample(s.__restore_key__)
                        if opened(d) != before:
                            res.bad(f"key:{sig}:{stop}", dict(before=before, after=opened(d)))
                    res.key((how, training, P, w.most))
                    it = None
                    ld = None
                    s = None
                    w.closed(f"abandoned after {n}")
                    if stop and (stop % 2 == 0 or case["deep"]):
                        # a resumed loader is bounded in the same way
                        if n:
                            ld = loader(path, training, P, mss)
                            ld.restore_state(unsnap(snap(st)))
                            w.closed("restored")
                            it = iter(ld)
                            for m in range(min(total, 5)):
                                try:
                                    next(it)
                                except StopIteration:
                                    break
                                w.look(f"resumed after {n}, sample {m}")
                            it = ld = None
                            w.closed(f"resumed after {n}, abandoned")
                            res.evals += 1
                # keys only, no iteration
                w = Watch(d, limit, f"{sig}:keys")
                ld = loader(path, training, P, mss)
                for k in keys:
                    ld.restore_sample(k)
                    w.closed(f"restored {k}")
                    res.evals += 1
                ld = None
        res.sample = dict(keys=[repr(k) for k in keys[:3]])
    return res


if __name__ == "__main__":
    main(
        "C33",
        "model_checking",
        cases,
        run_case,
        case_timeout=200,
        rule="all shard layouts x options x every position of abandoning, saving, resuming, restoring keys and failing; states = looks at the open files of the process; distinct = distinct largest numbers of open shards",
    )
