"""C09: batching partitions the stream into consecutive batches."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import Res, main  # noqa


def cases(tier):
    N = 8 if tier == "quick" else 12
    B = 4 if tier == "quick" else 6
    out = []
    for workers in (0, 1, 2, 3):
        for bs in range(1, B + 1):
            for dl in (0, 1):
                out.append(dict(kind="shape", workers=workers, bs=bs, dl=dl, N=N))
    nb = 3 if tier == "quick" else 4
    for bs in (1, 2, 3):
        for dl in (0, 1):
            for gen in (0, 1):
                out.append(dict(kind="beh", bs=bs, dl=dl, gen=gen, batches=nb))
    for bs in (None, 1, 2, 3):
        for dl in (0, 1):
            for enc in ("none", "plain", "gen"):
                out.append(dict(kind="encoder", bs=bs, dl=dl, enc=enc, N=N))
    return out


def keeper(ss):
    from lib.toy import TSample

    return TSample(__key__="k", __restore_key__=(), __subflavor__=None, __subflavors__=None, v=ss)


def run_case(c):
    from lib import ref
    from lib.wk import streams
    from lib.toy import Toy, split_items
    from megatron.energon.wrappers import BatchDataset

    res = Res()
    if c["kind"] == "shape":
        G = max(1, c["workers"])
        for n in range(0, c["N"] + 1):
            items = split_items(n, G)
            u = ref.User({})

            def make(wc):
                return BatchDataset(Toy("a", items, wc), c["bs"], u.plain, batcher_stateless=True, drop_last=bool(c["dl"]), error_handler=u.handler, worker_config=wc)

            got = streams(make, workers=c["workers"], epochs=2)
            total = 0
            for (r, w), eps in got.items():
                want = [(tuple(x), 0) for x in ref.chunks(items[w], c["bs"], c["dl"])]
                total += len(want)
                for ep, e in enumerate(eps):
                    res.evals += 1
                    if ref.norm(e) != want:
                        res.bad(f"batches:{c}:n={n}:w={w}:ep={ep}", dict(want=want, got=ref.norm(e)))
                res.key((c["bs"], c["dl"], want))
            # a batch function may keep the list it is given
            def keep(wc):
                return BatchDataset(Toy("a", items, wc), c["bs"], keeper, batcher_stateless=True, drop_last=bool(c["dl"]), worker_config=wc)

            for (r, w), eps in streams(keep, workers=c["workers"], epochs=2).items():
                want = [list(x) for x in ref.chunks(items[w], c["bs"], c["dl"])]
                for ep, e in enumerate(eps):
                    res.evals += 1
                    if [[s.v for s in x.v] for x in e] != want:
                        res.bad(f"kept-lists:{c}:n={n}:w={w}:ep={ep}", dict(want=want, got=[[s.v for s in x.v] for x in e]))
            from lib.run import wconf

            ln = len(make(wconf(0, 1, c["workers"])))
            if ln != total:
                res.bad(f"len:{c}:n={n}", dict(len=ln, batches=total))
        res.sample = dict(last_stream=[str(x) for x in want])
        return res
    if c["kind"] == "beh":
        alphabet = ref.GEN if c["gen"] else ref.PLAIN
        nb = c["batches"]
        for tail in range(0, c["bs"]):
            n = nb * c["bs"] + tail
            ids = list(range(n))
            groups = ref.chunks(ids, c["bs"], c["dl"])
            for beh in itertools.product(alphabet, repeat=len(groups)):
                bm = {g[0]: b for g, b in zip(groups, beh)}
                u = ref.User(bm)

                def make(wc):
                    return BatchDataset(Toy("a", [ids], wc), c["bs"], u.gen if c["gen"] else u.plain, batcher_stateless=True, drop_last=bool(c["dl"]), error_handler=u.handler, worker_config=wc)

                eps = streams(make, epochs=2)[(0, 0)]
                outs, errs, _ = ref.ref_groups(groups, bm)
                res.evals += 1
                res.key((c["bs"], beh, tail))
                if [ref.norm(e) for e in eps] != [outs, outs]:
                    res.bad(f"outputs:{c}:{''.join(beh)}:tail={tail}", dict(want=outs, got=[ref.norm(e) for e in eps]))
                if u.errors != errs * 2:
                    res.bad(f"errors:{c}:{''.join(beh)}:tail={tail}", dict(want=errs * 2, got=u.errors))
        res.sample = dict(behaviours=alphabet, batches=nb)
        return res
    # through the task encoder
    from megatron.energon import DefaultTaskEncoder, SkipSample, TaskEncoder, stateless
    import dataclasses

    class Base(TaskEncoder if c["bs"] is None else DefaultTaskEncoder):
        pass

    want = None

    class EncP(DefaultTaskEncoder):
        @stateless
        def batch(self, ss):
            return ref.out_sample([s.v for s in ss], 0, "b")

        @stateless
        def encode_batch(self, b):
            if len(b.v[1]) == 1 and b.v[1][0] == 2:
                raise SkipSample()
            return dataclasses.replace(b, v=["E"] + b.v[1:])

    class EncG(DefaultTaskEncoder):
        @stateless
        def batch(self, ss):
            return ref.out_sample([s.v for s in ss], 0, "b")

        @stateless
        def encode_batch(self, b):
            for k in range(2):
                yield dataclasses.replace(b, v=["E", b.v[1], k])

    for n in range(0, c["N"] + 1):
        items = [list(range(n))]
        enc = dict(none=Base, plain=EncP, gen=EncG)[c["enc"]]()

        def make(wc):
            return enc.build_batch(Toy("a", items, wc), batch_size=c["bs"], batch_drop_last=bool(c["dl"]), worker_config=wc)

        if c["bs"] is None and c["enc"] != "none":
            try:
                streams(make)
            except AssertionError:
                res.evals += 1
                continue
            res.bad(f"no-batch-size-but-batch-fn:{c}", "accepted")
            continue
        eps = streams(make, epochs=2)[(0, 0)]
        res.evals += 1
        if c["bs"] is None:
            want = list(range(n))
            got = [[s.v for s in e] for e in eps]
        else:
            ch = ref.chunks(items[0], c["bs"], c["dl"])
            if c["enc"] == "none":
                want = [list(x) for x in ch]
                got = [[s.v.tolist() if hasattr(s.v, "tolist") else list(s.v) for s in e] for e in eps]
                for e in eps:
                    for s, x in zip(e, ch):
                        if list(s.__key__) != [f"a/{i}" for i in x]:
                            res.bad(f"keys:{c}:n={n}", dict(got=s.__key__))
            elif c["enc"] == "plain":
                want = [["E", list(x), 0] for x in ch if x != [2]]
                got = [[s.v for s in e] for e in eps]
            else:
                want = [["E", list(x), k] for x in ch for k in range(2)]
                got = [[s.v for s in e] for e in eps]
        res.key((c["bs"], c["dl"], n))
        if got != [want, want]:
            res.bad(f"encoder:{c}:n={n}", dict(want=want, got=got))
    res.sample = dict(last=str(want)[:300])
    return res


if __name__ == "__main__":
    main(
        "C09",
        "exploration",
        cases,
        run_case,
        rule="all stream lengths x batch sizes x drop_last x workers, and all per-batch outcomes (ok/skip/error/generator of 0..2 outputs/failing generator) of every batch in the stream; distinct = distinct (config, outcome vector)",
        assumptions=["the in-memory source deals samples to workers with sizes differing by at most one, as the sharder does (C05)"],
    )
