"""C26: map / filter / iterator-map keep stream order and account for every input exactly once."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import Res, main  # noqa


def cases(tier):
    out = []
    N = 4 if tier == "quick" else 5
    for n in range(0, N + 1):
        out.append(dict(kind="map", n=n, gen=0))
        out.append(dict(kind="map", n=n, gen=1))
        out.append(dict(kind="filter", n=n + 3))
        out.append(dict(kind="itermap", n=n))
    for gen in (0, 1):
        out.append(dict(kind="mapmap", n=3, gen=gen))
    out.append(dict(kind="encoder", n=3))
    return out


def run_case(c):
    from lib import ref
    from lib.toy import Toy, split_items
    from lib.wk import streams
    from megatron.energon.wrappers import FilterDataset, IterMapDataset, MapDataset
    from megatron.energon.worker import WorkerConfig

    res = Res()
    n = c["n"]
    ids = list(range(n))
    if c["kind"] == "map":
        alphabet = ref.GEN if c["gen"] else ref.PLAIN
        for beh in itertools.product(alphabet, repeat=n):
            bm = dict(enumerate(beh))
            for workers in (0, 2) if n else (0,):
                items = split_items(n, max(1, workers))
                u = ref.User(bm)
                idxs = []

                def fn(s):
                    idxs.append(WorkerConfig.active_worker_config.active_worker_sample_index)
                    return u.plain(s)

                def gfn(s):
                    idxs.append(WorkerConfig.active_worker_config.active_worker_sample_index)
                    yield from u.gen(s)

                got = streams(
                    lambda wc: MapDataset(Toy("a", items, wc), gfn if c["gen"] else fn, error_handler=u.handler, stateless_map_fn=True, worker_config=wc),
                    workers=workers, epochs=2,
                )
                res.evals += 1
                if len(set(idxs)) != len(idxs):
                    res.bad(f"sample-index-reused:{c}:{beh}:{workers}", dict(indices=idxs))
                allerr = []
                for (r, w), eps in got.items():
                    outs, errs, _ = ref.ref_groups([[i] for i in items[w]], bm)
                    allerr += errs * 2
                    if [ref.norm(e) for e in eps] != [outs, outs]:
                        res.bad(f"map:{c}:{''.join(beh)}:{workers}", dict(want=outs, got=[ref.norm(e) for e in eps]))
                if u.errors != allerr:
                    res.bad(f"map-errors:{c}:{''.join(beh)}:{workers}", dict(want=allerr, got=u.errors))
            res.key((c["gen"], beh))
        res.sample = dict(vectors=len(alphabet) ** n)
    elif c["kind"] == "filter":
        for keep in itertools.product((0, 1), repeat=n):
            got = streams(lambda wc: FilterDataset(Toy("a", [ids], wc), filter_fn=lambda s: bool(keep[s.v]), worker_config=wc), epochs=2)[(0, 0)]
            want = [i for i in ids if keep[i]]
            res.evals += 1
            res.key(keep)
            if [[s.v for s in e] for e in got] != [want, want]:
                res.bad(f"filter:{keep}", dict(want=want, got=[[s.v for s in e] for e in got]))
            if any(s.__key__ != f"a/{s.v}" or s.__restore_key__ != ("Toy", "a", s.v) for e in got for s in e):
                res.bad(f"filter-changed:{keep}", str(got)[:500])
        res.sample = dict(vectors=2**n)
    elif c["kind"] == "itermap":
        # per input: 0..2 outputs, or an error before/after one output; lookahead of 1 via pairs
        for beh in itertools.product("012xy", repeat=n):
            calls, errs = [], []

            def it_fn(it):
                for s in it:
                    b = beh[s.v]
                    if b == "x":
                        raise ref.Boom("x")
                    if b == "y":
                        yield ref.out_sample([s.v], 0, "i")
                        raise ref.Boom("y")
                    for k in range(int(b)):
                        yield ref.out_sample([s.v], k, "i")

            def handler(e, s):
                errs.append((type(e).__name__, s.v))

            got = streams(lambda wc: IterMapDataset(Toy("a", [ids], wc), it_fn, error_handler=handler, stateless_iter_fn=True, worker_config=wc), epochs=2)[(0, 0)]
            want = [((i,), k) for i in ids for k in range(1 if beh[i] == "y" else 0 if beh[i] == "x" else int(beh[i]))]
            werr = [("Boom", i) for i in ids if beh[i] in "xy"] * 2
            res.evals += 1
            res.key(beh)
            if [ref.norm(e) for e in got] != [want, want]:
                res.bad(f"itermap:{''.join(beh)}", dict(want=want, got=[ref.norm(e) for e in got]))
            if errs != werr:
                res.bad(f"itermap-errors:{''.join(beh)}", dict(want=werr, got=errs))
        res.sample = dict(vectors=5**n)
    elif c["kind"] == "mapmap":
        alphabet = "02G" if c["gen"] else "ose"
        for b1 in itertools.product(alphabet, repeat=n):
            for b2 in itertools.product("ose", repeat=n):
                u1, u2 = ref.User(dict(enumerate(b1)), "t1"), ref.User({(i,): b for i, b in enumerate(b2)}, "t2")
                got = streams(
                    lambda wc: MapDataset(
                        MapDataset(Toy("a", [ids], wc), u1.gen if c["gen"] else u1.plain, error_handler=u1.handler, stateless_map_fn=True, worker_config=wc),
                        u2.plain, error_handler=u2.handler, stateless_map_fn=True, worker_config=wc,
                    )
                )[(0, 0)][0]
                o1, _, _ = ref.ref_groups([[i] for i in ids], dict(enumerate(b1)))
                want = [x[0][0] for x in o1 if b2[x[0][0]] == "o"]
                res.evals += 1
                res.key((b1, b2))
                if [s.v[1][0][0] for s in got] != want:
                    res.bad(f"mapmap:{b1}:{b2}", dict(want=want, got=[s.v for s in got]))
        res.sample = dict(n=n)
    else:
        from megatron.energon import DefaultTaskEncoder, SkipSample, stateless

        for beh in itertools.product("os012", repeat=n):
            for genf in (0, 1):
                if (genf and ("s" in beh or "o" in beh)) or (not genf and set(beh) & set("012")):
                    continue
                u = ref.User(dict(enumerate(beh)))

                class EncP(DefaultTaskEncoder):
                    @stateless
                    def encode_sample(self, s):
                        return u.plain(s)

                class EncG(DefaultTaskEncoder):
                    @stateless
                    def encode_sample(self, s):
                        yield from u.gen(s)

                enc = (EncG if genf else EncP)()
                got = streams(lambda wc: enc.build_encode_sample(Toy("a", [ids], wc), worker_config=wc), epochs=2)[(0, 0)]
                outs, _, _ = ref.ref_groups([[i] for i in ids], dict(enumerate(beh)))
                res.evals += 1
                res.key(("enc", beh))
                if [ref.norm(e) for e in got] != [outs, outs]:
                    res.bad(f"encode:{beh}", dict(want=outs, got=[ref.norm(e) for e in got]))
        res.sample = dict(n=n)
    return res


if __name__ == "__main__":
    main(
        "C26",
        "exploration",
        cases,
        run_case,
        rule="all outcome vectors (ok/skip/error, generator of 0..2 outputs, failing generators) over streams of up to N samples; distinct = distinct outcome vectors",
    )
