"""C11: packing conserves samples and respects the selection."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import Res, main  # noqa


def selections(m):
    """all sequences of disjoint non-empty lists over positions 0..m-1 (order matters)"""
    out = []
    for k in range(0, m + 1):
        for perm in itertools.permutations(range(m), k):
            for cut in range(1 << max(0, k - 1)):
                packs, cur = [], []
                for i, p in enumerate(perm):
                    cur.append(p)
                    if cut >> i & 1 or i == k - 1:
                        packs.append(cur)
                        cur = []
                out.append(packs)
    # dedupe
    seen, res = set(), []
    for s in out:
        if repr(s) not in seen:
            seen.add(repr(s))
            res.append(s)
    return res


def cases(tier):
    out = []
    for n in range(0, 9 if tier == "quick" else 13):
        for buf in range(1, 5):
            for workers in (0, 1, 2):
                out.append(dict(kind="shape", n=n, buf=buf, workers=workers))
    for buf in (1, 2, 3):
        for n in range(1, 2 * buf + 1 if tier == "quick" else 3 * buf):
            out.append(dict(kind="sel", n=n, buf=buf, cap=4000 if tier == "quick" else 300000))
    for n in (3, 4, 5):
        for pre in range(3):
            for gen in (0, 1):
                out.append(dict(kind="beh", n=n, buf=3, pre=pre, gen=gen))
    for period in range(2, 10):
        out.append(dict(kind="long", period=period, windows=40))
    out.append(dict(kind="encoder"))
    return out


def run_case(c):
    from lib import ref
    from lib.toy import Toy, split_items
    from lib.wk import streams
    from megatron.energon.wrappers import PackingDataset, SkipSample

    res = Res()

    def explore(items, buf, select, beh, sel_beh, gen, sig, workers=0):
        """select(window index, m) -> selection; sel_beh: window idx -> outcome"""
        u = ref.User(beh)
        fin = u.gen if gen else u.plain

        def make(wc):
            counter = [0]
            offered = []

            def pre(samples):
                k = counter[0]
                counter[0] += 1
                offered.append([s.v for s in samples])
                b = sel_beh.get(samples[0].v, "o")
                if b == "s":
                    raise SkipSample()
                if b == "e":
                    raise ref.Boom("pre")
                return [[samples[i] for i in p] for p in select(samples[0].v // buf if workers == 0 else 0, len(samples))]

            ds = PackingDataset(Toy("a", items, wc), buf, pre, fin, final_packer_stateless=True, error_handler=u.handler, worker_config=wc)
            ds.offered = offered
            made.append(ds)
            return ds

        made = []
        got = streams(make, workers=workers, epochs=2)
        for ((r, w), eps), ds in zip(got.items(), made):
            windows = ref.chunks(items[w], buf, 0)
            outs, errs = [], []
            for k, win in enumerate(windows):
                b = sel_beh.get(win[0], "o")
                if b == "e":
                    errs.append(("Boom", tuple(win)))
                if b != "o":
                    continue
                sel = select(win[0] // buf if workers == 0 else 0, len(win))
                o, e, _ = ref.ref_groups([[win[i] for i in p] for p in sel], beh)
                outs += o
                errs += e
            res.evals += 1
            res.key((items[w], buf, outs, errs, sorted(beh.items())))
            if ds.offered != windows * 2:
                res.bad(f"offered:{sig}:w={w}", dict(want=windows, got=ds.offered))
            if [ref.norm(e) for e in eps] != [outs, outs]:
                res.bad(f"packs:{sig}:w={w}", dict(want=outs, got=[ref.norm(e) for e in eps]))
            if workers == 0 and u.errors != errs * 2:
                res.bad(f"errors:{sig}", dict(want=errs * 2, got=u.errors))

    def pairs(k, m):
        return [list(range(i, min(i + 2, m)))[::-1] for i in range(0, m, 2)]

    if c["kind"] == "shape":
        explore(split_items(c["n"], max(1, c["workers"])), c["buf"], pairs, {}, {}, 0, f"{c}", c["workers"])
        res.sample = dict(n=c["n"])
    elif c["kind"] == "sel":
        windows = ref.chunks(list(range(c["n"])), c["buf"], 0)
        opts = [selections(len(w)) for w in windows]
        count = 0
        for combo in itertools.product(*opts):
            if all(not x for x in combo) and len(windows) > 8:
                continue
            count += 1
            if count > c["cap"]:
                res.note("capped")
                break
            explore([list(range(c["n"]))], c["buf"], lambda k, m: combo[k], {}, {}, 0, f"{c}:{combo}")
        res.sample = dict(selections=count)
    elif c["kind"] == "long":
        # long streams in which only one window of each period yields packs
        for buf in (1, 2):
            for off in range(c["period"]):
                for what in ("s", "e", "none"):
                    n = c["windows"] * buf
                    quiet = [w[0] for k, w in enumerate(ref.chunks(list(range(n)), buf, 0)) if k % c["period"] != off]
                    sel_beh = {} if what == "none" else {q: what for q in quiet}
                    select = (lambda k, m: [] if k % c["period"] != off else pairs(k, m)) if what == "none" else pairs
                    explore([list(range(n))], buf, select, {}, sel_beh, 0, f"{c}:{buf}:{off}:{what}")
        res.sample = dict(windows=c["windows"])
    elif c["kind"] == "beh":
        sel = [pairs, lambda k, m: [[i] for i in range(m)], lambda k, m: [list(range(m))[::-1]]][c["pre"]]
        n = c["n"]
        firsts = [w[p[0]] for w in ref.chunks(list(range(n)), c["buf"], 0) for p in sel(0, len(w))]
        alphabet = ref.GEN if c["gen"] else ref.PLAIN
        wins = [w[0] for w in ref.chunks(list(range(n)), c["buf"], 0)]
        for sb in itertools.product("ose", repeat=len(wins)):
            for beh in itertools.product(alphabet, repeat=len(firsts)):
                bm = dict(zip(firsts, beh))
                if c["gen"]:
                    for i in range(n):
                        bm.setdefault(i, "1")
                explore([list(range(n))], c["buf"], sel, bm, dict(zip(wins, sb)), c["gen"], f"{c}:{sb}:{''.join(beh)}")
        res.sample = dict(packs=len(firsts))
    else:
        from megatron.energon import DefaultTaskEncoder, stateless

        class Enc(DefaultTaskEncoder):
            def select_samples_to_pack(self, ss):
                return [ss[i : i + 2] for i in range(0, len(ss), 2)][::-1]

            @stateless
            def pack_selected_samples(self, ss):
                return ref.out_sample([s.v for s in ss], 0, "p")

            @stateless
            def batch(self, ss):
                return ref.out_sample([tuple(s.v[1]) for s in ss], 0, "b")

        for n in range(0, 9):
            for buf in (1, 2, 3, 4):
                for bs in (1, 2, 3):
                    for dl in (0, 1):
                        enc = Enc()
                        got = streams(
                            lambda wc: enc.build_batch(Toy("a", [list(range(n))], wc), batch_size=bs, batch_drop_last=bool(dl), packing_buffer_size=buf, worker_config=wc),
                            epochs=2,
                        )[(0, 0)]
                        packs = []
                        for win in ref.chunks(list(range(n)), buf, 0):
                            packs += [win[i : i + 2] for i in range(0, len(win), 2)][::-1]
                        want = [["b", [tuple(p) for p in ch], 0] for ch in ref.chunks(packs, bs, dl)]
                        res.evals += 1
                        res.key((n, buf, bs, dl))
                        if [[s.v for s in e] for e in got] != [want, want]:
                            res.bad(f"encoder:n={n}:buf={buf}:bs={bs}:dl={dl}", dict(want=want, got=[[s.v for s in e] for e in got]))
        res.sample = dict(n=8)
    return res


if __name__ == "__main__":
    main(
        "C11",
        "exploration",
        cases,
        run_case,
        rule="all stream lengths x buffer sizes x workers; all possible selections (ordered disjoint lists) of every window of up to two windows; all outcome vectors of selection and packing functions; distinct = distinct expected outcomes",
    )
