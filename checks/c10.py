"""C10: group batching: same-group batches, per-group order, nothing lost or duplicated."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import Res, main  # noqa


def cases(tier):
    out = []
    N = 6 if tier == "quick" else 8
    K = 2 if tier == "quick" else 3
    for n in range(0, N + 1):
        for sizes in ((1,) * K, (2,) * K, (3,) * K, tuple(range(2, 2 + K)), tuple(range(K, 0, -1))):
            for dl in (0, 1):
                for fixed in ([0, 1] if len(set(sizes)) == 1 else [0]):
                    out.append(dict(kind="groups", n=n, K=K, sizes=sizes, dl=dl, fixed=fixed))
    for n in (3, 4) if tier == "quick" else (3, 4, 5):
        for dl in (0, 1):
            for which in ("crit", "batch"):
                out.append(dict(kind="beh", n=n, dl=dl, which=which))
    out.append(dict(kind="encoder", n=N))
    for w in (1, 2, 3):
        out.append(dict(kind="workers", n=7, workers=w))
    return out


def run_case(c):
    from lib import ref
    from lib.toy import Toy, split_items
    from lib.wk import streams
    from megatron.energon.wrappers import GroupBatchDataset, SkipSample

    res = Res()

    def explore(items, crit, size_of, dl, fixed, beh=None, crit_beh=None, sig="", workers=0):
        beh, crit_beh = beh or {}, crit_beh or {}
        u = ref.User(beh)
        errors_c = []

        def key_fn(s):
            b = crit_beh.get(s.v, "o")
            if b == "s":
                raise SkipSample()
            if b == "e":
                raise ref.Boom("crit")
            k = crit(s.v)
            return k, (None if fixed else size_of(k))

        def make(wc):
            return GroupBatchDataset(
                Toy("a", items, wc), fixed, key_fn, u.plain, batcher_stateless=True, drop_last=bool(dl), error_handler=u.handler, worker_config=wc
            )

        got = streams(make, workers=workers, epochs=2)
        for (r, w), eps in got.items():
            groups, cerr = ref.ref_group_batch(items[w], crit, size_of, dl, crit_beh)
            res.evals += 1
            for ep, e in enumerate(eps):
                g = [list(x[0]) for x in ref.norm(e)]
                keep = [x for x in groups if beh.get(x[0], "o") == "o"]
                # every complete batch appears as soon as it is complete; the remaining (partial)
                # batches at the end may come in any group order
                nfull = len(ref.ref_group_batch(items[w], crit, size_of, 1, crit_beh)[0])
                full = [x for x in groups[:nfull] if x in keep]
                rest = [x for x in groups[nfull:] if x in keep]
                if g[: len(full)] != full or sorted(g[len(full):]) != sorted(rest):
                    res.bad(f"groups:{sig}:w={w}:ep={ep}", dict(want=keep, got=g))
                for b in g:
                    if len({crit(i) for i in b}) != 1:
                        res.bad(f"mixed:{sig}", dict(batch=b))
            if workers == 0:
                werr = sorted([("Boom", (i,)) for i in cerr] + [("Boom", tuple(g)) for g in groups if beh.get(g[0]) == "e"])
                if sorted(u.errors) != sorted(werr * 2):
                    res.bad(f"errors:{sig}", dict(want=werr, got=u.errors))
            res.key((items[w], [crit(i) for i in items[w]], groups, sorted(beh.items()), sorted(crit_beh.items())))

    if c["kind"] == "groups":
        n, K = c["n"], c["K"]
        for assign in itertools.product(range(K), repeat=n):
            explore([list(range(n))], lambda i: assign[i], lambda k: c["sizes"][k], c["dl"], c["sizes"][0] if c["fixed"] else None, sig=f"{c}:{assign}")
        res.sample = dict(assignments=K**n)
    elif c["kind"] == "beh":
        n = c["n"]
        for assign in itertools.product(range(2), repeat=n):
            for beh in itertools.product("ose", repeat=n):
                bm = dict(enumerate(beh))
                explore([list(range(n))], lambda i: assign[i], lambda k: 2, c["dl"], 2, **({"beh": bm} if c["which"] == "batch" else {"crit_beh": bm}), sig=f"{c}:{assign}:{''.join(beh)}")
        res.sample = dict(vectors=6**n)
    elif c["kind"] == "workers":
        for n in range(0, c["n"] + 1):
            explore(split_items(n, c["workers"]), lambda i: i % 2, lambda k: 2, 0, 2, sig=f"{c}:{n}", workers=c["workers"])
        res.sample = dict(n=c["n"])
    else:
        from megatron.energon import DefaultTaskEncoder, stateless

        class Enc(DefaultTaskEncoder):
            def batch_group_criterion(self, s):
                return (s.v % 3, None if self.fixed else 2 + s.v % 3)

            @stateless
            def batch(self, ss):
                return ref.out_sample([s.v for s in ss], 0, "b")

            @stateless
            def encode_batch(self, b):
                b.v[0] = "E"
                return b

        for n in range(0, 10):
            for fixed in (None, 1, 2, 3):
                for dl in (False, True):
                    enc = Enc()
                    enc.fixed = fixed
                    got = streams(lambda wc: enc.build_batch(Toy("a", [list(range(n))], wc), batch_size=fixed, batch_drop_last=dl, worker_config=wc), epochs=2)[(0, 0)]
                    want, _ = ref.ref_group_batch(list(range(n)), lambda i: i % 3, lambda k: fixed or 2 + k, dl)
                    res.evals += 1
                    for e in got:
                        if sorted(s.v[1] for s in e) != sorted(want) or any(s.v[0] != "E" for s in e):
                            res.bad(f"encoder:n={n}:fixed={fixed}:dl={dl}", dict(want=want, got=[s.v for s in e]))
        res.sample = dict(n=n)
    return res


if __name__ == "__main__":
    main(
        "C10",
        "exploration",
        cases,
        run_case,
        rule="all assignments of up to N samples to up to K groups x batch sizes (fixed and per group) x drop_last, all skip/error outcome vectors of the group criterion and of the batch function; distinct = distinct (assignment, batches, outcomes)",
    )
