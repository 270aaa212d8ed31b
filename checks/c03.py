"""C03: saving the state has no effect on the stream, and a saved state is an immutable snapshot."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import Res, main  # noqa
from lib.specs import all_specs, disk_specs  # noqa


def cases(tier):
    N = 7 if tier == "quick" else 10
    out = []
    for i, s in enumerate(all_specs() + disk_specs()):
        out.append(dict(spec=s, n=N, subsets=(1 if tier == "quick" else 0)))
    return out


def run_case(c):
    import random

    import numpy
    import torch
    from lib.run import Driver, first_diff, fresh, rd, samples_only, snap, unsnap

    spec, N = c["spec"], c["n"]
    res = Res()
    ref = fresh(spec).take(2 * N)
    rs = samples_only(ref)
    L = min(N, len(rs))
    res.evals += 1

    def rngs():
        return (torch.get_rng_state().numpy().tobytes(), repr(numpy.random.get_state()), random.getstate())

    # every subset of save positions is covered by: all singletons, all positions, all pairs
    sets = [tuple(range(L + 1))] + [(k,) for k in range(L + 1)]
    if not c["subsets"]:
        sets += list(itertools.combinations(range(L + 1), 2))
    for S in sets:
        d = fresh(spec)
        got = []
        saved = []
        for k in range(L + 1):
            if k in S:
                before = rngs()
                st = d.loader.save_state()
                st2 = d.loader.save_state()
                b = snap(st)
                if rngs() != before:
                    res.bad(f"save-moves-rng:{spec!r}:k={k}", "global random state changed by saving")
                if snap(st2) != b:
                    from lib.toy import canon

                    if canon(st) != canon(st2):
                        res.bad(f"save-twice-differs:{spec!r}:k={k}", dict(first=repr(st)[:800], second=repr(st2)[:800]))
                saved.append((k, st, b))
            if k < L:
                got += d.take(1)
        got += d.take(2 * N - L)
        res.evals += 1
        res.validated += 1
        res.transitions += len(got)
        df = first_diff(ref, got)
        if df:
            res.bad(f"save-changes-stream:{spec!r}:{S}", dict(saves=S, diff=df))
            break
        res.key((spec, S))
        if len(S) > 1 or True:
            # the snapshots did not change while the loader went on
            from lib.toy import canon

            for k, st, b in saved:
                if canon(st) != canon(unsnap(b)):
                    res.bad(f"snapshot-changed:{spec!r}:k={k}", dict(saved=repr(unsnap(b))[:800], now=repr(st)[:800]))
                    break
        if res.viol:
            break
    else:
        # restoring does not modify the state object: two loaders restored from the same object
        for k, st, b in saved_all(spec, range(0, L + 1, 2)):
            outs = []
            for _ in range(2):
                outs.append(fresh(spec, restore=st).take(N))
                res.evals += 1
            if outs[0] != outs[1]:
                res.bad(f"restore-twice-differs:{spec!r}:k={k}", first_diff(outs[0], outs[1]))
                break
            from lib.toy import canon

            if canon(st) != canon(unsnap(b)):
                res.bad(f"restore-changes-state:{spec!r}:k={k}", dict(saved=repr(unsnap(b))[:800], now=repr(st)[:800]))
                break
            # restoring into a loader that was already used
            d = fresh(spec)
            d.take(3)
            d.loader.restore_state(unsnap(b))
            d.it = None
            o = d.take(N)
            res.evals += 1
            if samples_only(o) != samples_only(outs[0]):
                res.bad(f"restore-into-used-loader:{spec!r}:k={k}", first_diff(samples_only(outs[0]), samples_only(o)))
                break
    res.states = len(sets)
    res.sample = dict(stream=[rd(x) for x in ref][:10], save_sets=len(sets))
    return res


def saved_all(spec, ks):
    from lib.run import fresh, snap

    for k in ks:
        d = fresh(spec)
        d.take(k)
        st = d.loader.save_state()
        yield k, st, snap(st)


if __name__ == "__main__":
    main(
        "C03",
        "model_checking",
        cases,
        run_case,
        case_timeout=30,
        rule="every enumerated pipeline x every single save position, the set of all positions (thorough: and all pairs) against the run without saving; states = save sets; distinct = (pipeline, save set)",
    )
