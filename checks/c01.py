"""C01: resuming from a saved state continues the sample stream exactly (in-process loading).

For every pipeline of the enumerated space and EVERY save point k of its history (and every second
save point after a resume), the state is saved, serialized, restored into a freshly built pipeline
and the continuation is compared with the uninterrupted run, sample by sample, field by field.
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import Res, main  # noqa
from lib.specs import all_specs, disk_specs  # noqa

def cases(tier):
    out = all_specs() + disk_specs()
    N = 12 if tier == "quick" else 26
    return [dict(spec=s, n=N, second=(2 if tier == "quick" else 0)) for s in out]


def run_case(case):
    from lib.run import boundaries, first_diff, fresh, samples_only, snap, state_key, unsnap

    spec, N = case["spec"], case["n"]
    res = Res()
    EXTRA = N
    ref = fresh(spec).take(N + EXTRA)
    rs = samples_only(ref)
    rb = boundaries(ref)
    res.evals += 1
    res.key(rs)
    L = min(N, len(rs))
    states = set()
    saved = {}

    def resumed(state_bytes, k, n):
        d = fresh(spec, restore=unsnap(state_bytes))
        ev = d.take(n)
        res.evals += 1
        res.validated += 1
        res.transitions += len(ev)
        got = samples_only(ev)
        want = rs[k : k + n]
        df = first_diff(want[: len(got)], got[: len(want)]) if len(got) >= len(want) else first_diff(want, got)
        if df is None:
            # epoch ends strictly after the first resumed sample must be where they were
            gb = [x + k for x in boundaries(ev) if x > 0 and x < len(got)]
            wb = [x for x in rb if x > k and x < k + len(got)]
            if gb != wb:
                df = dict(epoch_ends_expected=wb, epoch_ends_got=gb)
        return df

    # one saver per save point: k samples, save, serialize
    for k in range(0, L + 1):
        d = fresh(spec)
        d.take(k)
        st = snap(d.loader.save_state())
        res.evals += 1
        res.transitions += k
        saved[k] = st
        states.add(state_key(unsnap(st)))
        df = resumed(st, k, min(N, len(rs) - k))
        if df is not None:
            from lib.run import rd
            res.bad(
                f"resume:{spec!r}:k={k}",
                dict(spec=spec, save_after=k, diff=df, uninterrupted=[rd(x) for x in ref]),
            )
            break
    else:
        # save again after a resume (every pair of save points k < k2, bounded distance)
        for k in range(0, L):
            for k2 in range(k, min(L, k + (case["second"] or L)) + 1):
                d = fresh(spec, restore=unsnap(saved[k]))
                d.take(k2 - k)
                st = snap(d.loader.save_state())
                res.evals += 1
                states.add(state_key(unsnap(st)))
                df = resumed(st, k2, min(N, len(rs) - k2))
                if df is not None:
                    res.bad(f"resume2:{spec!r}:k={k}:k2={k2}", dict(spec=spec, save_after=[k, k2], diff=df))
                    break
            if res.viol:
                break
        # restoring None after any number of samples returns to the initial state
        from lib.core import reset_globals
        from lib.run import Driver, build, wconf
        from megatron.energon.savable_loader import SavableDataLoader

        for k in range(0, L + 1):
            reset_globals()
            ds = build(spec, wconf())
            d = Driver(SavableDataLoader(ds))
            d.take(k)
            d.it = d.loader = None
            reset_globals()
            ds.restore_state(None)
            got = samples_only(Driver(SavableDataLoader(ds)).take(L))
            res.evals += 1
            res.transitions += k + L
            if got != rs[:L]:
                res.bad(f"reset:{spec!r}:k={k}", dict(spec=spec, reset_after=k, diff=first_diff(rs[:L], got)))
                break
    res.states = len(states)
    from lib.run import rd
    res.sample = dict(stream=[rd(x) for x in ref][:14], save_points=L + 1)
    return res


if __name__ == "__main__":
    main(
        "C01",
        "model_checking",
        cases,
        run_case,
        rule="every pipeline of the enumerated compositions x every save point (and pairs of save points); states = distinct saved states, transitions = samples pulled; distinct = distinct sample streams",
        case_timeout=20,
        assumptions=["the in-memory source behaves like the tar based loader at epoch ends (itself covered by C06/C15)"],
    )
