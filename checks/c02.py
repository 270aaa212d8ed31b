"""C02: saving and resuming with worker processes.

torch's real multi-process loader (iterator, worker loop, prefetching) and the real saving code run
on a virtual multi-process machine (lib/vmp.py).  Explored: every save position of the history
(before the start, after iter(), between any two samples, after the last sample, after the end of an
epoch, in later epochs) x every vector of how far each worker ran ahead of the main process at that
moment x checkpoint clocks x early/late pickling of the queues.  Every distinct saved state is
restored into a fresh loader; its stream must continue the uninterrupted one.  Selected schedules
are replayed with real processes.
"""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import Res, main  # noqa

A5, A7, A12 = ["toy", "a", 5], ["toy", "a", 7], ["toy", "a", 12]
AL, BL = ["toy", "a", 7, "ls"], ["toy", "b", 3, "ls"]


def specs():
    S = [
        A7,
        ["toy", "a", 1],
        ["map", A12, "ident"],
        ["shuffle", AL, 3],
        ["shuffle", ["toy", "a", 7, "s"], 2],
        ["map", A7, "aug"],
        ["map", A7, "sysrng"],
        ["map", A7, "skip_odd"],
        ["map", A7, "gen_var"],
        ["map", AL, "aug_gen"],
        ["filter", A7, "keep_even"],
        ["itermap", A7, "it_skip"],
        ["batch", A7, 2, "bat"],
        ["batch", A12, 2, "bat", 1],
        ["batch", AL, 2, "bat_gen"],
        ["gbatch", A12, 2, "grp2", "bat", 0],
        ["pack", A12, 3, "pre_var", "bat"],
        ["pack", AL, 3, "pre_pairs", "bat"],
        ["epochize", AL, 3],
        ["epochize", ["batch", ["map", ["shuffle", AL, 3], "aug"], 2, "bat"], 2],
        ["limit", A12, 7, 1],
        ["repeat", A5, 2],
        ["blend", [AL, 2.0], [BL, 1.0]],
        ["concat", A5, ["toy", "b", 3]],
        ["log", A7],
        ["disk", [2, 1, 3], dict(p=2, ms=2)],
        ["disk", [3, 2], dict(val=1)],
        ["disk", [3, 2], dict(blend=[2, 1], p=2)],
        ["epochize", ["batch", ["shuffle", ["disk", [2, 1, 3], dict(p=2, ms=2)], 3], 2, "bat"], 2],
    ]
    return S


NS = {1: 14, 2: 20, 3: 24}


def lags(W, tier):
    if tier == "thorough":
        return [list(x) for x in itertools.product({1: (0, 1, 2), 2: (0, 1, 2, 9), 3: (0, 1, 2)}[W], repeat=W)] + [[9] * W]
    return [list(x) for x in itertools.product({1: (0, 1, 2), 2: (0, 2), 3: (0, 2)}[W], repeat=W)] + [[1] * W, [9] * W]


def cases(tier):
    out = []
    for s in specs():
        for W in (1, 2, 3):
            out.append(dict(spec=s, W=W, n=NS[W] * (2 if tier == "thorough" else 1), lags=lags(W, tier), clock="fast", late=False, second=1))
    short = [A7, ["shuffle", AL, 3], ["map", A7, "sysrng"], ["batch", A7, 2, "bat"], ["pack", A12, 3, "pre_var", "bat"], ["epochize", AL, 3], ["disk", [2, 1, 3], dict(p=2, ms=2)]]
    for s in short if tier == "quick" else specs():
        for W in (1, 2):
            for clock, late in (("stuck", False), ("bursts", True), ("fast", True)):
                out.append(dict(spec=s, W=W, n=NS[W], lags=lags(W, tier), clock=clock, late=late, second=0))
    # every distance and number of the checkpoints which the workers keep
    for s in short[:1] + short[3:] if tier == "quick" else short:
        for W in (1, 2) if tier == "quick" else (1, 2, 3):
            for every, keep in ((1, None), (None, 1), (1, 1), (3, 1), (1, 4), (2 * W + 3, 3)):
                for clock in ("fast",) if tier == "quick" else ("fast", "bursts"):
                    out.append(dict(spec=s, W=W, n=NS[W], lags=lags(W, tier), clock=clock, late=False, second=0, every=every, keep=keep))
    return out


def round_robin(streams, start):
    W = len(streams)
    pos = [0] * W
    out = []
    while any(pos[w] < len(streams[w]) for w in range(W)):
        for j in range(W):
            w = (start + j) % W
            if pos[w] < len(streams[w]):
                out.append(streams[w][pos[w]])
                pos[w] += 1
    return out


def run_case(case):
    from lib.mp import Run, real_run, split_epochs
    from lib.run import first_diff, hkey, rd, snap, state_key, unsnap

    from lib.specs import is_infinite

    spec, W, N = case["spec"], case["W"], case["n"]
    kw = dict(clock=case["clock"], late=case["late"])
    if case.get("every"):
        kw["checkpoint_every_min_n_samples"] = case["every"]
    if case.get("keep"):
        kw["n_checkpoints"] = case["keep"]
    res = Res()
    CONT = 2 * W + 4

    def run(n, state=None, save_at=None, max_epochs=3):
        r = Run(spec, W, state=state, **kw).go(n, save_at, max_epochs=max_epochs)
        res.evals += 1
        res.transitions += r.vm.nsched
        if r.vm.errors:
            res.bad(f"worker-error:{spec!r}:W={W}", dict(errors=r.vm.errors[:3]))
        return r

    ref = run(N + 2 * CONT, max_epochs=99)
    if not is_infinite(spec):  # up to the end of that epoch
        ref = run(10**6, max_epochs=ref.events.count("|") + 1)
    res.key(ref.events)
    res.sample = dict(stream=[rd(e) for e in ref.events][:12], workers=ref.who[:12])
    E = split_epochs(ref.events)
    WHO = split_epochs(["|" if e == "|" else w for e, w in zip(ref.events, ref.who)])
    closed = ref.events.count("|")  # epochs seen completely

    def position(i):
        """(epoch, position in it, next worker) after i events of the uninterrupted run"""
        ep = ref.events[:i].count("|")
        j = i - (0 if ep == 0 else [x for x, e in enumerate(ref.events) if e == "|"][ep - 1] + 1)
        return ep, j, ((WHO[ep][j - 1] + 1) % W if j else 0)

    def check(state, i, what):
        """the loader restored from `state` (saved after i events) continues the reference"""
        ep, j, nxt = position(i)
        r = cache.get(state[0])
        if r is None:
            r = cache[state[0]] = run(CONT, state=state[1]).events
        got = split_epochs(r)
        if len(got) > 1 and not got[0] and not E[ep][j:] and j:
            # all of the epoch was delivered: it may be finished again without samples
            e0, got = ep + 1, got[1:]
        elif not E[ep][j:] and j:
            e0, got = ep + 1, got
        else:
            e0 = ep
        for k, g in enumerate(got):
            e = e0 + k
            if e >= len(E):
                break
            w = E[e][j:] if e == ep else E[e]
            open_g, open_w = k == len(got) - 1, e >= closed

            def same(w):
                if open_g and open_w:
                    m = min(len(g), len(w))
                    return g[:m] == w[:m]
                return g == w[: len(g)] if open_g else g[: len(w)] == w if open_w else g == w

            if same(w):
                continue
            if nxt and e > ep and e < closed:
                streams = [[x for x, y in zip(E[e], WHO[e]) if y == v] for v in range(W)]
                if same(round_robin(streams, nxt)):
                    res.bad("next-epoch-starts-at-resumed-worker", dict(spec=spec, W=W, after=i, what=what, next_worker=nxt))
                    continue
            res.bad(
                f"resume:{spec!r}:W={W}:after={i}:{what}",
                dict(spec=spec, W=W, after=i, saved=what, epoch_of_resumed=k, diff=first_diff(w[: len(g)], g), want=[rd(x) for x in w][:14], got=[rd(x) for x in r][:20], clock=case["clock"], late=case["late"]),
            )
            return False
        return True

    cache = {}
    done = set()
    firsts = {}

    def key(b):
        return hkey(state_key(unsnap(b)))

    for lag in case["lags"]:
        b = run(N, save_at=lambda i, kind: lag, max_epochs=4)
        m = min(len(b.events), len(ref.events))
        if b.events[:m] != ref.events[:m]:
            res.bad(f"saving-alters-stream:{spec!r}:W={W}:lag={lag}", dict(diff=first_diff(ref.events[:m], b.events[:m]), lag=lag))
            return res
        for i, kind, st in b.saved:
            k = (key(st), i, kind)
            firsts.setdefault((i, kind), st)
            if k in done:
                continue
            done.add(k)
            if not check((k[0], st), i, dict(kind=kind, lag=lag)):
                return res
    if case["clock"] == "fast" and not case["late"] and not case.get("every") and not case.get("keep"):
        # the same schedule with real processes: equal stream, equal saved states
        for state in (None, firsts[sorted(firsts)[len(firsts) // 2]]):
            lag = [0, 1, 9][(len(repr(spec)) + (state is None)) % 3] if is_infinite(spec) else 0
            v = Run(spec, W, state=state, **kw).go(2 * W + 5, save_at=lambda i, kind: [lag] * W)
            ev, sv, exact = real_run(v)
            ok = ev == v.events and (not exact or [key(b) for b in sv] == [key(b) for _, _, b in v.saved])
            res.evals += 2
            res.validated += 1
            res.note("real replays with equal states" if exact else "real replays with equal stream only")
            if not ok:
                res.bad(f"real-processes-differ:{spec!r}:W={W}:lag={lag}:{state is None}", dict(virtual=[rd(x) for x in v.events], real=[rd(x) for x in ev], states=[key(b) for b in sv], virtual_states=[key(b) for _, _, b in v.saved]))
                return res
    if case["second"]:
        for (i, kind), st in sorted(firsts.items()):
            if i % 3 and case["second"] < 2:
                continue
            ep, j, nxt = position(i)
            left = len(E[ep]) - j
            n = min(left, 2 * W + 2)
            r = Run(spec, W, state=st, **kw)
            r.go(n, save_at=lambda q, kd: ([1] * W if "|" not in r.events else None))
            res.evals += 1
            res.transitions += r.vm.nsched
            if r.events != E[ep][j : j + len(r.events)] and "|" not in r.events:
                res.bad(f"saving-alters-resumed-stream:{spec!r}:W={W}:after={i}", dict(diff=first_diff(E[ep][j:], r.events)))
                return res
            for q, kd, st2 in r.saved:
                k = (key(st2), i + q, kd)
                if k in done:
                    continue
                done.add(k)
                if not check((k[0], st2), i + q, dict(kind=kd, resumed_after=i)):
                    return res
    res.states = len({k[0] for k in done})
    return res


if __name__ == "__main__":
    main(
        "C02",
        "model_checking",
        cases,
        run_case,
        rule="pipelines x workers x every save position x every vector of worker progress; states = distinct saved states, transitions = scheduling steps; distinct = distinct streams",
        case_timeout=120,
    )
