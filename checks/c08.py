"""C08: every delivered sample can be restored from its restore key, exactly and without side effects."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import Res, main  # noqa
from lib.specs import all_specs, disk_specs  # noqa


def more_specs():
    out = []
    for src in (["toy", "a", 5, ""], ["toy", "a", 5, "ls"], ["map", ["toy", "a", 5, ""], "skip_odd"], ["map", ["toy", "a", 5, ""], "gen2"]):
        one = [["map", src, "gen_first"], ["itermap", src, "it_first"], ["itermap", src, "it_pair"], ["batch", src, 2, "bat_gen_first"], ["pack", src, 3, "pre_pairs", "bat_gen_first"]]
        out += one
        for x in one:
            out += [["map", x, "gen_first"], ["batch", x, 2, "bat"], ["shuffle", x, 2], ["epochize", x, 4]]
            if "'ls'" in repr(src):
                out.append(["blend", [x, 1.0], [["toy", "b", 3, "ls"], 1.0]])
    return out


def cases(tier):
    N = 7 if tier == "quick" else 14
    return [dict(spec=s, n=N, basic=b) for s in all_specs() + more_specs() + disk_specs() for b in ((0, 1) if s[0] == "disk" or "blend" in repr(s) else (0,))]


def run_case(c):
    from lib.core import reset_globals
    from lib.run import Driver, first_diff, fresh, rd, wconf
    from lib.toy import build, canon
    from megatron.energon.savable_loader import BasicDataLoader

    spec, N = c["spec"], c["n"]
    res = Res()

    def mk():
        if not c["basic"]:
            return fresh(spec)
        reset_globals()
        return Driver(BasicDataLoader(build(spec, wconf())))

    # keep the samples themselves (the stream helper only keeps canonical values)
    d = mk()
    if "'mix'" in repr(spec) and not d.loader.can_restore_sample():
        res.note("mix-batch-not-restorable")  # documented: mixed batches do not support restoring
        return res
    if not d.loader.can_restore_sample():
        res.bad(f"not-restorable:{spec!r}", "all user functions are declared stateless, but the loader cannot restore samples")
        return res
    samples, it, idle = [], None, 0
    while len(samples) < N and idle < 3:
        if it is None:
            it = iter(d.loader)
        try:
            samples.append(next(it))
            idle = 0
        except StopIteration:
            it = None
            idle += 1
    del it
    want = [canon(s) for s in samples]
    keys = [s.__restore_key__ for s in samples]
    if len(set(map(repr, keys))) != len(keys):
        res.bad(f"keys-not-unique:{spec!r}", repr(keys)[:600])
        return res
    # (a) a fresh loader per key
    for k, (key, w) in enumerate(zip(keys, want)):
        g = canon(mk().loader.restore_sample(key))
        res.evals += 1
        if g != w:
            res.bad(f"restore:{spec!r}:{k}", dict(expected=rd(w), got=rd(g), full_expected=repr(w)[:700], full_got=repr(g)[:700]))
            return res
        res.key((spec, k))
    # (b) one loader, restoring every key (in reverse) between any two samples of its own stream
    ref = mk().take(N)
    d = mk()
    got = []
    for k in range(N):
        for key, w in reversed(list(zip(keys, want))):
            g = canon(d.loader.restore_sample(key))
            res.evals += 1
            if g != w:
                res.bad(f"restore-midstream:{spec!r}:{k}", dict(expected=repr(w)[:700], got=repr(g)[:700]))
                return res
        got += d.take(1)
        if d.idle >= 3:
            break
    if got[: len(ref)] != ref[: len(got)]:
        res.bad(f"restore-disturbs:{spec!r}", first_diff(ref, got))
    res.validated += len(keys)
    res.states += N
    res.transitions += res.evals
    res.sample = dict(key=repr(keys[:1]))
    return res


if __name__ == "__main__":
    main(
        "C08",
        "model_checking",
        cases,
        run_case,
        case_timeout=60,
        rule="every enumerated pipeline x every delivered sample: restored on a fresh loader and, all keys, between any two samples of a running loader; distinct = (pipeline, sample)",
    )
