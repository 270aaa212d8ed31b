"""C04: the command protocol between the main process, the workers and their command threads.

The real loader runs on the virtual multi-process machine; a deviation bounded search enumerates the
schedules: from a default schedule, every choice of (at most D) scheduling points at which another
enabled task continues instead.  Scheduling points are all queue, lock, event and thread operations;
with `lines` also every line of the saving code (for tasks of the same process).  In every schedule:
no deadlock, no error in any task, the stream is the reference, every saved state continues it, and
after dropping the loader all workers and command threads end.
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import Res, main  # noqa

T3, T2 = ["toy", "a", 3], ["toy", "a", 2]
INF = ["shuffle", ["toy", "a", 3, "ls"], 2]

SCEN = [
    # (name, spec, workers, script, deviations quick, thorough, lines, timeouts)
    ("short", T2, 1, "snsn", 3, 4, 0, 0),
    ("epoch", T2, 1, "nnsnsnn", 2, 3, 0, 0),
    ("inf", INF, 1, "ssnnsn", 2, 3, 0, 0),
    ("two", T3, 2, "snsns", 2, 2, 0, 0),
    ("two-inf", INF, 2, "nnss", 1, 2, 0, 0),
    ("lines", T3, 1, "snsnsnns", 1, 1, 1, 0),
    ("lines-pack", ["pack", ["toy", "a", 4, "ls"], 2, "pre_pairs", "bat"], 1, "snsns", 1, 1, 1, 0),
    ("lines2", T2, 1, "nsn", 1, 2, 1, 0),
    ("lines-two", T3, 2, "snsns", 1, 1, 1, 0),
    ("timeouts", T2, 1, "nsns", 2, 3, 0, 1),
    ("resumed", T3, 2, "R1nsns", 2, 2, 0, 0),
    ("fatal", "fatal", 1, "nsnsnsns", 2, 3, 0, 0),
    ("fatal-two", "fatal", 2, "nsnsns", 1, 2, 0, 0),
]
PARTS = 16


def cases(tier):
    out = []
    for n, sc in enumerate(SCEN):
        D = sc[5] if tier == "thorough" else sc[4]
        for part in range(PARTS if D > 1 or sc[6] else 2):
            out.append(dict(n=n, D=D, part=part, of=PARTS if D > 1 or sc[6] else 2))
    return out


def run_case(case):
    import gc

    import megatron.energon.savable_loader as sl

    from lib.core import reset_globals
    from lib.mp import Run, real_free
    from lib.run import first_diff, rd, snap, state_key, unsnap, wconf
    from lib.toy import build, canon, real_collect
    from lib.vmp import VM, Dev, VDeadlock

    name, spec, W, script, _, _, lines, timeouts = SCEN[case["n"]]
    res = Res()
    real_collect()
    gc.freeze()
    fatal = spec == "fatal"

    class Boom(Exception):
        pass

    def raising(e, s):
        raise e

    if fatal:
        spec = ["map", ["toy", "a", 4], "err_odd"]
    make = (lambda wc: build(spec, wc, error_handler=raising)) if fatal else (lambda wc: build(spec, wc))

    def drive(ld, script, on_save):
        """n: next sample (or epoch end, or error); s: save"""
        it, ev = None, []
        for c in script:
            if c == "s":
                on_save(len(ev), snap(ld.save_state_rank()))
                continue
            if it is None:
                it = iter(ld)
            try:
                ev.append(canon(next(it)))
            except StopIteration:
                ev.append("|")
                it = None
            except VDeadlock:
                raise
            except Exception as e:
                ev.append(("error", type(e).__name__))
        return ev

    start = None
    if script[0] == "R":
        k = int(script[1])
        script = script[2:]
        start = Run(spec, W, make=make).go(k, save_at=lambda i, kd: [0] * W if i == k else None).saved[-1][2]

    def execute(devs):
        st = Dev(devs, lines=sl.__file__ if lines else False, timeouts=timeouts)
        vm = VM(st)
        saved = []
        out = dict(ev=None, dead=None, left=None)

        def body(vm):
            reset_globals()
            ld = sl.SavableDataLoader(make(wconf(0, 1, W)), checkpoint_every_sec=0)
            if start is not None:
                ld.restore_state_rank(unsnap(start))
            out["ev"] = drive(ld, script, lambda i, b: saved.append((i, b)))
            del ld
            real_collect()
            vm.point(("end",), lambda: not any(t.alive for t in vm.tasks if t is not vm.main))

        try:
            vm.run(body)
        except VDeadlock as e:
            out["dead"] = str(e)
        finally:
            reset_globals()
        return out, saved, vm, st

    # reference: a loader that never saves
    ref = {}

    def reference():
        r = Run(spec, W, state=start, make=make)
        reset_globals()
        vm = r.vm

        def body(vm):
            ld = sl.SavableDataLoader(make(wconf(0, 1, W)), checkpoint_every_sec=0)
            if start is not None:
                ld.restore_state_rank(unsnap(start))
            return drive(ld, "n" * (script.count("n") + 4 * W + 4), None)

        ev = vm.run(body)
        reset_globals()
        return ev

    ref = reference()
    res.evals += 1
    res.sample = dict(scenario=name, stream=[rd(x) for x in ref][:8])
    cont = {}

    def continuation(b):
        k = state_key(unsnap(b))
        if k not in cont:
            r = Run(spec, W, state=b, make=make)
            vm = r.vm
            reset_globals()

            def body(vm):
                ld = sl.SavableDataLoader(make(wconf(0, 1, W)), checkpoint_every_sec=0)
                ld.restore_state_rank(unsnap(b))
                return drive(ld, "n" * (4 * W + 2), None)

            cont[k] = vm.run(body)
            reset_globals()
            res.evals += 1
        return cont[k]

    def judge(devs, out, saved, vm):
        d = dict(scenario=name, script=script, deviations=sorted(devs), events=[rd(x) for x in out["ev"] or []])
        sig = f"{name}:{sorted(devs)}"
        if out["dead"]:
            res.bad(f"deadlock:{sig}", dict(d, tasks=out["dead"]))
            return False
        if vm.errors:
            res.bad(f"error:{sig}", dict(d, errors=vm.errors[:3]))
            return False
        ev = out["ev"]
        if ev != ref[: len(ev)]:
            res.bad(f"stream:{sig}", dict(d, diff=first_diff(ref[: len(ev)], ev), want=[rd(x) for x in ref]))
            return False
        for i, b in saved:
            c = [] if b == snap(None) else continuation(b)
            want = ref[i:]
            # a finished epoch may be finished once more
            if want and want[0] == "|" and c and c[0] != "|":
                want = want[1:]
            if c and c[0] == "|" and (not want or want[0] != "|"):
                c = c[1:]
            # with several workers only the rest of the epoch (C02 covers the next ones)
            if fatal:  # up to and including the failing sample, which fails again
                m = next((n for n, x in enumerate(want) if x[0] == "error"), len(want)) + 1
                if any(x[0] == "error" for x in ref[:i]):
                    # the worker went on after the error; its failing sample is behind or ahead
                    m = 0
            elif W > 1 and "|" in want:
                m = want.index("|")
            else:
                m = len(want)
            if c[:m] != want[: min(m, len(c))]:
                res.bad(f"state:{sig}:{i}", dict(d, after=i, diff=first_diff(want[:m], c[:m]), want=[rd(x) for x in want], got=[rd(x) for x in c]))
                return False
        return True

    def explore(devs, depth):
        out, saved, vm, st = execute(devs)
        res.evals += 1
        res.transitions += vm.nsched
        res.key((out["ev"], [state_key(unsnap(b)) for _, b in saved]))
        if not judge(devs, out, saved, vm):
            return False
        if depth == 0:
            return True
        last = max([s for s, _ in devs], default=-1)
        for step in range(last + 1, len(st.alts)):
            if not devs and step % case["of"] != case["part"]:
                continue
            for k in range(st.alts[step]):
                if not explore(devs + [(step, k)], depth - 1):
                    return False
        return True

    if case["part"] == 0:  # and with real processes, scheduled by the operating system

        def loader():
            ld = sl.SavableDataLoader(make(wconf(0, 1, W)), checkpoint_every_sec=0)
            if start is not None:
                ld.restore_state_rank(unsnap(start))
            return ld

        for _ in range(2):
            saved = []
            ev = real_free(loader, lambda ld: drive(ld, script, lambda i, b: saved.append((i, b))))
            res.validated += 1
            if not judge([("real", 0)], dict(ev=ev, dead=None), saved, VM(Dev())):
                return res
    explore([], case["D"])
    res.states = len(cont)
    return res


if __name__ == "__main__":
    main(
        "C04",
        "model_checking",
        cases,
        run_case,
        rule="schedules of the real loader with at most D deviations from the default schedule, every choice of deviation points; transitions = scheduling steps, states = distinct saved states; distinct = distinct (stream, states) outcomes",
        case_timeout=800,
    )
