"""Common driver of all checks: bounded exhaustive enumeration of cases over 8 forked workers,
violation / known-finding reporting, replay files and evidence.

A check module provides
    cases(tier) -> list of JSON-able case descriptors (the enumerated space)
    run_case(case) -> Res
and calls `main(...)`.  Every case executes the real code of /repo.
"""
import argparse
import hashlib
import json
import os
import signal
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", ROOT)

sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), f"verif-nopyc-{os.getpid()}")
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.path.insert(0, os.path.join(REPO, "src"))


def setup_imports():
    """Import the package under test from /repo's working tree."""
    import warnings

    warnings.filterwarnings("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    import torch

    torch.set_num_threads(1)
    # no accelerators here: seeding them only queues (slow) deferred calls with stack traces
    import torch.cuda
    import torch.mtia
    import torch.xpu

    for m in (torch.cuda, torch.cuda.random, torch.xpu, torch.xpu.random, torch.mtia):
        if hasattr(m, "_lazy_call"):
            m._lazy_call = lambda *a, **k: None
    import megatron.energon

    f = os.path.realpath(megatron.energon.__file__)
    assert f.startswith(os.path.realpath(REPO) + "/"), f


class CaseTimeout(BaseException):
    pass


class Res:
    """Result of exploring one case."""

    def __init__(self):
        self.evals = 0  # executions of the real code
        self.states = 0  # distinct states seen by an explicit-state search (per case)
        self.transitions = 0
        self.validated = 0  # model traces replayed against the implementation
        self.keys = set()  # distinct non-trivial outcomes/behaviours (hashed)
        self.viol = []  # (sig, detail)
        self.sample = None
        self.notes = {}

    def bad(self, sig, detail):
        sig = str(sig).replace(" ", "_")[:300]
        if len(self.viol) < 20 and all(s != sig for s, _ in self.viol):
            self.viol.append((sig, detail))

    def key(self, obj):
        self.keys.add(hkey(obj))

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    def pack(self):
        return dict(
            evals=self.evals,
            states=self.states,
            transitions=self.transitions,
            validated=self.validated,
            keys=list(self.keys),
            viol=self.viol,
            sample=self.sample,
            notes=self.notes,
        )


def hkey(obj):
    return hashlib.sha1(repr(obj).encode()).hexdigest()[:16]


def load_known(pid):
    findings = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                body = line[len("finding:"):].strip()
                head, _, what = body.partition("::")
                kv = dict(x.split("=", 1) for x in head.split())
                if kv["property"] == pid:
                    findings[kv["sig"]] = what.strip()
    return findings


def _child_loop(rfd, wfd, run_case, case_timeout):
    rf = os.fdopen(rfd, "r")
    wf = os.fdopen(wfd, "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)

    def onalarm(*a):
        raise CaseTimeout()

    signal.signal(signal.SIGALRM, onalarm)
    for line in rf:
        idx, case = json.loads(line)
        out = exec_case(run_case, case, case_timeout)
        wf.write(json.dumps([idx, out], default=repr) + "\n")
        wf.flush()
    os._exit(0)


def reset_globals():
    """Put every piece of process-global state of the package in its initial value."""
    import random

    import numpy
    import torch

    from megatron.energon.worker import WorkerConfig
    from megatron.energon.wrappers.base import SampleIndex

    for name in ("_sample_index_stack", "active_worker_config", "_worker_override_global_rank"):
        if hasattr(WorkerConfig, name):
            setattr(WorkerConfig, name, None)
    WorkerConfig.worker_id_offset = 0
    SampleIndex.actives = 0
    import torch.utils.data._utils.worker as tw

    tw._worker_info = None
    torch.manual_seed(4711)
    numpy.random.seed(4711)
    random.seed(4711)


def exec_case(run_case, case, case_timeout):
    t0 = time.time()
    signal.setitimer(signal.ITIMER_REAL, case_timeout)
    res = Res()
    try:
        reset_globals()
        res = run_case(case)
    except CaseTimeout:
        res.bad("case-does-not-terminate", f"no result within {case_timeout}s")
    except BaseException as e:  # noqa
        tb = traceback.format_exc()
        res.bad(f"exception:{type(e).__name__}", tb[-3000:])
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        if isinstance(e, (KeyboardInterrupt,)):
            raise
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    out = res.pack()
    out["t"] = time.time() - t0
    return out


class _Worker:
    def __init__(self, run_case, case_timeout):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(w1)
            os.close(r2)
            try:
                _child_loop(r1, w2, run_case, case_timeout)
            finally:
                os._exit(1)
        os.close(r1)
        os.close(w2)
        self.w = os.fdopen(w1, "w")
        self.rfd = r2
        self.buf = b""
        self.cur = None
        self.since = 0

    def send(self, idx, case):
        self.cur = idx
        self.since = time.time()
        self.w.write(json.dumps([idx, case]) + "\n")
        self.w.flush()

    def stop(self, kill=False):
        try:
            self.w.close()
        except Exception:
            pass
        if True:  # siblings inherited our pipe ends, so closing alone is no end-of-file
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass
        os.close(self.rfd)


def run_pool(cases, run_case, case_timeout, nproc, on_result, stop_after):
    import select

    todo = list(range(len(cases)))[::-1]
    workers = []
    done = 0
    nviol = 0
    retried = set()

    def feed(w):
        if todo:
            i = todo.pop()
            w.send(i, cases[i])
        else:
            w.cur = None

    for _ in range(min(nproc, max(1, len(cases)))):
        w = _Worker(run_case, case_timeout)
        workers.append(w)
        feed(w)
    while any(w.cur is not None for w in workers):
        rl = [w.rfd for w in workers if w.cur is not None]
        ready, _, _ = select.select(rl, [], [], 1.0)
        for i, w in enumerate(list(workers)):
            if w.cur is None:
                continue
            dead = False
            if w.rfd in ready:
                data = os.read(w.rfd, 1 << 16)
                if not data:
                    dead = True
                else:
                    w.buf += data
                    if b"\n" in w.buf:
                        line, w.buf = w.buf.split(b"\n", 1)
                        idx, out = json.loads(line)
                        done += 1
                        nviol += bool(on_result(idx, out))
                        if nviol >= stop_after:
                            todo.clear()
                        feed(w)
                        continue
            if not dead and time.time() - w.since > case_timeout * 1.5 + 5:
                dead = True
            if dead:
                idx = w.cur
                w.stop(kill=True)
                nw = _Worker(run_case, case_timeout)
                workers[i] = nw
                if idx not in retried:
                    retried.add(idx)
                    nw.send(idx, cases[idx])
                else:
                    out = Res()
                    out.bad("case-crashed-or-hung", f"case process died or hung twice: {cases[idx]!r}")
                    done += 1
                    nviol += bool(on_result(idx, dict(out.pack(), t=0)))
                    feed(nw)
    for w in workers:
        w.stop()
    return done


def main(
    pid,
    level,
    cases,
    run_case,
    rule="",
    assumptions=(),
    case_timeout=60,
    nproc=None,
    exhaustive_note="",
    extra_coverage=None,
):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--case", help="JSON case")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("-j", type=int, default=nproc or min(8, os.cpu_count() or 1))
    ap.add_argument("--slow", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if a.tier == "thorough" else "quick"
    setup_imports()
    t0 = time.time()
    import atexit
    import shutil

    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-", dir=base)
    os.environ["VERIF_SCRATCH"] = scratch
    main_pid = os.getpid()
    atexit.register(lambda: os.getpid() == main_pid and shutil.rmtree(scratch, ignore_errors=True))
    if a.replay or a.case:
        case = json.loads(a.case) if a.case else json.load(open(a.replay))["case"]
        os.environ["VERIF_DEBUG"] = "1"
        signal.signal(signal.SIGALRM, lambda *x: (_ for _ in ()).throw(CaseTimeout()))
        out = exec_case(run_case, case, case_timeout)
        print(json.dumps({k: v for k, v in out.items() if k != "keys"}, indent=1)[:8000])
        for s, d in out["viol"]:
            print("SIG", s)
            print(d if isinstance(d, str) else json.dumps(d, indent=1))
        sys.exit(1 if out["viol"] else 0)
    cs = list(cases(tier))
    if a.list:
        for c in cs:
            print(json.dumps(c))
        print(len(cs))
        return
    known = load_known(pid)
    agg = dict(evals=0, states=0, transitions=0, validated=0)
    keys = set()
    notes = {}
    samples = []
    viols = []
    seen_known = {}
    times = []

    def on_result(idx, out):
        for k in agg:
            agg[k] += out[k]
        keys.update(out["keys"])
        for k, v in out["notes"].items():
            notes[k] = notes.get(k, 0) + v
        times.append((out.get("t", 0), idx))
        if out["sample"] is not None and len(samples) < 3:
            samples.append(dict(case=cs[idx], observed=out["sample"]))
        bad = False
        for sig, detail in out["viol"]:
            if sig in known:
                seen_known.setdefault(sig, []).append(idx)
            else:
                viols.append((idx, sig, detail))
                bad = True
        return bad

    done = run_pool(cs, run_case, case_timeout, a.j, on_result, stop_after=int(os.environ.get("VERIF_STOP", "25")))
    if a.slow:
        for t, i in sorted(times, reverse=True)[:15]:
            print(f"{t:.2f}s {json.dumps(cs[i])}")
    samples.sort(key=lambda s: json.dumps(s["case"]))
    wall = time.time() - t0
    cov = dict(
        evaluations=agg["evals"],
        distinct_nontrivial=len(keys),
        rule=rule,
        samples=samples or [dict(case=cs[0] if cs else None)],
        cases=len(cs),
        cases_done=done,
        exhaustive=(done == len(cs)),
        notes=notes,
    )
    if level == "model_checking":
        cov.update(
            states=agg["states"],
            transitions=agg["transitions"],
            traces_validated_against_impl=agg["validated"],
        )
    if extra_coverage:
        cov.update(extra_coverage)
    ev = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level=level,
        coverage=cov,
        assumptions=list(assumptions),
        wall_s=round(wall, 2),
        violations=len(viols),
    )
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for sig, idxs in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={pid} {known[sig]} [sig={sig} cases={len(idxs)}]")
    if viols:
        d = os.path.join(OUT, "replays")
        os.makedirs(d, exist_ok=True)
        viols.sort(key=lambda v: v[0])
        for n, (idx, sig, detail) in enumerate(viols[:5]):
            path = os.path.join(d, f"{pid}-{n}.json")
            with open(path, "w") as f:
                json.dump(dict(property=pid, case=cs[idx], sig=sig, detail=detail), f, indent=1, default=str)
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  sig={sig} case={json.dumps(cs[idx])[:400]}")
            txt = detail if isinstance(detail, str) else json.dumps(detail, default=str)
            print("  " + txt[-1200:].replace("\n", "\n  "))
        if os.environ.get("VERIF_ALLSIGS"):
            for idx, sig, detail in viols:
                print("ALLSIG", sig)
        print(f"{pid}: {len(viols)} violation(s), {agg['evals']} executions, {wall:.1f}s")
        sys.exit(1)
    print(
        f"{pid} ok: cases={done} executions={agg['evals']} states={agg['states']} "
        f"transitions={agg['transitions']} validated={agg['validated']} distinct={len(keys)} "
        f"notes={notes} wall={wall:.1f}s"
    )
    sys.exit(0)
