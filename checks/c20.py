"""C20: functions marked stateless(restore_seeds=True) are isolated: their randomness depends on the
worker seed and their sample index only, and they never disturb the global generators of the caller."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import Res, main  # noqa

LIBS = [x for n in range(4) for x in itertools.combinations("tnr", n)]


def cases(tier):
    out = []
    depth = 6 if tier == "quick" else 8
    for bodyA in ("gen", "gen_err", "gen_skip", "plain"):
        for bodyB in ("gen", "plain", "err", "nest", "seeder"):
            out.append(dict(kind="inter", A=bodyA, B=bodyB, depth=depth))
    for libs in range(len(LIBS)):
        out.append(dict(kind="libs", libs=libs))
    for w in (0, 1, 2, 3):
        out.append(dict(kind="distinct", workers=w))
    for spec in range(len(pipes())):
        for w in (0, 1, 2):
            out.append(dict(kind="pipe", p=spec, workers=w))
    return out


def draw(libs="tnr"):
    import random

    import numpy
    import torch

    return tuple(
        int(torch.randint(0, 1 << 30, ())) if l == "t" else int(numpy.random.randint(1 << 30)) if l == "n" else random.randrange(1 << 30)
        for l in libs
    )


def seed_all(s):
    import random

    import numpy
    import torch

    torch.manual_seed(s)
    numpy.random.seed(s)
    random.seed(s)


def encoder():
    from megatron.energon import SkipSample, TaskEncoder
    from megatron.energon.task_encoder.base import stateless

    class E(TaskEncoder):
        @stateless(restore_seeds=True)
        def gen(self, x):
            a = draw()
            yield (x, 0, a)
            b = draw()
            yield (x, 1, b, draw())
            yield (x, 2, draw())

        @stateless(restore_seeds=True)
        def gen_err(self, x):
            yield (x, 0, draw())
            draw()
            raise ValueError("mid")

        @stateless(restore_seeds=True)
        def gen_skip(self, x):
            yield (x, 0, draw())
            draw()
            raise SkipSample()

        @stateless(restore_seeds=True)
        def plain(self, x):
            return (x, draw(), draw("tr"))

        @stateless(restore_seeds=True)
        def err(self, x):
            draw()
            raise ValueError("plain")

        @stateless(restore_seeds=True)
        def nest(self, x):
            a = draw()
            y = self.plain(x)
            g = self.gen(x)
            z = next(g)
            return (x, a, y, z, draw(), next(g), draw())

        @stateless(restore_seeds=True)
        def seeder(self, x):
            a = draw()
            seed_all(5)
            yield (x, a, draw())
            seed_all(6)
            yield (x, draw())

    return E()


def at(wc, i):
    """context: sample index i pushed, as the wrappers do around each step"""
    import contextlib

    @contextlib.contextmanager
    def cm():
        wc.worker_push_sample_index(i)
        try:
            yield
        finally:
            wc.worker_pop_sample_index()

    return cm()


class Call:
    """One call of a stateless function, advanced step by step."""

    def __init__(self, e, wc, name, idx):
        self.e, self.wc, self.name, self.idx = e, wc, name, idx
        self.it = None
        self.log = []
        self.done = False

    def step(self):
        if self.done:
            return
        with at(self.wc, self.idx):
            try:
                if self.it is None:
                    r = getattr(self.e, self.name)(self.name)
                    if not hasattr(r, "__next__"):
                        self.log.append(r)
                        self.done = True
                        return
                    self.it = r
                self.log.append(next(self.it))
            except StopIteration:
                self.log.append("stop")
                self.done = True
            except Exception as ex:
                self.log.append(type(ex).__name__)
                self.done = True

    def close(self):
        self.done = True
        if self.it is not None:
            with at(self.wc, self.idx):
                self.it.close()


def alone(name, idx, seed):
    """log of a call stepped on its own under some global state"""
    from lib.core import reset_globals
    from lib.run import wconf

    reset_globals()
    wc = wconf()
    wc.worker_activate(100)
    seed_all(seed)
    c = Call(encoder(), wc, name, idx)
    for _ in range(6):
        c.step()
    wc.worker_deactivate()
    return c.log


def pipes():
    a = ["toy", "a", 6]
    return [
        ["map", a, "aug"],
        ["map", a, "aug_gen"],
        ["map", ["map", a, "aug"], "aug"],
        ["map", ["map", a, "aug_gen"], "aug_gen"],
        ["batch", ["map", a, "aug_gen"], 3, "bat"],
        ["map", ["batch", ["map", a, "aug"], 2, "bat"], "aug"],
        ["map", ["map", a, "gen_err"], "aug_gen"],
        ["map", ["map", a, "aug_gen"], "skip_odd"],
    ]


def run_case(c):
    from lib.core import reset_globals
    from lib.run import wconf

    res = Res()
    if c["kind"] == "inter":
        # two calls with different sample indices, the caller's own draws, closing: all interleavings
        ref = {(n, i): alone(n, i, 77 + i) for n in (c["A"], c["B"]) for i in (3, 9)}
        for k, v in ref.items():
            if alone(k[0], k[1], 12345) != v:
                res.bad(f"depends-on-global-state:{k}", dict(a=str(v), b=str(alone(k[0], k[1], 12345))))
        if ref[(c["A"], 3)] == ref[(c["A"], 9)] and "err" not in c["A"]:
            res.bad(f"index-ignored:{c['A']}", str(ref)[:500])
        e = encoder()
        for ops in itertools.product("dABab", repeat=c["depth"]):
            s = "".join(ops)
            # canonical: no step after close, no close before first step, first op not a close
            if ("a" in s and ("A" not in s or s.rfind("A") > s.find("a") or s.count("a") > 1)) or (
                "b" in s and ("B" not in s or s.rfind("B") > s.find("b") or s.count("b") > 1)
            ):
                continue
            reset_globals()
            wc = wconf()
            wc.worker_activate(100)
            seed_all(99)
            A, B = Call(e, wc, c["A"], 3), Call(e, wc, c["B"], 9)
            outer = []
            for o in ops:
                if o == "d":
                    outer.append(draw())
                elif o in "AB":
                    (A if o == "A" else B).step()
                else:
                    (A if o == "a" else B).close()
            outer.append(draw())
            wc.worker_deactivate()
            seed_all(99)
            want = [draw() for _ in outer]
            res.evals += 1
            res.transitions += len(ops)
            if outer != want:
                res.bad(f"caller-disturbed:{c['A']}:{c['B']}:{s}", dict(want=want, got=outer))
            for call, nm, i in ((A, c["A"], 3), (B, c["B"], 9)):
                if call.log != ref[(nm, i)][: len(call.log)]:
                    res.bad(f"inner-disturbed:{c['A']}:{c['B']}:{s}:{nm}", dict(want=str(ref[(nm, i)]), got=str(call.log)))
            res.key(s)
        res.sample = dict(A=c["A"], B=c["B"], depth=c["depth"])
    elif c["kind"] == "libs":
        libs = "".join(LIBS[c["libs"]])
        # a function using only some generators restores all of them; previous cached gaussians too
        import random

        import numpy
        from megatron.energon import TaskEncoder
        from megatron.energon.task_encoder.base import stateless

        def g():
            return (float(numpy.random.randn()), random.gauss(0, 1), float(__import__("torch").randn(())))

        class E(TaskEncoder):
            @stateless(restore_seeds=True)
            def f(self, x):
                return draw(libs), [numpy.random.randn() if "n" in libs else 0, random.gauss(0, 1) if "r" in libs else 0]

            @stateless(restore_seeds=True)
            def gg(self, x):
                for _ in range(2):
                    yield self.f.__wrapped__(self, x) if hasattr(self.f, "__wrapped__") else draw(libs)

        for pre in range(4):
            for idx in range(3):
                reset_globals()
                wc = wconf()
                wc.worker_activate(100)
                e = E()
                seed_all(7)
                want = [g() for _ in range(pre + 3)]
                seed_all(7)
                got = [g() for _ in range(pre)]
                with at(wc, idx):
                    r1 = e.f(0)
                got.append(g())
                with at(wc, idx):
                    it = e.gg(0)
                    next(it)
                got.append(g())
                with at(wc, idx):
                    next(it)
                got.append(g())
                with at(wc, idx):
                    r2 = e.f(0)
                wc.worker_deactivate()
                res.evals += 1
                res.key((libs, pre, idx))
                if got != want:
                    res.bad(f"caller-disturbed:{libs}:{pre}", dict(want=want, got=got))
                if r1 != r2:
                    res.bad(f"not-reproducible:{libs}:{pre}", dict(a=str(r1), b=str(r2)))
        res.sample = dict(libs=libs)
    elif c["kind"] == "distinct":
        from lib.toy import build
        from lib.wk import streams

        n = 40
        W = max(1, c["workers"])
        for world in (1, 2, 3):
            seen = {}
            got = streams(lambda wc: build(["map", ["toy", "a", n * W * world], "aug"], wc), world=world, workers=c["workers"])
            res.evals += 1
            for (r, w), eps in got.items():
                for s in eps[0]:
                    (tag, idx), = s.trace
                    if tag[1] in seen:
                        res.bad(f"same-randomness:{world}:{c['workers']}", dict(a=seen[tag[1]], b=[r, w, s.v]))
                    seen[tag[1]] = [r, w, s.v]
            res.key((world, c["workers"], len(seen)))
            for k in range(3):
                if len({x[k] for x in seen}) != len(seen):
                    res.note("partial-collisions")
        res.sample = dict(workers=c["workers"])
    else:
        # pipelines: the augmentation of a sample does not depend on what runs around it
        from lib.toy import Fns, build, canon
        from lib.wk import streams

        spec = pipes()[c["p"]]
        base = None
        for noise in range(8):
            class F(Fns):
                pass

            for nm in ("ident", "gen_err", "skip_odd", "bat"):
                def wrapped(self, x, nm=nm):
                    if noise & 1:
                        draw()
                    r = getattr(Fns, nm)(self, x)
                    if noise & 2:
                        draw("tn")
                    return r

                if nm not in ("gen_err",):
                    setattr(F, nm, wrapped)

            def mk(wc):
                seed_all(noise)
                return build(spec, wc, fns=F())

            got = {k: canon(v) for k, v in streams(mk, workers=c["workers"], epochs=2).items()}
            if noise & 4:
                # interrupted by other code drawing numbers between the samples
                from lib.wk import enter

                got = {}
                for w in range(max(1, c["workers"])):
                    reset_globals()
                    wc = wconf(0, 1, c["workers"])
                    ds = build(spec, wc, fns=F())
                    enter(w, c["workers"])
                    eps, i = [], 0
                    for _ in range(2):
                        it, e = iter(ds), []
                        while True:
                            draw()
                            wc.worker_activate(i)
                            try:
                                e.append(next(it))
                            except StopIteration:
                                break
                            finally:
                                wc.worker_deactivate()
                            i += 1
                        eps.append(e)
                    got[(0, w)] = canon(eps)
                    enter(0, 0)
            res.evals += 1
            base = base or got
            if got != base:
                res.bad(f"pipe:{spec}:{c['workers']}:{noise}", {})
            res.key((c["p"], c["workers"], noise))
        res.sample = dict(spec=spec)
    return res


if __name__ == "__main__":
    main(
        "C20",
        "model_checking",
        cases,
        run_case,
        rule="all interleavings (up to the depth) of stepping/closing two calls with the caller's own draws; all subsets of generators; distinct = distinct interleavings",
    )
