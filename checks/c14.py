"""C14: failing user code: skip, ordinary errors and system errors are contained as documented."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import Res, main  # noqa

ORD = ["ValueError", "KeyError", "IndexError", "TypeError", "AttributeError", "AssertionError", "RuntimeError", "OSError", "FileNotFoundError", "ZeroDivisionError", "EOFError", "UnicodeDecodeError", "NotImplementedError", "Custom", "SampleException"]
SYS = ["SystemError", "SyntaxError", "ImportError", "ModuleNotFoundError", "StopIteration", "StopAsyncIteration", "MemoryError", "RecursionError", "ReferenceError", "NameError", "UnboundLocalError", "FatalSampleError"]
STAGES = ["map", "mapgen", "batch", "batchgen", "group_key", "group_batch", "pre_pack", "final_pack", "final_pack_gen", "itermap"]


def cases(tier):
    N = 4 if tier == "quick" else 6
    out = []
    for st in STAGES:
        out.append(dict(kind="types", stage=st, n=4))
        out.append(dict(kind="multi", stage=st, n=N))
    for outer in ("map", "batch", "group_batch", "pre_pack"):
        for inner in STAGES:
            out.append(dict(kind="nested", stage=inner, outer=outer, n=4))
    out.append(dict(kind="default", n=4))
    return out


def make_exc(name):
    from megatron.energon.errors import FatalSampleError, SampleException

    class Custom(Exception):
        pass

    if name == "UnicodeDecodeError":
        return UnicodeDecodeError("utf8", b"x", 0, 1, "bad")
    if name == "Custom":
        return Custom("x")
    if name == "FatalSampleError":
        return FatalSampleError("x")
    if name == "SampleException":
        return SampleException("x")
    import builtins

    return getattr(builtins, name)("x")


def build(stage, src, wc, trig, handler, sub=None):
    """`trig(id)` is called once per user call with the id that decides (the first of the group)."""
    from lib import ref
    from megatron.energon.wrappers import BatchDataset, GroupBatchDataset, IterMapDataset, MapDataset, PackingDataset

    def idof(s):
        v = s.v
        while isinstance(v, (list, tuple)):
            v = v[1][0]
        return v

    def lst(ss, tag="b"):
        return ref.out_sample([idof(s) for s in ss], 0, tag)

    kw = dict(worker_config=wc)
    if stage == "map":
        def fn(s):
            trig(idof(s))
            return s
        return MapDataset(src, fn, error_handler=handler, stateless_map_fn=True, **kw)
    if stage == "mapgen":
        def fn(s):
            trig(idof(s))
            yield s
        return MapDataset(src, fn, error_handler=handler, stateless_map_fn=True, **kw)
    if stage == "batch":
        def fn(ss):
            trig(idof(ss[0]))
            return lst(ss)
        return BatchDataset(src, 1, fn, batcher_stateless=True, error_handler=handler, **kw)
    if stage == "batchgen":
        def fn(ss):
            trig(idof(ss[0]))
            yield lst(ss)
        return BatchDataset(src, 1, fn, batcher_stateless=True, error_handler=handler, **kw)
    if stage in ("group_key", "group_batch"):
        def key(s):
            if stage == "group_key":
                trig(idof(s))
            return 0, None
        def fn(ss):
            if stage == "group_batch":
                trig(idof(ss[0]))
            return lst(ss)
        return GroupBatchDataset(src, 1, key, fn, batcher_stateless=True, error_handler=handler, **kw)
    if stage in ("pre_pack", "final_pack", "final_pack_gen"):
        def pre(ss):
            if stage == "pre_pack":
                trig(idof(ss[0]))
            return [[s] for s in ss]
        def fin(ss):
            if stage == "final_pack":
                trig(idof(ss[0]))
            return lst(ss)
        def fing(ss):
            trig(idof(ss[0]))
            yield lst(ss)
        return PackingDataset(src, 1, pre, fing if stage == "final_pack_gen" else fin, final_packer_stateless=True, error_handler=handler, **kw)
    if stage == "itermap":
        def it(itr):
            for s in itr:
                trig(idof(s))
                yield s
        return IterMapDataset(src, it, error_handler=handler, stateless_iter_fn=True, **kw)
    raise ValueError(stage)


def run_case(c):
    from lib import ref
    from lib.run import wconf
    from lib.core import reset_globals
    from lib.toy import Toy
    from lib.wk import pull
    from megatron.energon.errors import FatalSampleError
    from megatron.energon.wrappers import SkipSample

    res = Res()
    n = c["n"]
    ids = list(range(n))

    def idof(x):
        if isinstance(x, (list, tuple)) and x and hasattr(x[0], "v"):
            x = x[0]
        v = x.v
        while isinstance(v, (list, tuple)):
            v = v[1][0]
        return v

    def one(stage, plan, sig, outer=None):
        """plan: id -> 'skip' | exception name"""
        reset_globals()
        wc = wconf()
        errs = []

        def trig(i):
            x = plan.get(i)
            if x == "skip":
                raise SkipSample()
            if x:
                raise make_exc(x)

        def handler(e, s):
            errs.append((type(e).__name__, idof(s)))

        def outer_handler(e, s):
            errs.append(("OUTER", type(e).__name__))

        ds = build(stage, Toy("a", [ids], wc), wc, trig, handler)
        if outer:
            ds = build(outer, ds, wc, lambda i: None, outer_handler)
        out, fatal = [], None
        it = iter(ds)
        k = 0
        while k < 50:
            wc.worker_activate(k)
            try:
                out.append(idof(next(it)))
            except StopIteration:
                break
            except BaseException as e:
                fatal = e
                break
            finally:
                try:
                    wc.worker_deactivate()
                except AssertionError:
                    if fatal is None:
                        res.bad(f"sample-index-stack:{sig}", "stack not balanced")
                    reset_globals()
            k += 1
        want, werr, wfatal = [], [], False
        for i in ids:
            x = plan.get(i)
            if x in SYS:
                wfatal = True
                break
            if x is None:
                want.append(i)
            elif x != "skip":
                werr.append((x, i))
        res.evals += 1
        res.key((stage, outer, sorted(plan.items())))
        if out != want:
            res.bad(f"outputs:{sig}", dict(plan=plan, want=want, got=out, fatal=repr(fatal)))
        if errs != werr:
            res.bad(f"handler-calls:{sig}", dict(plan=plan, want=werr, got=errs))
        if wfatal and not isinstance(fatal, FatalSampleError):
            res.bad(f"not-fatal:{sig}", dict(plan=plan, got=repr(fatal)))
        if not wfatal and fatal is not None:
            res.bad(f"aborted:{sig}", dict(plan=plan, got=repr(fatal)))

    def ok(stage, x):
        # inside a python generator StopIteration becomes a RuntimeError, and SkipSample has no
        # meaning for the iterator map function
        if x == "StopIteration" and ("gen" in stage or stage == "itermap"):
            return False
        return not (x == "skip" and stage == "itermap")

    if c["kind"] == "types":
        for x in ["skip"] + ORD + SYS:
            if not ok(c["stage"], x):
                continue
            for i in ids:
                one(c["stage"], {i: x}, f"{c['stage']}:{x}:{i}")
    elif c["kind"] == "multi":
        for v in itertools.product((None, "skip", "ValueError", "NameError"), repeat=n):
            if any(x and not ok(c["stage"], x) for x in v):
                continue
            one(c["stage"], {i: x for i, x in enumerate(v) if x}, f"{c['stage']}:{v}")
    elif c["kind"] == "nested":
        for v in itertools.product((None, "skip", "KeyError", "ImportError"), repeat=2):
            if any(x and not ok(c["stage"], x) for x in v):
                continue
            one(c["stage"], {i + 1: x for i, x in enumerate(v) if x}, f"{c['outer']}({c['stage']}):{v}", outer=c["outer"])
    else:
        # the default handlers of the task encoder stages: errors are logged, iteration continues
        from megatron.energon import DefaultTaskEncoder, stateless
        from lib.facade import factory

        for stage in ("encode_sample", "batch", "encode_batch", "select", "pack"):
            for x in ("skip", "ValueError", "NameError"):
                for i in ids:
                    def trig(j):
                        if j == i:
                            raise SkipSample() if x == "skip" else make_exc(x)

                    class Enc(DefaultTaskEncoder):
                        @stateless
                        def encode_sample(self, s):
                            if stage == "encode_sample":
                                trig(s.v)
                            return s

                        @stateless
                        def batch(self, ss):
                            if stage == "batch":
                                trig(idof(ss[0]))
                            return ref.out_sample([idof(s) for s in ss], 0, "b")

                        @stateless
                        def encode_batch(self, b):
                            if stage == "encode_batch":
                                trig(idof(b))
                            return b

                        def select_samples_to_pack(self, ss):
                            if stage == "select":
                                trig(idof(ss[0]))
                            return [[s] for s in ss]

                        @stateless
                        def pack_selected_samples(self, ss):
                            if stage == "pack":
                                trig(idof(ss[0]))
                            return ss[0]

                    for val in (0, 1):
                        reset_globals()
                        wc = wconf()
                        enc = Enc()
                        a = dict(datasets=[(factory(Toy("a", [ids], wc)), 1.0)], worker_config=wc, batch_size=1, packing_buffer_size=1)
                        ds = enc.build_val_datasets(**a) if val else enc.build_train_datasets(**a)
                        fatal, out = None, []
                        it = iter(ds)
                        while True:
                            wc.worker_activate(0)
                            try:
                                out.append(idof(next(it)))
                            except StopIteration:
                                break
                            except FatalSampleError as e:
                                fatal = e
                                break
                            finally:
                                try:
                                    wc.worker_deactivate()
                                except AssertionError:
                                    reset_globals()
                        want = [j for j in ids if j != i] if x != "NameError" else ids[:i]
                        res.evals += 1
                        res.key((stage, x, i, val))
                        if out != want or (fatal is None) != (x != "NameError"):
                            res.bad(f"default:{stage}:{x}:{i}:{val}", dict(want=want, got=out, fatal=repr(fatal)))
    res.sample = dict(stage=c.get("stage"), evals=res.evals)
    return res


if __name__ == "__main__":
    main(
        "C14",
        "fault_enumeration",
        cases,
        run_case,
        rule="every exception class of the list x every user callback x every position, and all vectors of outcomes {ok, skip, error, fatal} up to N positions, plus every pair of nested stages; distinct = distinct (stage, plan)",
    )
