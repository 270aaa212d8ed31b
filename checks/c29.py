"""C29: a task encoder composes its stages in the documented order, for every combination of stages."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import Res, main  # noqa

ENC = ("", "plain", "skip", "gen")
EB = ("", "plain", "skip", "gen")
BS = (None, 1, 2, 3)


def cases(tier):
    out = []
    for mode in ("val", "train"):
        for cook in (0, 1):
            for enc in ENC:
                for pack in (None, 2, 3):
                    for group in (0, 1, 2):
                        out.append(dict(kind="comp", mode=mode, cook=cook, enc=enc, pack=pack, group=group, n=7 if tier == "quick" else 11))
    for mode in ("val", "train"):
        out.append(dict(kind="sizes", mode=mode, N=6 if tier == "quick" else 9))
    out.append(dict(kind="shuffle", n=4))
    out.append(dict(kind="stateless"))
    out.append(dict(kind="types"))
    out.append(dict(kind="augment"))
    out.append(dict(kind="reject"))
    return out


class Fac:
    """A dataset factory over an in-memory source (train: endless epochs are up to the stages)."""

    def __init__(self, name, n, wc, loop):
        self.name, self.n, self.wc, self.loop = name, n, wc, loop

    def __len__(self):
        return self.n

    def build(self, worker_rotation_offset=0):
        from lib.toy import Toy, split_items

        G = max(1, self.wc.num_workers) * self.wc.world_size
        items = split_items(self.n, G)
        r = worker_rotation_offset % G
        return Toy(self.name, items[-r:] + items[:-r] if r else items, self.wc, loop=self.loop)


# ---- what each stage does to a value, shared by the user functions and the reference
def f_enc(kind, v):
    if kind == "skip":
        return [] if v[-1] % 3 == 1 else [("e", v)]
    if kind == "gen":
        return [("e", k, v) for k in range(2 - (v[-1] % 2))]
    return [("e", v)]


def last(v):
    while isinstance(v, tuple):
        v = v[-1]
    return v


def f_eb(kind, v):
    if kind == "skip":
        return [] if last(v) % 3 == 2 else [("E", v)]
    if kind == "gen":
        return [("E", 0, v), ("E", 1, v)]
    return [("E", v)]


def num(v):
    """source id of a value (the innermost number)"""
    return last(v)


def mkenc(cook, enc, pack, group, eb, stateless_of=lambda name: True):
    from lib.toy import TSample
    from megatron.energon import Cooker, SkipSample, TaskEncoder
    from megatron.energon.task_encoder.base import stateless

    def S(name, f):
        return stateless(f) if stateless_of(name) else f

    def new(s, v):
        return TSample(__key__=s.__key__, __restore_key__=s.__restore_key__, __subflavor__=None, __subflavors__=None, v=v)

    ns = {}
    if cook:
        class Enc0(TaskEncoder):
            cookers = [Cooker(lambda s: s)]

        def cook_crude_sample(self, s):
            return new(s, ("c", s.__key__[0], s.v))

        ns["cook_crude_sample"] = S("cook", cook_crude_sample)
        ns["cookers"] = [Cooker(lambda s: s)]
    if enc == "gen":
        def encode_sample(self, s):
            for x in f_enc(enc, val(s)):
                yield new(s, x)
    elif enc:
        def encode_sample(self, s):
            r = f_enc(enc, val(s))
            if not r:
                raise SkipSample()
            return new(s, r[0])
    if enc:
        ns["encode_sample"] = S("encode", encode_sample)

    def val(s):
        return s.v if isinstance(s.v, tuple) else ("r", s.__key__[0], s.v)

    if pack:
        def select_samples_to_pack(self, ss):
            return [ss[i : i + 2][::-1] for i in range(0, len(ss), 2)]

        def pack_selected_samples(self, ss):
            return new(ss[0], ("p",) + tuple(val(s) for s in ss))

        ns["select_samples_to_pack"] = select_samples_to_pack
        ns["pack_selected_samples"] = S("pack", pack_selected_samples)
    if group:
        def batch_group_criterion(self, s):
            g = num(val(s)) % 2
            return g, (None if group == 1 else 1 + g)

        ns["batch_group_criterion"] = batch_group_criterion

    def batch(self, ss):
        return new(ss[0], ("b",) + tuple(val(s) for s in ss))

    def encode_batch_gen(self, b):
        for x in f_eb(eb, val(b)):
            yield new(b, x)

    def encode_batch(self, b):
        r = f_eb(eb, val(b))
        if not r:
            raise SkipSample()
        return new(b, r[0])

    ns["_batch_fn"] = S("batch", batch)
    if eb:
        ns["encode_batch"] = S("encode_batch", encode_batch_gen if eb == "gen" else encode_batch)
    return ns


def reference(raw, cook, enc, pack, group, eb, bs, drop, has_batch):
    """The documented stages over the list of raw values of one epoch of one worker."""
    from lib import ref

    xs = [("c" if cook else "r", d, i) for d, i in raw]
    if enc:
        xs = [y for x in xs for y in f_enc(enc, x)]
    if pack:
        out = []
        for b in ref.chunks(xs, pack, False):
            for p in ref.chunks(b, 2, False):
                out.append(("p",) + tuple(p[::-1]))
        xs = out
    if group:
        pos = list(range(len(xs)))
        gs, _ = ref.ref_group_batch(pos, lambda i: num(xs[i]) % 2, (lambda k: bs) if group == 1 else (lambda k: 1 + k), drop)
        xs = [("b",) + tuple(xs[i] for i in g) for g in gs]
    elif bs is not None:
        xs = [("b",) + tuple(g) for g in ref.chunks(xs, bs, drop)]
    if eb:
        xs = [y for x in xs for y in f_eb(eb, x)]
    return xs


def values(ss):
    return [s.v if isinstance(s.v, tuple) else ("r", s.__key__[0], s.v) for s in ss]


def build(mode, e, facs, wc, **kw):
    if mode == "train":
        return e.build_train_datasets(datasets=facs, worker_config=wc, **kw)
    return e.build_val_datasets(datasets=facs, worker_config=wc, **kw)


def make_encoder(c, eb, has_batch):
    from megatron.energon import TaskEncoder

    ns = mkenc(c["cook"], c["enc"], c["pack"], c["group"], eb)
    bf = ns.pop("_batch_fn")
    if has_batch:
        ns["batch"] = bf
    return type("Enc", (TaskEncoder,), ns)()


def run_case(c):
    from lib.toy import split_items
    from lib.wk import streams

    res = Res()
    if c["kind"] == "comp":
        n = c["n"]
        for eb, bs, drop, workers in itertools.product(EB, BS, (0, 1), (0, 2)):
            if bs is None and (eb or drop) and not c["group"]:
                continue
            if (c["group"] == 1 and bs is None) or (c["group"] == 2 and bs is not None):
                continue  # grouping needs exactly one source of the batch size
            has_batch = bs is not None or bool(c["group"])
            if c["mode"] == "val":
                limits = (None, 0, 1, 3, 50)
            else:
                limits = (0, 1, 4)
            for lim in limits:
                e = make_encoder(c, eb, has_batch)
                kw = dict(batch_size=bs, batch_drop_last=bool(drop), packing_buffer_size=c["pack"])
                kw["limit" if c["mode"] == "val" else "virtual_epoch_length"] = lim
                parts = [("a", n), ("b", 3)] if c["mode"] == "val" else [("a", n)]

                W = max(1, workers)
                if c["mode"] == "train" and lim and not all(
                    reference([("a", i) for i in split_items(n, W)[w]], c["cook"], c["enc"], c["pack"], c["group"], eb, bs, drop, has_batch)
                    for w in range(W)
                ):
                    continue  # a worker without any output cannot fill a virtual epoch

                def mk(wc):
                    return build(c["mode"], e, [(Fac(nm, k, wc, False), 1.0) for nm, k in parts], wc, **kw)

                eps = 2
                got = streams(mk, workers=workers, epochs=eps)
                res.evals += 1
                W = max(1, workers)
                for (r, w), g in got.items():
                    raw = [(nm, i) for nm, k in parts for i in split_items(k, W)[w]]
                    one = reference(raw, c["cook"], c["enc"], c["pack"], c["group"], eb, bs, drop, has_batch)
                    if c["mode"] == "val":
                        if lim:
                            share = lim // W + (1 if w < lim % W else 0)
                            want = [one[:share]] * eps
                        else:
                            want = [one] * eps
                    elif lim:
                        # an epoch of `lim` outputs over an inner stream repeating its epochs
                        share = lim // W + (1 if w < lim % W else 0)
                        stream = one * (eps * share + 2) if one else []
                        want = [stream[k * share : (k + 1) * share] for k in range(eps)]
                    else:
                        want = [one] * eps
                    have = [values(x) for x in g]
                    res.key((c["enc"], c["pack"], c["group"], eb, bs, drop, lim, w, tuple(map(len, want))))
                    if have != want:
                        res.bad(f"comp:{c}:{eb}:{bs}:{drop}:{workers}:{lim}", dict(worker=w, want=str(want)[:1500], got=str(have)[:1500]))
        res.sample = dict(enc=c["enc"], pack=c["pack"], group=c["group"])
    elif c["kind"] == "sizes":
        # size x batch size x limit grid for the full stack
        d = dict(cook=1, enc="gen", pack=None, group=0)
        for n in range(1, c["N"] + 1):
            for bs in range(1, 5):
                for lim in range(0, 6):
                    for drop in (0, 1):
                        for workers in (0, 2, 3):
                            if c["mode"] == "train" and n < max(1, workers):
                                continue
                            e = make_encoder(d, "plain", True)
                            kw = dict(batch_size=bs, batch_drop_last=bool(drop))
                            kw["limit" if c["mode"] == "val" else "virtual_epoch_length"] = lim
                            W = max(1, workers)
                            per = [reference([("a", i) for i in split_items(n, W)[w]], 1, "gen", None, 0, "plain", bs, drop, True) for w in range(W)]
                            if c["mode"] == "train" and lim and not all(per):
                                continue
                            got = streams(lambda wc: build(c["mode"], e, [(Fac("a", n, wc, False), 1.0)], wc, **kw), workers=workers, epochs=3)
                            res.evals += 1
                            for (r, w), g in got.items():
                                one = per[w]
                                if not lim:
                                    want = [one] * 3
                                else:
                                    share = lim // W + (1 if w < lim % W else 0)
                                    if c["mode"] == "val":
                                        want = [one[:share]] * 3
                                    else:
                                        st = one * (3 * share + 1)
                                        want = [st[k * share : (k + 1) * share] for k in range(3)]
                                have = [values(x) for x in g]
                                res.key((n, bs, lim, drop, w, workers))
                                if have != want:
                                    res.bad(f"sizes:{c['mode']}:{n}:{bs}:{lim}:{drop}:{workers}", dict(worker=w, want=str(want)[:1500], got=str(have)[:1500]))
        res.sample = dict(N=c["N"])
    elif c["kind"] == "shuffle":
        shuffle_case(c, res)
    elif c["kind"] == "stateless":
        stateless_case(res)
    elif c["kind"] == "types":
        types_case(res)
    elif c["kind"] == "augment":
        augment_case(res)
    elif c["kind"] == "reject":
        reject_case(res)
    return res


def shuffle_case(c, res):
    """Shuffling acts on raw samples, before cooking/encoding; blended and shuffled order flows through."""
    from lib.script import explore
    from lib.wk import streams
    from megatron.energon import TaskEncoder
    from megatron.energon.task_encoder.base import stateless
    from lib.toy import TSample
    import dataclasses

    n = c["n"]
    for size in (None, 0, 1, 2, 3):
        orders = set()

        def run(script):
            seen = []

            class E(TaskEncoder):
                @stateless
                def encode_sample(self, s):
                    seen.append(s.v)
                    for k in range(2):
                        yield dataclasses.replace(s, v=("e", k, s.v))

                @stateless
                def batch(self, ss):
                    return dataclasses.replace(ss[0], v=("b",) + tuple(s.v for s in ss))

            e = E()
            g = streams(lambda wc: build("train", e, [(Fac("a", n, wc, False), 1.0)], wc, batch_size=3, shuffle_buffer_size=size))[(0, 0)][0]
            return seen, [s.v for s in g]

        for script, (seen, have) in explore(run):
            res.evals += 1
            flat = [("e", k, i) for i in seen for k in range(2)]
            want = [("b",) + tuple(flat[i : i + 3]) for i in range(0, len(flat), 3)]
            orders.add(tuple(seen))
            if sorted(seen) != list(range(n)) or have != want:
                res.bad(f"shuffle:{size}:{script}", dict(seen=seen, want=want, got=have))
        # exactly the orders of a window of `size`
        def perms(pre, buf, rest):
            while rest and len(buf) < (size or 1):
                buf, rest = buf + rest[:1], rest[1:]
            if not buf:
                yield tuple(pre)
            for i in range(len(buf)):
                yield from perms(pre + [buf[i]], buf[:i] + buf[i + 1 :], rest)

        want = set(perms([], [], list(range(n))))
        res.key((size, len(orders)))
        if orders != want:
            res.bad(f"shuffle-orders:{size}", dict(missing=sorted(want - orders)[:5], extra=sorted(orders - want)[:5]))
    res.sample = dict(n=n)


STAGES = ("cook", "encode", "pack", "batch", "encode_batch")


def stateless_case(res):
    """Restoring by key is offered iff every used stage is marked stateless; and refused otherwise."""
    from lib.core import reset_globals
    from lib.run import wconf
    from megatron.energon import TaskEncoder
    from megatron.energon.savable_loader import SavableDataLoader

    for present in itertools.product((0, 1), repeat=5):
        for flags in itertools.product((0, 1), repeat=5):
            if any(f and not p for f, p in zip(flags, present)):
                continue
            non = {s for s, p, f in zip(STAGES, present, flags) if p and f}
            on = {s for s, p in zip(STAGES, present) if p}
            for group in (0, 1):
                if group and "batch" not in on:
                    continue
                ns = mkenc("cook" in on, "plain" if "encode" in on else "", 2 if "pack" in on else None, group, "plain" if "encode_batch" in on else "", lambda s: s not in non)
                bf = ns.pop("_batch_fn")
                if "batch" in on:
                    ns["batch"] = bf
                elif "encode_batch" in on:
                    continue  # needs batches
                e = type("Enc", (TaskEncoder,), ns)()
                for mode in ("train", "val"):
                    reset_globals()
                    wc = wconf()
                    ds = build(mode, e, [(Fac("a", 5, wc, False), 1.0)], wc, batch_size=2 if "batch" in on else None, packing_buffer_size=2 if "pack" in on else None)
                    want = not non
                    got = ds.can_restore_sample()
                    res.evals += 1
                    res.key((tuple(sorted(on)), tuple(sorted(non)), mode, group))
                    sig = f"{mode}:{group}:{sorted(on)}:{sorted(non)}"
                    if got != want:
                        res.bad(f"can-restore:{sig}", dict(want=want, got=got))
                    ld = SavableDataLoader(ds)
                    ss = list(ld)
                    if want != ld.can_restore_sample():
                        res.bad(f"loader-can-restore:{sig}", {})
                    if want:
                        for s in ss:
                            r = ld.restore_sample(s.__restore_key__)
                            if r.v != s.v or r.__restore_key__ != s.__restore_key__:
                                res.bad(f"restored:{sig}", dict(want=s.v, got=r.v))
                    else:
                        try:
                            k = ss[0].__restore_key__
                            r = ld.restore_sample(k)
                            res.bad(f"restore-not-refused:{sig}", dict(key=str(k), got=str(r)[:300]))
                        except Exception:
                            pass
    res.sample = dict(stages=STAGES)


def types_case(res):
    """DefaultTaskEncoder's mapping to the requested types keeps every field by name."""
    import dataclasses
    from collections import namedtuple

    import torch
    from megatron.energon import DefaultTaskEncoder
    from lib.toy import TSample, canon

    D = dataclasses.make_dataclass("D", [("x", object), ("t", object)])
    D2 = dataclasses.make_dataclass("D2", [("t", object), ("x", object)])
    NT = namedtuple("NT", "x t")
    NT2 = namedtuple("NT2", "t x")

    def make(T, f):
        return dict(f) if T is dict else T(**f)

    def fields(o):
        if isinstance(o, dict):
            return dict(o)
        if dataclasses.is_dataclass(o):
            return {f.name: getattr(o, f.name) for f in dataclasses.fields(o)}
        return o._asdict()

    types = (D, D2, NT, NT2, dict)
    for I in types:
        for E in (None,) + types:
            for R in (None,) + types:
                for B in (None,) + types:
                    enc = DefaultTaskEncoder(encoded_sample_type=E, raw_batch_type=R, batch_type=B)
                    for n in (1, 2, 3):
                        raw = [dict(x=f"x{i}", t=torch.arange(i + 1) + 10 * i) for i in range(n)]
                        es = [enc.encode_sample(make(I, f)) for f in raw]
                        rb = enc.batch(es)
                        fb = enc.encode_batch(rb)
                        res.evals += 1
                        wt = torch.zeros((n, n), dtype=torch.int64)
                        for i in range(n):
                            wt[i, : i + 1] = torch.arange(i + 1) + 10 * i
                        want = dict(x=[f["x"] for f in raw], t=wt)
                        tE, tR = E or I, R or E or I
                        tB = B or tR
                        sig = f"{I.__name__}:{E and E.__name__}:{R and R.__name__}:{B and B.__name__}:{n}"
                        res.key(sig)
                        if any(type(s) is not tE or canon(fields(s)) != canon(f) for s, f in zip(es, raw)):
                            res.bad(f"encoded:{sig}", str(es)[:500])
                        if type(rb) is not tR or canon(fields(rb)) != canon(want):
                            res.bad(f"batch:{sig}", str(rb)[:500])
                        if type(fb) is not tB or canon(fields(fb)) != canon(want):
                            res.bad(f"encoded-batch:{sig}", str(fb)[:500])

    # full pipeline with samples (all of them dataclasses or dicts: a NamedTuple cannot carry keys)
    from lib.core import reset_globals
    from lib.run import wconf
    from megatron.energon.savable_loader import SavableDataLoader
    from lib.toy import mk

    names = [f.name for f in dataclasses.fields(TSample)]
    P = dataclasses.make_dataclass("P", [(n, object) for n in names[::-1]])
    for E in (None, TSample, P, dict):
        for R in (None, P, dict):
            for B in (None, P, dict):
                for mode in ("train", "val"):
                    reset_globals()
                    wc = wconf()
                    ds = build(mode, DefaultTaskEncoder(encoded_sample_type=E, raw_batch_type=R, batch_type=B), [(Fac("a", 5, wc, False), 1.0)], wc, batch_size=2)
                    out = list(SavableDataLoader(ds))
                    res.evals += 1
                    tR = R or E or TSample
                    tB = B or tR
                    sig = f"{E and E.__name__}:{R and R.__name__}:{B and B.__name__}:{mode}"
                    res.key(sig)
                    have = [(fields(b)["__key__"], fields(b)["v"], fields(b)["__subflavors__"], type(b) is tB) for b in out]
                    want = [([f"a/{i}" for i in g], list(g), [{"ds": "a"}] * len(g), True) for g in ((0, 1), (2, 3), (4,))]
                    # without sample base class, dicts are collated field by field
                    if E is not None and not issubclass(E, TSample):
                        want = [(k, v, {"ds": ["a"] * len(k)}, t) for k, v, _, t in want]
                    if have != want:
                        res.bad(f"pipeline:{sig}", dict(want=str(want), got=str(have)))
    res.sample = dict(types=[t.__name__ for t in types])


def augment_case(res):
    """An AugmentTaskEncoder without overrides behaves like the encoder it wraps."""
    from lib.core import reset_globals
    from lib.run import wconf
    from megatron.energon import AugmentTaskEncoder
    from megatron.energon.savable_loader import SavableDataLoader

    combos = [(0, enc, None, 0, eb) for enc in ENC for eb in EB]
    combos += [(cook, enc, pack, group, "") for enc in ("", "plain") for cook, pack, group in ((1, None, 0), (0, 2, 0), (0, None, 1))]
    for cook, enc, pack, group, eb in combos:
        for mode in ("train", "val"):
            def outputs(wrap):
                reset_globals()
                e = make_encoder(dict(cook=cook, enc=enc, pack=pack, group=group), eb, True)
                if wrap:
                    e = AugmentTaskEncoder(e)
                wc = wconf()
                ds = build(mode, e, [(Fac("a", 7, wc, False), 1.0)], wc, batch_size=2, packing_buffer_size=pack)
                return values(list(SavableDataLoader(ds))), ds.can_restore_sample()

            want, wr = outputs(False)
            try:
                have, hr = outputs(True)
            except Exception as ex:
                have, hr = f"{type(ex).__name__}: {ex}", wr
            res.evals += 1
            res.key((cook, enc, pack, group, eb, mode))
            lost = "cook" if cook else "pack" if pack else "group" if group else "generator" if "gen" in (enc, eb) else f"enc={enc}:eb={eb}:{mode}"
            if have != want:
                # one signature per feature of the wrapped encoder which is not honoured
                res.bad(f"augment:{lost}", dict(case=[cook, enc, pack, group, eb, mode], want=str(want)[:400], got=str(have)[:400]))
            if hr != wr:
                res.bad("augment:stateless", dict(case=[cook, enc, pack, group, eb, mode], want=wr, got=hr))
    res.sample = dict(features=["cook", "encode", "pack", "group", "batch", "encode_batch"])


def reject_case(res):
    """Contradicting settings are refused instead of silently ignoring a stage."""
    from lib.core import reset_globals
    from lib.run import wconf

    for mode in ("train", "val"):
        for has_batch, eb, bs, pack, sel in itertools.product((0, 1), ("", "plain"), (None, 2), (None, 2), (0, 1, 2, 3)):
            from megatron.energon import TaskEncoder

            ns = mkenc(0, "", 2, 0, eb)
            bf = ns.pop("_batch_fn")
            if has_batch:
                ns["batch"] = bf
            if not sel & 1:
                ns.pop("select_samples_to_pack")
            if not sel & 2:
                ns.pop("pack_selected_samples")
            e = type("Enc", (TaskEncoder,), ns)()
            bad = (bs is None and (has_batch or eb)) or (pack and sel != 3)
            reset_globals()
            wc = wconf()
            try:
                build(mode, e, [(Fac("a", 7, wc, False), 1.0)], wc, batch_size=bs, packing_buffer_size=pack)
                got = False
            except Exception:
                got = True
            res.evals += 1
            res.key((mode, has_batch, eb, bs, pack, sel))
            if bool(bad) != got:
                res.bad(f"reject:{mode}:{has_batch}:{eb}:{bs}:{pack}:{sel}", dict(refused=got, expected=bool(bad)))
        try:
            build(mode, make_encoder(dict(cook=0, enc="", pack=None, group=0), "", False), [], wconf(), batch_size=None)
            res.bad(f"reject:{mode}:no-datasets", {})
        except Exception:
            pass
    res.sample = dict(kind="contradicting settings")


if __name__ == "__main__":
    main(
        "C29",
        "exploration",
        cases,
        run_case,
        rule="all combinations of cook/encode(plain,skip,generator)/pack/group/batch/drop_last/encode_batch(plain,skip,generator)/limit or virtual epoch, train and val, 0 or 2 workers; all type mappings; all stateless markings; distinct = distinct combinations",
    )
