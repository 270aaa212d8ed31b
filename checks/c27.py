"""C27: every crude sample is cooked by the first cooker whose conditions all hold."""
import contextlib
import io
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import Res, main  # noqa

SF = [None, "a", "b"]
HAS = [None, {}, {"x": 1}, {"x": 2}, {"x": 1, "y": 1}, {"z": None}]
COND = [None, "even", "part", "joint"]
SUBS = [{}, {"x": 1}, {"x": 2}, {"x": 1, "y": 1}, {"x": 1, "y": 2, "q": 5}, {"y": 1}, {"z": None}, {"z": 0}, {"x": "1"}]
PARTS = [("n",), ("n", "p")]


def kinds():
    return [dict(sf=a, has=b, cond=c) for a in SF for b in HAS for c in COND]


def sams():
    """(subflavor, subflavors, n, parts)"""
    return [(a, s, n, p) for a in SF for s in SUBS for n in (0, 1) for p in PARTS]


def holds(k, s):
    a, subs, n, parts = s
    if k["sf"] is not None and a != k["sf"]:
        return False
    for x, v in (k["has"] or {}).items():
        if x not in subs or subs[x] != v:
            return False
    return {None: True, "even": n == 0, "part": "p" in parts, "joint": n == 1 and a == "a"}[k["cond"]]


def cases(tier):
    ks = kinds()
    out = []
    for i in range(len(ks)):
        out.append(dict(kind="direct", first=i))
    sub = [i for i, k in enumerate(ks) if k["has"] in (None, {"x": 1}, {"x": 1, "y": 1}) and k["cond"] in (None, "even", "part") and k["sf"] in (None, "a")]
    for i in sub:
        out.append(dict(kind="triple", first=i, rest=sub))
    if tier != "quick":
        for i in range(len(ks)):
            for j in range(0, len(ks)):
                out.append(dict(kind="triple", first=i, second=j, rest=list(range(len(ks)))))
    real = [[]] + [[i] for i in range(0, len(ks))]
    pairs = [[i, j] for i in sub[::2] for j in sub[1::3]]
    for train in (0, 1):
        todo = (real if not train else real[::3]) + (pairs if not train else pairs[::4])
        for i in range(0, len(todo), 8):
            out.append(dict(kind="real", lists=todo[i : i + 8], train=train))
    out.append(dict(kind="keys"))
    out.append(dict(kind="refuse"))
    return out


def run_case(c):
    from lib.disk import Scratch, member, write_index, write_tar, yaml_dump
    from lib.toy import TSample
    from lib.wk import streams
    from megatron.energon import Cooker, CrudeSample, TaskEncoder, basic_sample_keys, get_train_dataset, get_val_dataset
    from megatron.energon.task_encoder.base import stateless

    res = Res()
    ks = kinds()
    CF = {
        None: None,
        "even": lambda s: int(s["n"]) % 2 == 0,
        "part": lambda s: "p" in s,
        "joint": lambda s: int(s["n"]) == 1 and s["__subflavor__"] == "a",
    }

    def cookers(idx):
        def cook(pos):
            @stateless
            def f(s):
                return TSample(**basic_sample_keys(s), v=(pos, str(int(s["n"])), "p" in s))

            return f

        return [
            Cooker(cook(pos), is_subflavor=ks[i]["sf"], has_subflavors=ks[i]["has"], condition=CF[ks[i]["cond"]])
            for pos, i in enumerate(idx)
        ]

    def enc(idx):
        class Enc(TaskEncoder):
            pass

        Enc.cookers = cookers(idx)
        return Enc()

    def crude(k, s):
        a, subs, n, parts = s
        return CrudeSample(__key__=f"k{k}", __restore_key__=("Webdataset", k), __subflavor__=a, __subflavors__=dict(subs), **{p: str(n) for p in parts})

    if c["kind"] in ("direct", "triple"):
        S = sams()
        if c["kind"] == "direct":
            lists = [[c["first"]]] + [[c["first"], j] for j in range(len(ks))]
        elif "second" in c:
            lists = [[c["first"], c["second"], k] for k in c["rest"]]
        else:
            lists = [[c["first"], j, k] for j in c["rest"] for k in c["rest"]]
        # every list of cookers x every sample
        H = {i: [holds(ks[i], s) for s in S] for i in {i for li in lists for i in li}}
        cr = [crude(k, s) for k, s in enumerate(S)]
        for li in lists:
            e = enc(li)
            outs = []
            for k, s in enumerate(S):
                want = next((pos for pos, i in enumerate(li) if H[i][k]), None)
                try:
                    g = e.cook_crude_sample(cr[k])
                    got = g.v[0]
                    if (g.__key__, g.__restore_key__, g.__subflavor__, g.__subflavors__) != (f"k{k}", ("Webdataset", k), s[0], s[1]):
                        res.bad(f"base-keys:{li}", str(g))
                except NotImplementedError:
                    got = None
                outs.append(got)
                if got != want:
                    res.bad(f"dispatch:{[ks[i] for i in li]}", dict(sample=s, want=want, got=got))
            res.evals += len(S)
            res.key((li, outs))
            t = TSample(__key__="t", __restore_key__=(), __subflavor__="a", __subflavors__={"x": 1}, v=1)
            if e.cook_crude_sample(t) is not t:
                res.bad(f"typed-changed:{li}", "")
        if cr != [crude(k, s) for k, s in enumerate(S)]:
            res.bad("crude-samples-modified", "")
        res.sample = dict(lists=len(lists), samples=len(S))
        return res

    def build(d):
        """a metadataset of one crude dataset per (subflavor, subflavors) and a typed one in between"""
        S = {}
        refs = []
        combos = [(a, s) for a in SF for s in SUBS]
        for m, (a, s) in enumerate(combos):
            name = f"ds{m}"
            mem, idx = [], []
            for n in (0, 1):
                for parts in PARTS:
                    k = f"k{m:02d}_{n}{len(parts)}"
                    S[k] = (a, s, n, parts)
                    for j, p in enumerate(parts):
                        mem.append(member(f"{k}.{p}", str(n).encode()))
                        if j == 0:
                            idx.append(len(mem) - 1)
            offs, end = write_tar(f"{d}/{name}/shard_0.tar", mem)
            write_index(f"{d}/{name}/shard_0.tar", [offs[i] for i in idx] + [end])
            yaml_dump({"shard_counts": {"shard_0.tar": len(idx)}}, f"{d}/{name}/.nv-meta/.info.yaml")
            yaml_dump({"split_parts": {"train": ["shard_0.tar"]}, "exclude": []}, f"{d}/{name}/.nv-meta/split.yaml")
            yaml_dump({"__module__": "megatron.energon", "__class__": "CrudeWebdataset"}, f"{d}/{name}/.nv-meta/dataset.yaml")
            ref = dict(path=f"./{name}", weight=1.0)
            if a is not None:
                ref["subflavor"] = a
            if s:
                ref["subflavors"] = s
            refs.append(ref)
        typed = ["ty0", "ty1"]
        mem = [member(f"{k}.txt", k.encode()) for k in typed]
        offs, end = write_tar(f"{d}/typed/shard_0.tar", mem)
        write_index(f"{d}/typed/shard_0.tar", offs + [end])
        yaml_dump({"shard_counts": {"shard_0.tar": 2}}, f"{d}/typed/.nv-meta/.info.yaml")
        yaml_dump({"split_parts": {"train": ["shard_0.tar"]}, "exclude": []}, f"{d}/typed/.nv-meta/split.yaml")
        yaml_dump({"__module__": "megatron.energon", "__class__": "TextWebdataset", "field_map": {"text": "txt"}}, f"{d}/typed/.nv-meta/dataset.yaml")
        refs.insert(3, dict(path="./typed", weight=1.0, subflavor="a", subflavors={"x": 1}))
        yaml_dump(
            {"__module__": "megatron.energon", "__class__": "MetadatasetV2", "splits": {"train": {"blend": refs}}},
            f"{d}/meta.yaml",
        )
        order = list(S)[:12] + typed + list(S)[12:]
        return S, order, typed

    def load(d, e, train=0, n=1000, path=None):
        def mkds(wc):
            with contextlib.redirect_stdout(io.StringIO()):
                if train:
                    return get_train_dataset(path or f"{d}/meta.yaml", split_part="train", worker_config=wc, batch_size=None, task_encoder=e(), shuffle_buffer_size=None, max_samples_per_sequence=None)
                return get_val_dataset(path or f"{d}/meta.yaml", split_part="train", worker_config=wc, batch_size=None, task_encoder=e())

        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            st = streams(mkds, max_samples=n)
        res.evals += 1
        return st[(0, 0)][0]

    with Scratch() as d:
        if c["kind"] == "real":
            S, order, typed = build(d)
            for li in c["lists"]:
                names = [ks[i] for i in li]
                if not li:
                    try:
                        load(d, lambda: enc(li), c["train"], 5)
                        res.bad(f"no-cookers-accepted:{c['train']}", "")
                    except AssertionError:
                        res.key("refused")
                    continue
                want = {}
                for k in order:
                    if k in typed:
                        want[k] = ("typed", k)
                    else:
                        pos = next((p for p, i in enumerate(li) if holds(ks[i], S[k])), None)
                        if pos is not None:
                            want[k] = (pos, str(S[k][2]), "p" in S[k][3])
                got = load(d, lambda: enc(li), c["train"], 1000 if not c["train"] else max(1, 3 * len(want)))
                g = []
                for s in got:
                    k = s.__key__.split("/")[-1]
                    v = ("typed", s.text) if k in typed else s.v
                    v = tuple(v[:1]) + tuple(x.decode() if isinstance(x, bytes) else x for x in v[1:])
                    g.append((k, v))
                    a, subs = ("a", {"x": 1}) if k in typed else S[k][:2]
                    if (s.__subflavor__, s.__subflavors__) != (a, subs):
                        res.bad(f"real-labels:{names}", dict(key=k, got=str((s.__subflavor__, s.__subflavors__)), want=str((a, subs))))
                res.key((li, g))
                if not c["train"]:
                    if g != list(want.items()):
                        res.bad(f"real:{names}", dict(want=str(list(want.items()))[:600], got=str(g)[:600]))
                else:
                    bad = [x for x in g if want.get(x[0]) != x[1]]
                    if bad or len(g) != max(1, 3 * len(want)):
                        res.bad(f"real-train:{names}", dict(bad=str(bad)[:500], n=len(g)))
            res.sample = dict(lists=len(c["lists"]))
        elif c["kind"] == "keys":
            base = dict(__key__="k", __restore_key__=("r", 1), __subflavor__="f", __subflavors__={"x": 1})
            for r in range(5):
                for sel in itertools.combinations(base, r):
                    for extra in ({}, {"txt": 1}, {"__other__": 2, "key": 3}):
                        s = {**{k: base[k] for k in sel}, **extra}
                        got = basic_sample_keys(s)
                        res.evals += 1
                        res.key((sel, tuple(extra)))
                        if got != {k: base[k] for k in sel}:
                            res.bad(f"basic:{sel}:{sorted(extra)}", str(got))
        else:
            S, order, typed = build(d)
            # typed data alone needs no cooker
            got = load(d, lambda: TaskEncoder(), path=f"{d}/typed")
            if [s.text for s in got] != typed:
                res.bad("typed-alone", str(got))
            for path in ("ds0", "meta.yaml"):
                for train in (0, 1):
                    try:
                        load(d, lambda: TaskEncoder(), train, 5, path=f"{d}/{path}")
                        res.bad(f"accepted:{path}:{train}", "")
                    except AssertionError:
                        res.key((path, train))
    return res


if __name__ == "__main__":
    main(
        "C27",
        "exploration",
        cases,
        run_case,
        rule="all lists of 1-2 (and a third of 3) cookers over all combinations of conditions x all samples; distinct = distinct (list, chosen cookers)",
    )
