"""C31: raw parts of a sample become the fields of the typed sample as dataset.yaml says."""
import contextlib
import io
import itertools
import json
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import Res, main  # noqa

LEAVES = [0, "s", False, ""]  # a part which is just "null" stays undecoded (webdataset)
ACC = ["json", "json[a]", "json[b]", "json[0]", "json[1]", "json[a][b]", "json[a][0]", "json[0][a]", "json[a][b][a]", "txt", "no", "no[a]", "x.json[a]"]
ACC3 = ["json[a]", "json[b]", "json[1]", "json[a][b]", "txt", "no", "x.json"]


def values():
    d0 = [None, 0, "s"]
    d1 = [{}, {"a": 1}, {"b": 2}, {"a": None, "b": ""}, [], ["x"], ["x", False]]
    out = list(LEAVES) + d1
    for x in d0 + d1:
        out += [{"a": x}, {"a": x, "b": 3}, {"b": x}, [x], [7, x]]
    out += [{"a": {"b": {"a": 5}}}, {"a": {"b": [9]}}, {"a": [{"b": 1}]}, {"0": 4}, {"1": {"a": 2}}, [[8]], [{"a": [6]}]]
    return out


def samples():
    """(id, {part: object}); every value with and without the other parts"""
    out = []
    for i, v in enumerate(values()):
        out.append((f"s{i:03d}a", {"json": v, "txt": f"t{i}"}))
        if i % 3 == 0:
            out.append((f"s{i:03d}b", {"json": v}))
        if i % 5 == 0:
            out.append((f"s{i:03d}c", {"json": v, "x.json": {"a": f"x{i}"}}))
    out.append(("t0", {"txt": "only"}))
    out.append(("u0", {"x.json": {"a": "xonly"}}))
    return out


MISSING = object()


def get(parts, desc):
    """reference: the first alternative which is there"""
    for alt in desc.split(","):
        name = alt.split("[")[0]
        v = parts.get(name, MISSING)
        for k in re.findall(r"\[([^\[\]]+)\]", alt):
            if isinstance(v, dict) and k in v:
                v = v[k]
            elif isinstance(v, list) and k.isdigit() and int(k) < len(v):
                v = v[int(k)]
            else:
                v = MISSING
        if v is not MISSING:
            return v
    return MISSING


def enc(part, v):
    return v.encode() if part == "txt" else json.dumps(v).encode()


def cases(tier):
    one = ACC
    two = [f"{a},{b}" for a in ACC for b in ACC]
    three = [",".join(t) for t in itertools.product(ACC, repeat=3)]
    if tier != "quick":
        three += [",".join(t) for t in itertools.product(ACC3, repeat=4)]
    descs = one + two + three
    out = []
    for i in range(0, len(descs), 24):
        out.append(dict(kind="access", descs=descs[i : i + 24]))
    pairs = list(itertools.product(["json[a]", "json[b],txt", "txt,json[a][b]", "json", "no,txt"], repeat=2))
    for i in range(0, len(pairs), 5):
        out.append(dict(kind="fields", pairs=pairs[i : i + 5]))
    for dec in (None, True, False):
        for how in ("list", "fn", "fn_default"):
            out.append(dict(kind="loader", dec=dec, how=how))
    out.append(dict(kind="invalid"))
    return out


def run_case(c):
    from lib.disk import Scratch, make_ds, member, write_index, write_tar, yaml_dump
    from lib.wk import streams
    from megatron.energon import TaskEncoder, get_val_dataset

    res = Res()

    def put(d, sams):
        make_ds(d, [[]], dataset_yaml={})
        mem, idx = [], []
        for k, parts in sams:
            for p, v in parts.items():
                mem.append((k, member(f"{k}.{p}", enc(p, v))))
        offs, end = write_tar(f"{d}/shard_0.tar", [m for _, m in mem])
        last = None
        for (k, _), o in zip(mem, offs):
            if k != last:
                idx.append(o)
                last = k
        write_index(f"{d}/shard_0.tar", idx + [end])
        yaml_dump({"shard_counts": {"shard_0.tar": len(sams)}}, f"{d}/.nv-meta/.info.yaml")

    def load(d, cfg, handler=None):
        name = f"ds_{load.n}.yaml"
        load.n += 1
        yaml_dump(cfg, f"{d}/.nv-meta/{name}")
        kw = dict(handler=handler) if handler else {}
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            st = streams(lambda wc: get_val_dataset(d, split_part="train", worker_config=wc, batch_size=None, task_encoder=TaskEncoder(), dataset_config=name, **kw), max_samples=1000)
        res.evals += 1
        return st[(0, 0)][0]

    load.n = 0

    def same(a, b):
        return a == b and type(a) is type(b) and json.dumps(a) == json.dumps(b)

    def check(d, sams, fmap, cls, sig):
        errs = []
        got = load(d, {"sample_type": {"__module__": "megatron.energon", "__class__": cls}, "field_map": fmap}, lambda e, k: errs.append(k.split("/")[-1]))
        want, werr = [], []
        for k, parts in sams:
            vals = {f: get(parts, desc) for f, desc in fmap.items()}
            if MISSING in vals.values():
                werr.append(k)
            else:
                want.append((k, vals))
        g = [(s.__key__.split("/")[-1], {f: getattr(s, f) for f in fmap}) for s in got]
        res.key((sig, len(g), [k for k, _ in g]))
        if [k for k, _ in g] != [k for k, _ in want]:
            a, b = {k for k, _ in g}, {k for k, _ in want}
            by = dict(sams)
            res.bad(f"delivered:{sig}", dict(lost=[(k, by[k]) for k in sorted(b - a)][:3], extra=[(k, by[k]) for k in sorted(a - b)][:3]))
            return
        for (k, v), (_, w) in zip(g, want):
            for f in fmap:
                if not same(v[f], w[f]):
                    res.bad(f"value:{sig}:{k}", dict(field=f, want=w[f], got=repr(v[f])))
        if errs != werr:
            res.bad(f"errors:{sig}", dict(want=werr, got=errs))

    with Scratch() as d:
        if c["kind"] == "access":
            sams = samples()
            put(d, sams)
            for desc in c["descs"]:
                check(d, sams, {"text": desc}, "TextSample", desc)
            res.sample = dict(desc=desc, samples=len(sams))
        elif c["kind"] == "fields":
            sams = samples()
            put(d, sams)
            for a, b in c["pairs"]:
                check(d, sams, {"image": a, "caption": b}, "CaptioningSample", f"{a}|{b}")
                check(d, sams, {"caption": b, "image": a}, "CaptioningSample", f"swapped:{a}|{b}")
        elif c["kind"] == "loader":
            allp = {"txt": "hello", "json": {"a": [1]}, "bin": None, "x.txt": "more"}
            raw = {"txt": b"hello", "json": b'{"a": [1]}', "bin": b"\x00\x01", "x.txt": b"more"}
            dec = {"txt": "hello", "json": {"a": [1]}, "bin": b"\x00\x01", "x.txt": "more"}
            names = list(raw)
            import tarfile  # noqa

            make_ds(d, [[]], dataset_yaml={})
            mem = [member(f"k{i}.{p}", raw[p]) for i in range(2) for p in names]
            offs, end = write_tar(f"{d}/shard_0.tar", mem)
            write_index(f"{d}/shard_0.tar", [offs[0], offs[len(names)], end])
            yaml_dump({"shard_counts": {"shard_0.tar": 2}}, f"{d}/.nv-meta/.info.yaml")
            n = 0
            for r in range(1, len(names) + 1):
                for sel in itertools.combinations(names, r):
                    n += 1
                    mod = f"loader_{n}.py"
                    fn = "sample_loader" if c["how"] == "fn_default" else "my_loader"
                    pf = "part_filter" if c["how"] == "fn_default" else "my_filter"
                    with open(f"{d}/.nv-meta/{mod}", "w") as f:
                        f.write(
                            f"def {fn}(s):\n    return dict(text=[s['__key__'], {{k: v for k, v in s.items() if not k.startswith('__')}}])\n"
                            f"def {pf}(p):\n    return p in {list(sel)!r}\n"
                        )
                    cfg = {"sample_type": {"__module__": "megatron.energon", "__class__": "TextSample"}, "subflavors": {"q": n}}
                    cfg["sample_loader"] = mod if c["how"] == "fn_default" else f"{mod}:{fn}"
                    cfg["part_filter"] = {"list": list(sel), "fn": f"{mod}:{pf}", "fn_default": mod}[c["how"]]
                    if c["dec"] is not None:
                        cfg["auto_decode"] = c["dec"]
                    got = load(d, cfg)
                    src = raw if c["dec"] is False else dec
                    want = [(f"shard_0.tar/k{i}", {p: src[p] for p in sel}, {"q": n}) for i in range(2)]
                    g = [(s.__key__, s.text[1], dict(s.__subflavors__)) for s in got]
                    res.key((sel, c["dec"]))
                    if g != want or any(s.text[0] != s.__key__ for s in got):
                        res.bad(f"loader:{c['how']}:{c['dec']}:{sel}", dict(want=str(want), got=str(g)))
            res.sample = dict(selections=n)
        else:
            put(d, samples()[:3])
            with open(f"{d}/.nv-meta/sample_loader.py", "w") as f:
                f.write("def sample_loader(s):\n    return dict(text='')\ndef part_filter(p):\n    return True\n")
            ty = {"sample_type": {"__module__": "megatron.energon", "__class__": "TextSample"}}
            bad = {
                "unknown-field": {**ty, "field_map": {"text": "txt", "nope": "json"}},
                "only-unknown": {**ty, "field_map": {"nope": "json"}},
                "both": {**ty, "field_map": {"text": "txt"}, "sample_loader": "sample_loader.py:sample_loader", "part_filter": "sample_loader.py:part_filter"},
                "neither": dict(ty),
                "no-filter": {**ty, "sample_loader": "sample_loader.py:sample_loader"},
                "no-such-fn": {**ty, "sample_loader": "sample_loader.py:nope", "part_filter": "sample_loader.py:part_filter"},
                "no-such-file": {**ty, "sample_loader": "nope.py:sample_loader", "part_filter": "sample_loader.py:part_filter"},
                "no-such-filter": {**ty, "sample_loader": "sample_loader.py:sample_loader", "part_filter": "sample_loader.py:nope"},
                "no-such-type": {"sample_type": {"__module__": "megatron.energon", "__class__": "NopeSample"}, "field_map": {"text": "txt"}},
                "not-a-sample": {"sample_type": {"__module__": "megatron.energon", "__class__": "TaskEncoder"}, "field_map": {"text": "txt"}},
            }
            for sig, cfg in bad.items():
                try:
                    got = load(d, cfg)
                except Exception as e:
                    res.key((sig, type(e).__name__))
                else:
                    res.bad(f"accepted:{sig}", str(got)[:300])
            good = load(d, {**ty, "sample_loader": "sample_loader.py:sample_loader", "part_filter": "sample_loader.py:part_filter"})
            if len(good) != 3:
                res.bad("control", str(good))
    return res


if __name__ == "__main__":
    main(
        "C31",
        "exploration",
        cases,
        run_case,
        rule="all field_map descriptions of up to three alternatives over 13 accesses x about 150 samples of nested values; all part selections x loader forms; distinct = distinct sets of delivered samples",
    )
