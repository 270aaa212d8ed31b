"""C32: energon lint, info and preview tell what is in the dataset.

All words of sample outcomes (good / broken / excluded) over two shards x split configurations x dataset
classes, linted by the real command (in process and with real worker processes); all small shard, split and
exclude configurations through `info`; all abort positions and field value kinds through `preview`.
"""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import Res, main  # noqa

KINDS = ("good", "nopart", "broken")
CLS = ("text", "captioning", "crude", "loader")


def cases(tier):
    deep = 1 if tier == "thorough" else 0
    out = []
    vecs = [(1, 1), (2, 1), (2, 2), (3, 0), (0, 2)] if not deep else [(1, 1), (2, 1), (2, 2), (3, 0), (0, 2), (3, 2), (2, 3), (4, 1)]
    for cls in CLS:
        for v in vecs:
            if v == (2, 2) and cls != "captioning" and not deep:
                continue
            for first in KINDS:
                out.append(dict(kind="lint", cls=cls, vec=list(v), first=first, deep=deep))
    out += [dict(kind="index", deep=deep), dict(kind="files")]
    for how in ("v1", "v2", "blend", "join"):
        out.append(dict(kind="meta", how=how, deep=deep))
    for cls in CLS:
        for w in (1, 2, 3) if deep else (1, 2):
            out.append(dict(kind="workers", cls=cls, w=w, deep=deep))
    out += [dict(kind="info", part=k, of=8, deep=deep) for k in range(8)]
    out += [dict(kind="preview", part=k, of=4, deep=deep) for k in range(4)]
    out += [dict(kind="values", deep=deep)]
    return out


def png(w=2, h=2, c=(1, 2, 3), mode="RGB"):
    import io

    from PIL import Image

    b = io.BytesIO()
    im = Image.new(mode, (w, h), c)
    if w > 1 and mode == "RGB":
        im.putpixel((w - 1, h - 1), (200, 100, 5))
    im.save(b, "png")
    return b.getvalue()


def run_case(case):
    import contextlib
    import io
    import logging
    import re

    import yaml
    from click.testing import CliRunner

    from lib.disk import Scratch, crude_yaml, make_ds, member, text_yaml, write_index, write_tar, yaml_dump
    from megatron.energon.cli.main import main as energon

    import gc

    gc.collect = lambda *a, **k: 0  # the loader collects on every construction: irrelevant and slow here
    res = Res()
    logging.disable(logging.CRITICAL)
    IMG = png()

    def cli(*args, answers=None):
        try:
            r = CliRunner(mix_stderr=True)
        except TypeError:
            r = CliRunner()
        with contextlib.redirect_stderr(io.StringIO()):
            r = r.invoke(energon, [str(a) for a in args], input=answers, env={"COLUMNS": "80", "LINES": "24"})
        res.evals += 1
        return r

    def dataset(root, words, cls, splits=None, exclude=(), counts=None, names=None):
        """words: per shard a list of sample outcomes.  The parts of every sample depend on its outcome."""
        names = names or [f"shard_{i}.tar" for i in range(len(words))]
        for si, (n, word) in enumerate(zip(names, words)):
            mem, first = [], []
            for i, o in enumerate(word):
                parts = dict(png=IMG, txt=b"text%d" % i)
                if o == "nopart":
                    del parts["txt"]
                elif o == "broken":
                    parts["png" if cls != "text" else "txt"] = b"\xff\xfe broken"
                first.append(len(mem))
                mem += [member(f"{si}_{i}.{e}", d) for e, d in parts.items()]
            offs, end = write_tar(os.path.join(root, n), mem)
            write_index(os.path.join(root, n), [offs[k] for k in first] + [end])
        yaml_dump({"shard_counts": counts or {n: len(w) for n, w in zip(names, words)}}, f"{root}/.nv-meta/.info.yaml")
        yaml_dump({"split_parts": splits or {"train": names, "val": [], "test": []}, "exclude": list(exclude)}, f"{root}/.nv-meta/split.yaml")
        cap = {"sample_type": {"__module__": "megatron.energon", "__class__": "CaptioningSample"}}
        y = {
            "text": text_yaml(),
            "captioning": dict(cap, field_map={"image": "png", "caption": "txt"}),
            "crude": crude_yaml(),
            "loader": dict(cap, sample_loader="sample_loader.py:sample_loader", part_filter="sample_loader.py:part_filter"),
        }[cls]
        yaml_dump(y, f"{root}/.nv-meta/dataset.yaml")
        if cls == "loader":
            with open(f"{root}/.nv-meta/sample_loader.py", "w") as f:
                f.write("def sample_loader(s):\n    return dict(__key__=s['__key__'], image=s['png'], caption=s['txt'])\ndef part_filter(p):\n    return True\n")
        return names

    def fails(o, cls):
        """whether a sample of this outcome cannot be loaded"""
        if o == "good":
            return False
        if o == "nopart":
            return cls != "crude"
        return True

    def failing(names, words, cls, listed, exclude):
        return [
            f"{n}/{si}_{i}"
            for n in listed
            for si in [names.index(n)]
            for i, o in enumerate(words[si])
            if n not in exclude and f"{n}/{si}_{i}" not in exclude and fails(o, cls)
        ]

    def verdict(r, want, sig, ordered=True, crash_ok=False, **kw):
        """want: list of failing keys"""
        got = re.findall(r"(?m)^- (.*)$", r.output)
        ok = (r.exit_code == 0) == (not want)
        if want and not crash_ok:
            ok = ok and isinstance(r.exception, SystemExit)
        if not want:
            ok = ok and not got
        else:
            ok = ok and sorted(got) == sorted(want)
        if not ok:
            res.bad(sig, dict(want=want, got=got, exit=r.exit_code, exception=repr(r.exception), output=r.output[-600:], **kw))

    kind = case["kind"]
    # ------------------------------------------------------------------ lint
    if kind == "lint":
        cls = case["cls"]
        vec = case["vec"]
        for word in itertools.product(KINDS, repeat=sum(vec)):
            if word[0] != case["first"]:
                continue
            words = [list(word[: vec[0]]), list(word[vec[0] :])]
            both = ["shard_0.tar", "shard_1.tar"]
            excl = [(), ("shard_0.tar/0_0",), ("shard_1.tar/1_0", "shard_0.tar/0_1"), ("shard_{0..1}.tar/{0..1}_{0..1}",)]
            layouts = [
                ({"train": both, "val": [], "test": []}, None, both),
                ({"train": both[:1], "val": both[1:], "test": []}, None, both),
                ({"train": [], "val": both[1:], "test": both[:1]}, None, both),
                ({"train": both[:1], "val": both[1:], "test": []}, "train", both[:1]),
                ({"train": both[:1], "other": both[1:]}, "other", both[1:]),
                ({"train": ["shard_{0..1}.tar"], "val": [], "test": []}, "val,train", both),
            ]
            for li, (splits, arg, listed) in enumerate(layouts):
                for ei, ex in enumerate(excl):
                    if not case["deep"] and ei and li not in (0, 3):
                        continue
                    with Scratch() as d:
                        names = dataset(d, words, cls, splits, ex)
                        r = cli("lint", d, "--parallel", 0, *(("--split-parts", arg) if arg else ()))
                        exs = set(ex) | ({"shard_0.tar/0_0", "shard_0.tar/0_1", "shard_1.tar/1_0", "shard_1.tar/1_1"} if ei == 3 else set())
                        want = failing(names, words, cls, listed, exs)
                        verdict(r, want, f"lint:{cls}:{li}:{ei}:{word}", words=words, splits=splits, exclude=ex)
                        res.key((cls, len(want), li))
            # an excluded shard is not loaded
            if not vec[0]:
                continue
            with Scratch() as d:
                names = dataset(d, words, cls, {"train": both, "val": [], "test": []}, ("shard_1.tar",))
                verdict(cli("lint", d, "--parallel", 0), failing(names, words, cls, both[:1], ()), f"lint-noshard:{cls}:{word}", words=words)
        res.sample = dict(word=list(word))
    elif kind == "index":
        # the number of samples of the index must match .info.yaml in every shard
        for vec in itertools.product(range(1, 4 if case["deep"] else 3), repeat=3):
            for delta in itertools.product((-1, 0, 1), repeat=3):
                if sum(map(abs, delta)) > 2:
                    continue
                with Scratch() as d:
                    names = [f"s{i}.tar" for i in range(3)]
                    words = [["good"] * n for n in vec]
                    dataset(d, words, "text", {"train": names, "val": [], "test": []}, names=names, counts={n: c + x for n, c, x in zip(names, vec, delta)})
                    r = cli("lint", d, "--parallel", 0)
                    if (r.exit_code == 0) != (not any(delta)):
                        res.bad(f"index:{vec}:{delta}", dict(exit=r.exit_code, output=r.output[-400:], exception=repr(r.exception)))
                    named = [n for n, x in zip(names, delta) if x]
                    missing = [n for n in named if n not in r.output]
                    if missing:
                        res.bad(f"index-names:{vec}:{delta}", dict(missing=missing, output=r.output[-400:]))
                    res.key((tuple(map(bool, delta)),))
        res.sample = dict(vec=vec)
    elif kind == "files":
        # other configuration files
        for dc, sc in itertools.product((None, "ds2.yaml"), (None, "split2.yaml")):
            for word in itertools.product(KINDS, repeat=2):
                with Scratch() as d:
                    names = dataset(d, [list(word), ["good"]], "captioning", {"train": ["shard_0.tar"], "val": [], "test": []})
                    if dc:
                        os.rename(f"{d}/.nv-meta/dataset.yaml", f"{d}/.nv-meta/{dc}")
                        yaml_dump(text_yaml(), f"{d}/.nv-meta/dataset.yaml")  # accepts broken images
                    if sc:
                        os.rename(f"{d}/.nv-meta/split.yaml", f"{d}/.nv-meta/{sc}")
                        yaml_dump({"split_parts": {"train": ["shard_1.tar"], "val": [], "test": []}}, f"{d}/.nv-meta/split.yaml")
                    r = cli("lint", d, "--parallel", 0, *(("--dataset-config", dc) if dc else ()), *(("--split-config", sc) if sc else ()))
                    verdict(r, failing(names, [list(word), []], "captioning", ["shard_0.tar"], ()), f"files:{dc}:{sc}:{word}")
        # shards which are damaged or missing
        for what in ("missing-tar", "missing-idx", "truncated"):
            with Scratch() as d:
                dataset(d, [["good"] * 3, ["good"]], "text")
                p = f"{d}/shard_0.tar"
                if what == "missing-tar":
                    os.unlink(p)
                elif what == "missing-idx":
                    os.unlink(p + ".idx")
                else:
                    data = open(p, "rb").read()
                    open(p, "wb").write(data[:700])
                r = cli("lint", d, "--parallel", 0)
                if r.exit_code == 0:
                    res.bad(f"damaged:{what}", r.output[-400:])
                res.key(what)
    elif kind == "meta":
        how = case["how"]
        for word in itertools.product(KINDS, repeat=3 if case["deep"] else 2):
            for word2 in itertools.product(KINDS, repeat=2):
                with Scratch() as d:
                    words, words2 = [list(word)], [list(word2)]
                    if how == "join" and len(word) != len(word2):
                        continue
                    sp = {"train": ["shard_0.tar"], "val": [], "test": []}
                    n1 = dataset(f"{d}/a", words, "captioning", sp)
                    cls2 = "text" if how != "blend" else "captioning"
                    if how in ("v1", "v2"):
                        cls2 = "captioning"
                    n2 = dataset(f"{d}/b", words2, cls2, sp)
                    if how == "v1":
                        body = {"__class__": "Metadataset", "splits": {"train": {"datasets": [{"path": "a"}, {"path": "b", "weight": 2}]}}}
                    elif how == "v2":
                        body = {"__class__": "MetadatasetV2", "splits": {"train": {"path": "a"}, "val": {"path": "b", "split_part": "train"}}}
                    elif how == "blend":
                        body = {"__class__": "MetadatasetV2", "splits": {"train": {"blend_epochized": [{"path": "a"}, {"path": "b", "repetitions": 1}]}}}
                        body = {"__class__": "MetadatasetV2", "splits": {"train": {"blend": [{"path": "a", "weight": 1}, {"path": "b", "weight": 0.5}]}}}
                    else:
                        body = {"__class__": "MetadatasetV2", "splits": {"train": {"join": [{"path": "a"}, {"path": "b"}], "joiner": {"__module__": "lib.prevjoin", "__class__": "Row"}}}}
                    yaml_dump({"__module__": "megatron.energon", **body}, f"{d}/m.yaml")
                    want = failing(n1, words, "captioning", n1, ())
                    if how == "join":
                        want = [i for i in range(len(word)) if fails(word[i], "captioning") or fails(word2[i], "text")]
                    else:
                        want = want + failing(n2, words2, "captioning", n2, ())
                    r = cli("lint", f"{d}/m.yaml", "--parallel", 0, "--split-parts", "train,val" if how == "v2" else "train")
                    got = re.findall(r"(?m)^- (.*)$", r.output)
                    if (r.exit_code == 0) != (not want) or (how != "join" and sorted(got) != sorted(want)) or len(got) != len(want):
                        res.bad(f"meta:{how}:{word}:{word2}", dict(want=want, got=got, exit=r.exit_code, exception=repr(r.exception), output=r.output[-500:]))
                    res.key((how, len(want)))
        res.sample = dict(how=how)
    elif kind == "workers":
        cls, w = case["cls"], case["w"]
        # the failing sample at every position, several failing ones, none
        n = 4 if case["deep"] else 3
        words = [["good"] * n] + [["good"] * i + [k] + ["good"] * (n - 1 - i) for i in range(n) for k in KINDS[1:]] + [["broken"] * n, ["nopart"] * n]
        for word in words:
            with Scratch() as d:
                ws = [word[:2], word[2:]]
                names = dataset(d, ws, cls, {"train": ["shard_0.tar", "shard_1.tar"], "val": [], "test": []})
                args = ("--parallel", w) if w > 1 else ()
                r = cli("lint", d, "--split-parts", "train", *args)
                verdict(r, failing(names, ws, cls, names, ()), f"workers:{cls}:{w}:{word}", words=ws)
                res.key((cls, w, tuple(word)))
                res.validated += 1
        res.sample = dict(words=words[-1])
    # ------------------------------------------------------------------ info
    elif kind == "info":
        N = 4
        names = ["a/s0.tar", "a/s1.tar", "s2.tar", "s3.tar"]
        sets = [[], [names[0]], names[1:3], ["a/s{0..1}.tar"], names[::-1], ["s{2,3}.tar", names[0]]]
        full = lambda l: [y for x in l for y in {"a/s{0..1}.tar": names[:2], "s{2,3}.tar": names[2:], "s{2..3}.tar": names[2:]}.get(x, [x])]
        excl = [[], [names[1]], ["s{2..3}.tar"], ["a/s0.tar/0_0"]]
        vecs = [(0, 0, 0, 0), (1, 0, 0, 0), (1, 2, 0, 3), (700, 300, 1, 4), (2, 2, 2, 2)]
        todo = [x for x in itertools.product(vecs, sets, sets, (None, sets[1], sets[4]), excl, ("text", "captioning", "crude"))]
        if not case["deep"]:
            todo = todo[::5]
        todo = todo[case["part"] :: case["of"]]
        last = None
        with Scratch() as d:
            for vec, train, val, test, ex, cls in todo:
                if last != vec:
                    dataset(d, [[], [], [], []], cls, names=names)
                    for k, n in enumerate(names):
                        with open(f"{d}/{n}", "wb") as f:
                            f.truncate((0, 700, 1024, 3 << 20)[(k + vec[0]) % 4])
                    last = vec
                sp = {"val": val, "train": train}
                if test is not None:
                    sp = {"test": test, **sp, "extra": test}
                yaml_dump({"shard_counts": dict(zip(names, vec))}, f"{d}/.nv-meta/.info.yaml")
                yaml_dump({"split_parts": sp, "exclude": ex}, f"{d}/.nv-meta/split.yaml")
                cap = {"sample_type": {"__module__": "megatron.energon", "__class__": "CaptioningSample"}, "field_map": {"image": "png", "caption": "txt"}}
                yaml_dump({"text": text_yaml(), "captioning": cap, "crude": crude_yaml()}[cls], f"{d}/.nv-meta/dataset.yaml")
                r = cli("info", d)
                size = sum(os.path.getsize(f"{d}/{n}") for n in names)
                unit = 0
                while size >= 1024:
                    size, unit = size / 1024, unit + 1
                exs = set(full(ex))
                st = {"text": "TextSample", "captioning": "CaptioningSample", "crude": "CrudeSample"}[cls]
                want = [f"`{d}` ({sum(vec):,} samples, {size:.2f} {('B', 'KiB', 'MiB', 'GiB')[unit]} in {N} shards)", f"`{st} <megatron.energon.{st}>`"]
                lines = []
                for s in ("train", "val", "test", "extra"):
                    if s in sp:
                        mine = [n for n in full(sp[s]) if n not in exs]
                        cnt = sum(vec[names.index(n)] for n in mine)
                        pct = 100 * cnt / sum(vec) if sum(vec) else 0
                        lines.append((s, f"{round(pct, 2):.0f}", f"{cnt:,}", str(len(mine))))
                got = re.findall(r"\* `(\w+)`: (\d+)%, ([\d,]+) samples in (\d+) shards", r.output)
                if r.exit_code or got != lines or any(w not in r.output for w in want):
                    res.bad(f"info:{vec}:{sp}:{ex}:{cls}", dict(want=[want, lines], got=got, output=r.output[-500:], exception=repr(r.exception)))
                res.key((sum(vec), tuple(lines)))
        res.sample = dict(lines=lines)
    # ------------------------------------------------------------------ preview
    elif kind == "preview":
        todo = [(cls, vec, stop) for cls in CLS for vec in ((1, 1), (2, 1), (1, 3), (0, 2)) for stop in range(sum(vec) + 1)]
        for cls, vec, stop in todo[case["part"] :: case["of"]]:
            for layout in range(3):
                with Scratch() as d:
                    both = ["shard_0.tar", "shard_1.tar"]
                    sp = [{"train": both, "val": [], "test": []}, {"train": both[:1], "val": both[1:], "test": []}, {"train": [], "val": both[1:], "test": both[:1]}][layout]
                    words = [["good"] * n for n in vec]
                    dataset(d, words, cls, sp)
                    keys = [[f"{n}/{both.index(n)}_{i}" for n in sp[s] for i in range(vec[both.index(n)])] for s in ("train", "val", "test")]
                    # 'n' at the stop-th question ends the preview of that split
                    seen, ans, k = [], [], 0
                    for s in keys:
                        for key in s:
                            seen.append(key)
                            ans.append("n" if k == stop else "y")
                            k += 1
                            if ans[-1] == "n":
                                break
                    r = cli("preview", d, answers="".join(a + "\n" for a in ans))
                    got = re.findall(r"shard_\d\.tar/\d_\d", r.output)
                    texts = re.findall(r"'text(\d)'", r.output)
                    want_t = [x.rsplit("_", 1)[1] for x in seen]
                    if r.exit_code or got != seen or texts != want_t:
                        res.bad(f"preview:{cls}:{vec}:{stop}:{layout}", dict(want=seen, got=got, texts=texts, exit=r.exit_code, exception=repr(r.exception), output=r.output[-500:]))
                    res.key((cls, len(seen), stop))
        res.sample = dict(seen=seen)
    else:
        import torch

        def show(parts, y, sig, contains=()):
            with Scratch() as d:
                offs, end = write_tar(f"{d}/shard_0.tar", [member(f"k.{e}", b) for e, b in parts.items()] + [member("l.txt", b"second")] + [member(f"l.{e}", b) for e, b in parts.items() if e != "txt"])
                write_index(f"{d}/shard_0.tar", [offs[0], offs[len(parts)], end])
                yaml_dump({"shard_counts": {"shard_0.tar": 2}}, f"{d}/.nv-meta/.info.yaml")
                yaml_dump({"split_parts": {"train": ["shard_0.tar"]}}, f"{d}/.nv-meta/split.yaml")
                yaml_dump(y, f"{d}/.nv-meta/dataset.yaml")
                with open(f"{d}/.nv-meta/sample_loader.py", "w") as f:
                    f.write("from lib.prevmod import Pair\ndef sample_loader(s):\n    return dict(__key__=s['__key__'], pair=Pair(s['txt'], 7), rest=(Pair('x', 1), [1, 'b'], []))\ndef part_filter(p):\n    return True\n")
                r = cli("preview", d, "--split-parts", "train", answers="y\ny\n")
                miss = [c for c in contains if c not in r.output]
                if r.exit_code or r.output.count("Sample ") < 2 or "'second'" not in r.output or miss:
                    res.bad(sig, dict(missing=miss, exit=r.exit_code, exception=repr(r.exception), output=r.output[-600:]))
                res.key(sig)

        def pth(t):
            b = io.BytesIO()
            torch.save(t, b)
            return b.getvalue()

        sizes = (1, 2, 3, 24, 80, 100, 700)
        for w, h in itertools.product(sizes, sizes):
            for mode, c in (("RGB", (1, 2, 3)), ("RGB", (0, 0, 0)), ("L", 0), ("L", 255), ("RGBA", (1, 2, 3, 4))):
                show(dict(txt=b"first", png=png(w, h, c, mode)), crude_yaml(), f"image:{w}x{h}:{mode}:{c}", ["'first'"])
        for nd in range(4):
            for shape in itertools.product((0, 1, 2, 3, 4), repeat=nd):
                for dt in (torch.float32, torch.uint8, torch.bool, torch.int64):
                    for fill in ("zero", "ramp"):
                        t = torch.zeros(shape) if fill == "zero" else torch.arange(max(1, torch.Size(shape).numel())).float()[: torch.Size(shape).numel()].reshape(shape)
                        show(dict(txt=b"first", pth=pth(t.to(dt))), crude_yaml(), f"tensor:{shape}:{dt}:{fill}", ["'first'", f"shape={torch.Size(shape)}" if shape else "shape="])
                    if not case["deep"] and nd == 3:
                        break
        for j, parts in {'{"a": [1, "zz", null, true]}': ["zz"], "[]": ["[]"] if 0 else [], '["qq", ["rr", {"b": 2.5}]]': ["'qq'", "'rr'"], "12": ["12"], '"hello"': ["'hello'"], "null": [], "{}": []}.items():
            show(dict(txt=b"first", json=j.encode()), crude_yaml(), f"json:{j}", ["'first'", *parts])
        show(dict(txt=b"first", bin=b"\x00\x01" * 300), crude_yaml(), "bytes", ["length=600"])
        show(dict(txt=b"first"), {"sample_type": {"__module__": "lib.prevmod", "__class__": "PairSample"}, "sample_loader": "sample_loader.py:sample_loader", "part_filter": "sample_loader.py:part_filter"}, "pair", ["'first'", "first=", "second=", "7", "'x'", "'b'"])
        res.sample = dict(shapes="0-3 dims")
    return res


if __name__ == "__main__":
    main(
        "C32",
        "exploration",
        cases,
        run_case,
        case_timeout=240,
        rule="all words of sample outcomes over two shards x splits x excludes x dataset classes linted by the real command (in process and in real workers), all small info configurations, all abort positions and value kinds of preview; distinct = distinct verdicts",
    )
