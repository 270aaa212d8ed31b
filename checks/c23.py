"""C23: preparing a dataset lists every readable shard with its exact samples and splits them completely."""
import contextlib
import io
import itertools
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import Res, main  # noqa

SPLITS = ("train", "val", "test")


def cases(tier):
    out = []
    N = 8 if tier == "quick" else 13
    M = 4 if tier == "quick" else 6
    rat = [r for r in itertools.product(range(M + 1), repeat=3) if sum(r)]
    rat += [(0.1, 0.2, 0.7), (0.7, 0.2, 0.1), (8, 1, 1), (0.6, 0.3, 0.1), (1 / 3, 1 / 3, 1 / 3), (0.85, 0.1, 0.05), (98, 1, 1)]
    for n in range(1, N + 1):
        for i in range(0, len(rat), 32):
            out.append(dict(kind="ratio", n=n, ratios=[list(r) for r in rat[i : i + 32]]))
    for m in (1, 2, 4, 5):
        out.append(dict(kind="nsplits", n=6, m=m))
    for kinds in itertools.product("oecth", repeat=3):
        out.append(dict(kind="bad", kinds="".join(kinds)))
    step = 256 if tier == "quick" else 64
    for word in ("2", "13", "121"):
        for p in range(4):
            out.append(dict(kind="damage", word=word, step=step, part=p))
    out.append(dict(kind="patterns"))
    for sh in (0, 1):
        out.append(dict(kind="cli", shuffle=sh))
    out.append(dict(kind="wizard"))
    out.append(dict(kind="pool"))
    return out


def run_case(c):
    import yaml
    from lib.crude import inline_pool
    from lib.disk import Scratch, ids_for, make_ds, member, text_yaml, write_tar, yaml_dump
    from lib.wk import streams
    from megatron.energon import TaskEncoder, get_val_dataset
    from megatron.energon.flavors.webdataset.prepare import WebdatasetPreparator

    res = Res()

    def prepare(root, paths, inline=True, workers=1, **kw):
        with contextlib.ExitStack() as st:
            if inline:
                st.enter_context(inline_pool())
            st.enter_context(contextlib.redirect_stderr(io.StringIO()))
            st.enter_context(contextlib.redirect_stdout(io.StringIO()))
            return WebdatasetPreparator.prepare_dataset(root, paths, workers=workers, **kw)

    def load(root, split, workers=2):
        with contextlib.redirect_stdout(io.StringIO()):
            st = streams(lambda wc: get_val_dataset(root, split_part=split, worker_config=wc, batch_size=None, task_encoder=TaskEncoder()), 1, workers)
        return [(s.__key__, s.text) for w in sorted(st) for s in st[w][0]]

    def meta(root):
        info = yaml.safe_load(open(f"{root}/.nv-meta/.info.yaml"))["shard_counts"]
        sp = yaml.safe_load(open(f"{root}/.nv-meta/split.yaml"))["split_parts"]
        return info, {k: v or [] for k, v in sp.items()}

    def tars(root, names, ids, pay=None):
        for n, i in zip(names, ids):
            write_tar(f"{root}/{n}", [member(f"{k}.txt", f"text {k}".encode()) for k in i])
        yaml_dump(text_yaml(), f"{root}/.nv-meta/dataset.yaml")

    def check_loads(root, want_ids, sig):
        """every split delivers exactly the samples of its shards, in order"""
        _, sp = meta(root)
        for part, shards in sp.items():
            want = [(f"{s}/{k}", f"text {k}") for s in shards for k in want_ids[s]]
            if not shards:
                continue
            try:
                got = load(root, part)
            except Exception as ex:
                got = repr(ex)
            if got != want:
                res.bad(f"loads:{sig}:{part}", dict(want=want, got=got))

    with Scratch() as d:
        if c["kind"] in ("ratio", "nsplits"):
            n = c["n"]
            ids = ids_for([1 + i % 3 for i in range(n)])
            names = [f"shard_{i}.tar" for i in range(n)]
            tars(d, names, ids)
            by = dict(zip(names, ids))
            ratios = c.get("ratios") or [r for r in itertools.product(range(4), repeat=c["m"]) if sum(r)]
            for r in ratios:
                for seed in (None, 42, 7):
                    parts = [f"p{i}" for i in range(len(r))] if c["kind"] == "nsplits" else SPLITS
                    prepare(d, names, split_parts_ratio=list(zip(parts, r)), shuffle_seed=seed)
                    info, sp = meta(d)
                    res.evals += 1
                    sig = f"{n}:{r}:{seed}"
                    res.key((n, r, seed, [len(v) for v in sp.values()]))
                    if info != {k: len(v) for k, v in by.items()}:
                        res.bad(f"counts:{sig}", info)
                    allof = [s for p in parts for s in sp.get(p, [])]
                    if (allof if seed is None else sorted(allof)) != names or set(sp) != set(parts):
                        res.bad(f"partition:{sig}", dict(splits=sp))
                    for p, x in zip(parts, r):
                        k = len(sp.get(p, []))
                        if abs(k - n * x / sum(r)) >= 1 or (x == 0 and k):
                            res.bad(f"share:{sig}:{p}", dict(want=n * x / sum(r), got=k))
                    if n <= 4:
                        check_loads(d, by, sig)
            res.sample = dict(n=n, last=str(sp))
        elif c["kind"] == "bad":
            # o good, e empty tar, c not a tar, t truncated, h missing file
            ids = ids_for([2, 2, 2])
            names = [f"shard_{i}.tar" for i in range(3)]
            tars(d, names, ids)
            for n, k in zip(names, c["kinds"]):
                p = f"{d}/{n}"
                if k == "e":
                    write_tar(p, [])
                elif k == "c":
                    open(p, "wb").write(b"this is not a tar file" * 100)
                elif k == "t":
                    b = open(p, "rb").read()
                    open(p, "wb").write(b[: 512 * 3 + 4])
                elif k == "h":
                    os.remove(p)
            prepare(d, names, split_parts_ratio=[("train", 1), ("val", 1), ("test", 1)], shuffle_seed=None)
            info, sp = meta(d)
            res.evals += 1
            res.key(c["kinds"])
            want = {n: 2 for n, k in zip(names, c["kinds"]) if k == "o"}
            if info != want or [s for p in SPLITS for s in sp[p]] != list(want):
                res.bad(f"bad-shards:{c['kinds']}", dict(info=info, splits=sp))
            check_loads(d, dict(zip(names, ids)), c["kinds"])
            left = [f for f in os.listdir(d) if f.endswith(".tmp")]
            idx = sorted(f for f in os.listdir(d) if f.endswith(".idx"))
            if left or any(n[:-4] + ".tar.idx" not in idx for n in want) or any(f"shard_{i}.tar.idx" in idx for i, k in enumerate(c["kinds"]) if k in "cth"):
                res.bad(f"index-files:{c['kinds']}", dict(files=sorted(os.listdir(d))))
            res.sample = dict(kinds=c["kinds"])
        elif c["kind"] == "damage":
            # a tar cut or damaged anywhere: it is left out, or everything that is listed is delivered
            yaml_dump(text_yaml(), f"{d}/.nv-meta/dataset.yaml")
            mem = []
            for i, ch in enumerate(c["word"]):
                for j in range(int(ch)):
                    mem.append(member(f"s{i}.{'txt' if j == 0 else f'e{j}'}", f"text s{i}".encode() * (80 if i == 1 else 1)))
            offs, end = write_tar(f"{d}/a.tar", mem)
            good = open(f"{d}/a.tar", "rb").read()
            full = [(f"a.tar/s{i}", "text s%d" % i * (80 if i == 1 else 1)) for i in range(len(c["word"]))]
            dmg = [("cut", k) for k in range(0, len(good), c["step"])] + [("flip", k) for o in offs for k in (o, o + 100, o + 124, o + 148, o + 156, o + 257)] + [("zero", o) for o in offs]
            for what, k in dmg[c["part"] :: 4]:
                b = good[:k] if what == "cut" else good[:k] + (b"\0" * 512 if what == "zero" else bytes([good[k] ^ 0x11])) + good[k + (512 if what == "zero" else 1) :]
                open(f"{d}/a.tar", "wb").write(b)
                for f in ("a.tar.idx",):
                    if os.path.exists(f"{d}/{f}"):
                        os.remove(f"{d}/{f}")
                prepare(d, ["a.tar"], split_parts_ratio=[("train", 1)], shuffle_seed=None)
                info, sp = meta(d)
                res.evals += 1
                res.key((c["word"], what, k, str(info)))
                sig = f"{c['word']}:{what}:{k}"
                if not info:
                    if any(sp.values()):
                        res.bad(f"damage-listed:{sig}", sp)
                    continue
                for W in (0, 2):
                    try:
                        got = load(d, "train", W)
                    except Exception as ex:
                        got = repr(ex)
                    if isinstance(got, str) or len(got) != info["a.tar"]:
                        res.bad(f"damage-undeliverable:{sig}:{W}", dict(info=info, got=got))
                    elif what != "flip" and [x for x in got if x not in full]:
                        res.bad(f"damage-content:{sig}:{W}", dict(got=str(got)[:500]))
            res.sample = dict(damages=len(dmg))
        elif c["kind"] == "patterns":
            names = ["train/a_0.tar", "train/a_1.tar", "val/a_0.tar", "val/b-1.tar", "x/train_0.tar", "t0.tar"]
            ids = ids_for([1, 2, 1, 1, 2, 1])
            tars(d, names, ids)
            by = dict(zip(names, ids))
            pats = {"train/.*": [0, 1], "train/a_{0..1}.tar": [0, 1], "{train,x}/.*_0.*": [0, 4], ".*_0.*": [0, 2, 4], "val/b-.*": [3], "t.*": [0, 1, 5], ".*": list(range(6)), "none": [], "{t0,val/a_0}.*": [2, 5], "val/a_1.*": []}
            for a, b in itertools.product(pats, repeat=2):
                for via in ("api", "cli"):
                    if via == "api":
                        prepare(d, names, split_parts_patterns=[("train", a), ("val", b)])
                    else:
                        from click.testing import CliRunner
                        from megatron.energon.tools.prepare import command

                        for f in ("/.nv-meta/.info.yaml", "/.nv-meta/split.yaml"):
                            os.remove(d + f)
                        os.rename(f"{d}/.nv-meta/dataset.yaml", f"{d}/dataset.yaml.keep")
                        with inline_pool():
                            r = CliRunner().invoke(command, [d, "--no-progress", "--num-workers", "1", "--split-parts", f"train:{a}", "--split-parts", f"val:{b}"], input="n\n")
                        os.rename(f"{d}/dataset.yaml.keep", f"{d}/.nv-meta/dataset.yaml")
                        if r.exit_code:
                            res.bad(f"pattern-cli:{a}:{b}", r.output[-500:] + repr(r.exception))
                            continue
                    info, sp = meta(d)
                    res.evals += 1
                    res.key((a, b, via))
                    order = names if via == "api" else sorted(names)
                    want = {"train": sorted((names[i] for i in pats[a]), key=order.index), "val": sorted((names[i] for i in pats[b]), key=order.index)}
                    if sp != want or info != {k: len(v) for k, v in by.items()}:
                        res.bad(f"pattern:{a}:{b}:{via}", dict(want=want, got=sp))
                    if a == b or via == "cli":
                        check_loads(d, by, f"pattern:{a}:{b}:{via}")
            res.sample = dict(patterns=len(pats))
        elif c["kind"] == "cli":
            from click.testing import CliRunner
            from megatron.energon.tools.prepare import command

            names = ["a/s0.tar", "a/s1.tar", "b/s0.tar", "b/deep/er/s10.tar", "s2.tar", "s11.tar", "not_a_tar.txt"]
            ids = ids_for([1, 2, 1, 3, 1, 1])
            excl = {None: set(), "a/": {"a/s0.tar", "a/s1.tar"}, "s1": {"a/s1.tar", "b/deep/er/s10.tar", "s11.tar"}, "^s": {"s2.tar", "s11.tar"}, "er/s": {"b/deep/er/s10.tar"}, ".*": set(names)}
            for e, gone in excl.items():
                for ans in ("1,1,1", "1, 0, 0", "0.5,0.25,0.25", "8,1,1"):
                    root = f"{d}/{len(os.listdir(d))}"
                    tars(root, names[:-1], ids)
                    os.remove(f"{root}/.nv-meta/dataset.yaml")
                    open(f"{root}/not_a_tar.txt", "w").write("x")
                    args = [root, "--no-progress", "--num-workers", "1"] + (["--exclude", e] if e else []) + (["--shuffle-tars"] if c["shuffle"] else [])
                    with inline_pool():
                        r = CliRunner().invoke(command, args, input=f"{ans}\nn\n")
                    res.evals += 1
                    sig = f"cli:{e}:{ans}:{c['shuffle']}"
                    res.key(sig)
                    want = sorted(n for n in names[:-1] if n not in gone)
                    if not want:
                        if os.path.exists(f"{root}/.nv-meta/split.yaml"):
                            res.bad(sig, "prepared nothing, but wrote a config")
                        continue
                    if r.exit_code:
                        res.bad(sig, r.output[-600:] + repr(r.exception))
                        continue
                    info, sp = meta(root)
                    by = dict(zip(names, ids))
                    got = [s for p in SPLITS for s in sp[p]]
                    if (sorted(got) if c["shuffle"] else got) != want or info != {k: len(by[k]) for k in want}:
                        res.bad(sig, dict(want=want, got=sp, info=info))
                    yaml_dump(text_yaml(), f"{root}/.nv-meta/dataset.yaml")
                    check_loads(root, by, sig)
                    # regenerating the index changes nothing
                    from lib.fsrec import snapshot

                    before = snapshot(root)
                    for x in want[::2]:
                        os.remove(f"{root}/{x[:-4]}.tar.idx")
                    with inline_pool():
                        r = CliRunner().invoke(command, [root, "--no-progress", "--num-workers", "1", "--tar-index-only"])
                    if r.exit_code or snapshot(root) != before:
                        res.bad(f"reindex:{sig}", r.output[-500:] + repr(r.exception))
            res.sample = dict(excludes=len(excl))
        elif c["kind"] == "wizard":
            # the interactively created dataset.yaml maps the fields as answered
            from click.testing import CliRunner
            from megatron.energon import load_dataset
            from megatron.energon.tools.prepare import command

            parts = {"txt": b"the text", "cap": b"the caption", "json": b'{"a": {"b": "in json"}}'}
            root = f"{d}/ds"
            write_tar(f"{root}/x.tar", [member(f"k{i}.{e}", v) for i in range(3) for e, v in parts.items()])
            with inline_pool():
                r = CliRunner().invoke(command, [root, "--no-progress", "--num-workers", "1"], input="1,0,0\ny\n9999\n")
            choice = dict((b, a) for a, b in re.findall(r"^(\d+)\. (.*)$", r.output, re.M))
            opts = {"txt": "the text", "json[a][b]": "in json", "cap,txt": None, "txt,cap": "the text", "nope\ntxt": "the text"}
            for first, want in opts.items():
                import shutil

                shutil.rmtree(f"{root}/.nv-meta")
                with inline_pool():
                    r = CliRunner().invoke(command, [root, "--no-progress", "--num-workers", "1"], input=f"1,0,0\ny\n{choice['TextSample']}\ny\n{first}\n")
                res.evals += 1
                res.key(first)
                try:
                    got = load(root, "train")
                except Exception as ex:
                    got = repr(ex) + r.output[-300:]
                if want is not None and got != [(f"x.tar/k{i}", want) for i in range(3)]:
                    res.bad(f"wizard:{first}", dict(got=str(got), out=r.output[-600:], exc=repr(r.exception)))
            res.sample = dict(answers=list(opts))
        else:
            # the real pool
            names = [f"shard_{i}.tar" for i in range(7)]
            ids = ids_for([3, 0, 1, 2, 5, 1, 2])
            tars(d, names, ids)
            want = {n: len(i) for n, i in zip(names, ids) if i}
            for workers in (1, 2, 3, 8):
                parts = prepare(d, names, inline=False, workers=workers, split_parts_ratio=[("train", 2), ("val", 1), ("test", 0)], shuffle_seed=None)
                info, sp = meta(d)
                res.evals += 1
                res.key(workers)
                if info != want or sp != {"train": list(want)[:4], "val": list(want)[4:], "test": []} or parts != {"txt"}:
                    res.bad(f"pool:{workers}", dict(info=info, splits=sp, parts=str(parts)))
                check_loads(d, dict(zip(names, ids)), f"pool:{workers}")
            res.sample = dict(workers=[1, 2, 3, 8])
    return res


if __name__ == "__main__":
    main(
        "C23",
        "exploration",
        cases,
        run_case,
        case_timeout=300,
        rule="all shard counts x ratio triples x shuffling; all assignments of good/empty/corrupt/truncated/missing to three shards; every cut (on a grid) and header damage of a tar; all pairs of patterns (API and command line); all excludes x answers on the command line; distinct = distinct (input, outcome)",
    )
