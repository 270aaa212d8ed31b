"""C15: tar files of any layout: index, sample grouping, sub-range reading, resuming, random access."""
import itertools
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import Res, main  # noqa

# member kinds: n new sample, c further part of the last sample, r back to the first sample's name,
# d directory, l symlink, m/M meta entry, x file without extension, L new sample with a long name,
# z empty file, b exactly one block, p several dots, s in a folder, D in a folder with a dot,
# u non-ascii name
ALPHA = "ncrdlmMxLzbpsDu"
SMALL = "ncrdmxLz"


def words(tier):
    out = []
    for n in (1, 2, 3):
        out += ["".join(w) for w in itertools.product(ALPHA, repeat=n)]
    a4 = "ncrdmL" if tier == "quick" else SMALL
    out += ["".join(w) for w in itertools.product(a4, repeat=4)]
    a5 = "ncd" if tier == "quick" else "ncrdL"
    out += ["".join(w) for w in itertools.product(a5, repeat=5)]
    return out


def cases(tier):
    ws = words(tier)
    out = []
    for i in range(0, len(ws), 40):
        out.append(dict(kind="layout", words=ws[i : i + 40], fmt="pax"))
    lw = [w for w in ws if set(w) & set("Lu") and len(w) <= 3]
    for i in range(0, len(lw), 40):
        out.append(dict(kind="layout", words=lw[i : i + 40], fmt="gnu"))
    # several shards, every subset of samples excluded, restricted parts
    for ws2 in (("ncn", "nn"), ("nnn", "ncc"), ("ncdn", "mnxn"), ("Ln", "nc")):
        out.append(dict(kind="exclude", words=ws2))
        out.append(dict(kind="parts", words=ws2))
    for ws2 in (("nccn",), ("ncn", "n"), ("mnc", "cnx")):
        out.append(dict(kind="parts", words=ws2))
    out.append(dict(kind="reader"))
    return out


def members_of(word, shard):
    """-> [(member, base|None, ext, data)] built from the tokens"""
    from lib.disk import member

    out = []
    first = last = None
    for i, t in enumerate(word):
        data = f"{shard}.{i}.{t}".encode()
        new = f"{'abcdefgh'[i]}{shard}{i}"
        base, ext, m = None, None, None
        if t == "n":
            base, ext = new, "txt"
        elif t == "c":
            base, ext = last or new, f"e{i}"
        elif t == "r":
            base, ext = first or new, f"r{i}"
        elif t == "d":
            m = member(f"dir{i}", kind="dir")
        elif t == "l":
            m = member(f"{last or new}.lnk", kind="link")
        elif t == "m":
            m = member("__meta__", data)
        elif t == "M":
            m = member(f"__m{i}__/{new}.txt", data)
        elif t == "x":
            m = member(f"noext{i}", data)
        elif t == "L":
            base, ext = "l" * 120 + new, "txt"
        elif t == "z":
            base, ext, data = new, "txt", b""
        elif t == "b":
            base, ext, data = new, "bin", data + b"x" * (512 - len(data))
        elif t == "p":
            base, ext = new, "seg.json"
        elif t == "s":
            base, ext = f"sub/{new}", "txt"
        elif t == "D":
            base, ext = f"v1.0/{new}", "txt"
        elif t == "u":
            base, ext = f"{new}\u00e4\u4e16", "txt"
        if m is None:
            m = member(f"{base}.{ext}", data)
            if first is None:
                first = base
            last = base
        out.append((m, base, ext, data))
    return out


def samples_of(mem):
    """consecutive members of one base name form a sample -> [(base, {ext: data}, member index)]"""
    out = []
    for i, (_, base, ext, data) in enumerate(mem):
        if base is None:
            continue
        if not out or out[-1][0] != base:
            out.append((base, {}, i))
        out[-1][1][ext] = data
    return out


def run_case(c):
    import tarfile
    import struct

    from lib import crude
    from lib.core import reset_globals
    from lib.disk import Scratch, crude_yaml, write_tar, yaml_dump
    from lib.run import wconf
    from lib.wk import enter, pull
    from megatron.energon.epathlib import EPath

    res = Res()
    fmt = tarfile.GNU_FORMAT if c.get("fmt") == "gnu" else tarfile.PAX_FORMAT

    def setup(d, ws, yaml=None):
        """writes the tars + runs the real prepare; returns expected samples per shard"""
        exp, names = [], []
        for k, w in enumerate(ws):
            mem = members_of(w, k)
            name = f"shard_{k}.tar"
            offs, end = write_tar(f"{d}/{name}", [m for m, *_ in mem], fmt)
            smp = samples_of(mem)
            exp.append([(b, parts) for b, parts, _ in smp])
            names.append(name)
            want = [offs[i] for *_, i in smp] + [end]
            exp[-1] = (exp[-1], want)
        found = crude.prepare(d, names)
        for (smp, want), name, w in zip(exp, names, ws):
            idx = f"{d}/{name}.idx"
            raw = open(idx, "rb").read() if os.path.exists(idx) else b""
            got = [struct.unpack("<Q", raw[i : i + 8])[0] for i in range(0, len(raw), 8)]
            if got != want:
                res.bad(f"index:{w}", dict(word=w, expected=want, got=got))
            if os.path.exists(f"{d}/{name}.idx.tmp"):
                res.bad(f"index-tmp-left:{w}", w)
        parts = {e for (smp, _) in exp for _, p in smp for e in p}
        if found != parts:
            res.bad(f"parts:{ws}", dict(expected=sorted(parts), got=sorted(found)))
        import yaml as _y

        info = _y.safe_load(open(f"{d}/.nv-meta/.info.yaml"))
        wantc = {n: len(smp) for (smp, _), n in zip(exp, names) if smp}
        if info["shard_counts"] != wantc:
            res.bad(f"counts:{ws}", dict(expected=wantc, got=info))
        yaml_dump(yaml or crude_yaml(auto_decode=False), f"{d}/.nv-meta/dataset.yaml")
        return [(f"shard_{k}.tar/{b}", tuple(sorted(p.items())), ("shard_%d.tar" % k, j)) for k, (smp, _) in enumerate(exp) for j, (b, p) in enumerate(smp)]

    def norm(s):
        return (s.__key__, s.v, find(s.__restore_key__))

    def find(rk):
        # ("...", (..."Webdataset", shard, index))
        flat = list(rk)
        i = flat.index("Webdataset")
        return tuple(flat[i + 1 : i + 3])

    def check(tag, expected, got):
        got = [norm(s) for s in got]
        if got != expected:
            res.bad(tag, dict(expected=repr(expected)[:700], got=repr(got)[:700]))
            return False
        return True

    def workers(make, n):
        outs = []
        for w in range(max(1, n)):
            reset_globals()
            wc = wconf(0, 1, n)
            ds = make(wc)
            enter(w, n)
            try:
                outs.append(pull(ds, wc))
            finally:
                enter(0, 0)
        reset_globals()
        return outs

    if c["kind"] == "layout":
        for w in c["words"]:
            with Scratch() as d:
                exp = setup(d, [w])
                res.key((w, c["fmt"]))
                res.states += 1
                if not exp or res.viol:
                    if res.viol:
                        return res
                    continue
                N = len(exp)
                if not check(f"read:{c['fmt']}:{w}", exp, workers(lambda wc: crude.val(d, wc), 0)[0]):
                    return res
                # sub-ranges: contiguous shares of 2 and N workers
                for n in {2, N} - {1}:
                    outs = workers(lambda wc: crude.val(d, wc), n)
                    res.evals += n
                    if not check(f"read:{c['fmt']}:{w}:workers{n}", exp, [s for o in outs for s in o]):
                        return res
                # resume at every position (sub-range starting at a byte position)
                from megatron.energon.savable_loader import SavableDataLoader

                for k in range(1, N):
                    reset_globals()
                    ld = SavableDataLoader(crude.val(d, wconf()))
                    it = iter(ld)
                    head = [next(it) for _ in range(k)]
                    st = ld.save_state()
                    ld2 = SavableDataLoader(crude.val(d, wconf()))
                    ld2.restore_state(st)
                    res.evals += 2
                    if not check(f"resume:{c['fmt']}:{w}:{k}", exp, head + list(ld2)):
                        return res
                # random access by key
                ld = SavableDataLoader(crude.val(d, wconf()))
                for s in list(ld):
                    reset_globals()
                    r = SavableDataLoader(crude.val(d, wconf())).restore_sample(s.__restore_key__)
                    res.evals += 1
                    if norm(r) != norm(s):
                        res.bad(f"random-access:{c['fmt']}:{w}", dict(key=s.__restore_key__, expected=repr(norm(s)), got=repr(norm(r))))
                        return res
                res.validated += 1
                res.sample = dict(word=w, samples=[e[0] for e in exp])
        return res

    ws = c["words"] if "words" in c else None
    if c["kind"] == "exclude":
        with Scratch() as d:
            exp = setup(d, ws)
            import yaml as _y

            sp = f"{d}/.nv-meta/split.yaml"
            split = _y.safe_load(open(sp))
            N = len(exp)
            keys = sorted({e[0] for e in exp})
            for mask in itertools.product((0, 1), repeat=len(keys)):
                ex = [k for k, m in zip(keys, mask) if m]
                left = [e for e in exp if e[0] not in ex]
                yaml_dump(dict(split, exclude=ex), sp)
                res.states += 1
                for n in (0, 2, 3):
                    outs = workers(lambda wc: crude.val(d, wc), n)
                    res.evals += max(1, n)
                    if not check(f"exclude:{ws}:{ex}:{n}", left, [s for o in outs for s in o]):
                        return res
                from megatron.energon.savable_loader import SavableDataLoader

                reset_globals()
                for s in list(SavableDataLoader(crude.val(d, wconf()))):
                    reset_globals()
                    r = SavableDataLoader(crude.val(d, wconf())).restore_sample(s.__restore_key__)
                    res.evals += 1
                    if norm(r) != norm(s):
                        res.bad(f"exclude-random-access:{ws}:{ex}", dict(key=s.__restore_key__))
                        return res
                if left:
                    wc = wconf()
                    reset_globals()
                    ds = crude.train(d, wc, max_samples_per_sequence=1, parallel_shard_iters=2)
                    got = pull(ds, wc, max_samples=len(left))
                    res.evals += 1
                    if sorted(norm(s) for s in got) != sorted(left):
                        res.bad(f"exclude-train:{ws}:{ex}", dict(expected=left, got=[norm(s) for s in got]))
                        return res
                res.key((tuple(ws), mask))
            # a whole shard excluded (also by brace pattern)
            for ex, gone in ((["shard_0.tar"], "shard_0.tar/"), (["shard_{1..1}.tar"], "shard_1.tar/")):
                yaml_dump(dict(split, exclude=ex), sp)
                left = [e for e in exp if not e[0].startswith(gone)]
                if not check(f"exclude-shard:{ws}:{ex}", left, workers(lambda wc: crude.val(d, wc), 0)[0]):
                    return res
            # brace patterns in the split part
            yaml_dump({"split_parts": {"train": ["shard_{0..1}.tar"]}, "exclude": []}, sp)
            if not check(f"brace:{ws}", exp, workers(lambda wc: crude.val(d, wc), 0)[0]):
                return res
        return res

    if c["kind"] == "parts":
        with Scratch() as d:
            exp = setup(d, ws)
            allparts = sorted({k for _, v, _ in exp for k, _ in v})
            for mask in itertools.product((0, 1), repeat=len(allparts)):
                keep = [p for p, m in zip(allparts, mask) if m]
                yaml_dump(crude_yaml(auto_decode=False, part_filter=keep), f"{d}/.nv-meta/dataset.yaml")
                want = [(k, tuple(x for x in v if x[0] in keep), r) for k, v, r in exp]
                res.states += 1
                for n in (0, 2):
                    outs = workers(lambda wc: crude.val(d, wc), n)
                    res.evals += max(1, n)
                    if not check(f"parts:{ws}:{keep}:{n}", want, [s for o in outs for s in o]):
                        return res
                res.key((tuple(ws), mask))
        return res

    # the index reader itself
    from megatron.energon.flavors.webdataset.itar import TarIndexReader

    for w in ("n", "nn", "ncn", "mnLdn"):
        with Scratch() as d:
            mem = members_of(w, 0)
            offs, end = write_tar(f"{d}/a.tar", [m for m, *_ in mem])
            crude.prepare(d, ["a.tar"])
            want = [offs[i] for *_, i in samples_of(mem)] + [end]
            with TarIndexReader(EPath(f"{d}/a.tar")) as r:
                if [r[i] for i in range(len(r))] != want:
                    res.bad(f"reader:{w}", dict(expected=want, got=[r[i] for i in range(len(r))]))
                for i in (-1, len(want), len(want) + 1):
                    try:
                        r[i]
                    except IndexError:
                        pass
                    else:
                        res.bad(f"reader-range:{w}:{i}", "no IndexError")
            res.key(w)
            res.evals += 1
    return res


if __name__ == "__main__":
    main(
        "C15",
        "exploration",
        cases,
        run_case,
        case_timeout=200,
        rule="every word of tar member kinds up to the bound: index of the real prepare equals the offsets of an independent tar writer; contents read as a whole, by sub-ranges of workers, after a resume at each sample and by key equal the written ones; every subset of excluded samples and of loaded parts",
    )
