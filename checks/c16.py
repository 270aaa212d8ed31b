"""C16: preparing a dataset is crash safe: at every moment readers see the old or the new dataset, or none."""
import contextlib
import io
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import Res, main  # noqa

RATIO_A = [("train", 0.5), ("val", 0.5), ("test", 0)]
RATIO_B = [("train", 1), ("val", 0), ("test", 1)]
# (name, shard sizes, what was done before, what is done now)
SCEN = [
    ("first", [2, 3], None, dict(ratio="A")),
    ("first-pattern", [1, 2], None, dict(pattern=1)),
    ("resplit", [2, 3], dict(ratio="A"), dict(ratio="B")),
    ("resplit3", [2, 1, 3], dict(ratio="A"), dict(ratio="B")),
    ("reindex", [2, 3], dict(ratio="A"), dict(index_only=1)),
    ("add", [2, 2, 1], dict(ratio="A", only=2), dict(ratio="A")),
    ("remove", [2, 2, 1], dict(ratio="B"), dict(ratio="B", only=2)),
    ("noindex", [2, 3], dict(ratio="A", drop_index=1), dict(index_only=1)),
    ("many", [1] * 40, dict(ratio="A"), dict(ratio="B")),
]
SPLITS = ("train", "val", "test")


def cases(tier):
    out = []
    for i, s in enumerate(SCEN):
        n = 16 if tier == "quick" else 64
        for part in range(n):
            out.append(dict(kind="crash", scen=i, part=part, parts=n, dense=tier != "quick"))
        out.append(dict(kind="fault", scen=i))
    return out


def run_case(c):
    from lib.crude import inline_pool
    from lib.disk import Scratch, ids_for, make_ds, text_yaml, yaml_dump
    from lib import fsrec
    from lib.wk import streams
    from megatron.energon import TaskEncoder, get_val_dataset
    from megatron.energon.flavors.webdataset.prepare import WebdatasetPreparator

    res = Res()
    name, counts, before, now = SCEN[c["scen"]]
    names = [f"shard_{i:02d}.tar" for i in range(len(counts))]
    ids = ids_for(counts)

    def prepare(root, how):
        tars = names[: how.get("only", len(names))]
        kw = dict(split_parts_ratio=dict(A=RATIO_A, B=RATIO_B)[how.get("ratio", "A")], shuffle_seed=None)
        if how.get("pattern"):
            kw = dict(split_parts_patterns=[("train", "shard_00.*"), ("val", "shard_01.*")])
        with inline_pool(), contextlib.redirect_stderr(io.StringIO()):
            WebdatasetPreparator.prepare_dataset(root, tars, workers=1, tar_index_only=bool(how.get("index_only")), **kw)

    def load(root):
        """per split: the delivered keys or the exception"""
        out = []
        for sp in SPLITS:
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    st = streams(lambda wc: get_val_dataset(root, split_part=sp, worker_config=wc, batch_size=None, task_encoder=TaskEncoder()), 1, 2)
                out.append(tuple((s.__key__, s.text) for w in sorted(st) for s in st[w][0]))
            except Exception as ex:
                out.append(f"raised {type(ex).__name__}")
        return tuple(out)

    def fits(got, version):
        return all(g == v or isinstance(g, str) for g, v in zip(got, version))

    with Scratch() as d:
        root = f"{d}/ds"
        # the tar files and dataset.yaml as a user provides them
        make_ds(root, ids, names=names)
        for f in [f"{root}/.nv-meta/.info.yaml", f"{root}/.nv-meta/split.yaml"] + [f"{root}/{n[:-4]}.tar.idx" for n in names]:
            os.remove(f)
        versions = []
        if before:
            prepare(root, before)
            if before.get("drop_index"):
                os.remove(f"{root}/{names[1][:-4]}.tar.idx")
            else:
                versions.append(load(root))
        init = fsrec.snapshot(root)
        with fsrec.Recorder(root, f"{d}/log") as rec:
            prepare(root, now)
        ops = rec.ops()
        final = fsrec.snapshot(root)
        versions.append(load(root))
        # conformance: the recorded operations explain the final directory
        st = dict(init)
        for op in ops:
            fsrec.apply(st, op)
        if st != final:
            raise RuntimeError(f"recorded operations do not explain the result: {[k for k in set(st) | set(final) if st.get(k, 0) != final.get(k, 0)]} {[o[:2] for o in ops]}")
        res.validated += 1

        if c["kind"] == "crash":
            tears = (lambda n: range(1, n)) if c["dense"] or len(counts) <= 3 else (lambda n: sorted({1, n // 2, n - 1} | {8 * i for i in range(1, min(n // 8, 6))}))
            # the shards are indexed in parallel: every combination of their progress
            per, rest = {}, []
            for op in ops:
                sh = [n for n in names if op[1] and os.path.basename(op[1]).startswith(n[:-4] + ".")]
                if sh:
                    per.setdefault(sh[0], []).append(op)
                else:
                    rest.append(op)
            states = []
            if len(per) <= 3:
                combos = itertools.product(*[fsrec.prefixes(o, tears if len(per) < 3 else (lambda n: {1, n // 2, 8, n - 1})) for o in per.values()])
            else:
                full = [(len(o), None) for o in per.values()]
                zero = [(0, None)] * len(per)
                combos = []
                for i, o in enumerate(per.values()):
                    for p in fsrec.prefixes(o, tears):
                        combos += [full[:i] + [p] + zero[i + 1 :], zero[:i] + [p] + full[i + 1 :]]
            for combo in combos:
                states.append((combo, (0, None)))
            for p in fsrec.prefixes(rest, tears):
                states.append(([(len(o), None) for o in per.values()], p))
            seen = set()
            for n, (combo, (k, tear)) in enumerate(states):
                if n % c["parts"] != c["part"]:
                    continue
                st = dict(init)

                def advance(seq, k, tear):
                    for op in seq[:k]:
                        fsrec.apply(st, op)
                    if tear is not None:
                        fsrec.apply(st, seq[k], tear)

                for seq, p in zip(per.values(), combo):
                    advance(seq, *p)
                advance(rest, k, tear)
                key = repr(sorted((p, v) for p, v in st.items() if not p.endswith(".tar")))
                res.evals += 1
                if key in seen:
                    continue
                seen.add(key)
                res.key((name, key))
                fsrec.write_tree(root, st)
                got = load(root)
                sig = f"{name}:{combo if len(per) <= 3 else ''}:{k}:{tear}"
                if not any(fits(got, v) for v in versions):
                    res.bad(f"crash:{sig}", dict(got=str(got)[:500], versions=str(versions)[:700], last=str(rest[k - 1][:2] if k else None)))
                    continue
                # nothing is needed to recover but to run it again
                prepare(root, now)
                got = load(root)
                if got != versions[-1]:
                    res.bad(f"recover:{sig}", dict(got=str(got)[:500], want=str(versions[-1])[:500]))
            res.states = len(seen)
            res.sample = dict(scenario=name, ops=[o[:2] for o in ops][:12], states=len(states))
        else:
            import yaml

            for k in range(len(ops)):
                for persistent in (0, 1):
                    fsrec.write_tree(root, init)
                    n = [0]

                    def fail(op):
                        if op[0] in ("unlink", "rmdir"):
                            return False
                        n[0] += 1
                        return n[0] - 1 == k or (persistent and n[0] - 1 > k)

                    raised = None
                    with fsrec.Recorder(root, f"{d}/log2", fail=fail):
                        try:
                            prepare(root, now)
                        except Exception as ex:
                            raised = ex
                    res.evals += 1
                    got = load(root)
                    res.key((name, k, persistent))
                    sig = f"{name}:{k}:{persistent}"
                    if any(fits(got, v) for v in versions) and (raised is not None or got in versions):
                        continue
                    if raised is not None:
                        res.bad(f"fault:{sig}", dict(raised=repr(raised), got=str(got)[:400], versions=str(versions)[:600]))
                        continue
                    # success was reported: the shards it lists must all be usable
                    if now.get("index_only"):
                        continue
                    sp = yaml.safe_load(open(f"{root}/.nv-meta/split.yaml"))["split_parts"]
                    for part, g in zip(SPLITS, got):
                        shards = sp.get(part) or []
                        want = tuple((f"{s}/{i}", f"{i}:txt") for s in shards for i in ids[names.index(s)])
                        if shards and g != want:
                            res.bad(f"fault-listed:{sig}:{part}", dict(shards=shards, got=str(g)[:300]))
            res.sample = dict(scenario=name, faults=len(ops))
    return res


if __name__ == "__main__":
    main(
        "C16",
        "fault_enumeration",
        cases,
        run_case,
        case_timeout=600,
        rule="every crash point of preparing (first, again, after adding/removing shards, index only): all combinations of the progress of the parallel shards, every write torn at every byte, then every point of writing the metadata; every single and every lasting write failure; distinct = distinct directory contents",
        assumptions=["operations of one process reach the file system in program order and rename is atomic (a process crash, not a power loss with reordering)"],
    )
