"""C18: joined datasets deliver, for every key, the matching samples of all columns - or fail loudly."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import Res, main  # noqa

LAYOUTS = [(1, 0), (1, 1), (1, 2), (2, 0), (2, 2), (1, 3), (3, 1)]
KINDS = ("list-type", "dict-type", "list-fn", "list-dict", "default")


def cases(tier):
    out = []
    M = 3 if tier == "quick" else 5
    vecs = [list(v) for n in (1, 2, 3) for v in itertools.product(range(M + 1), repeat=n) if sum(v)]
    if tier == "quick":
        vecs = [v for v in vecs if len(v) < 3 or max(v) <= 2]
    for v in vecs:
        for cols in (2, 3):
            out.append(dict(kind="match", counts=v, cols=cols))
    for n in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
        for cols in (2, 3):
            for col in range(cols):
                for handler in (0, 1):
                    out.append(dict(kind="mismatch", n=n, cols=cols, col=col, handler=handler))
    out.append(dict(kind="structure"))
    out.append(dict(kind="exclude"))
    return out


def pay(col):
    def f(s, e):
        return (f"{s}:{col}:" + "x" * ((int(s[1:]) * 197 + col * 311) % 1500)).encode()

    return f


def joiner(kind):
    m = dict(__module__="lib.joiners")
    if kind in ("list-type", "dict-type"):
        return dict(m, __class__="JoinedText")
    if kind == "list-fn":
        return dict(m, __function__="as_sample")
    if kind == "list-dict":
        return dict(m, __function__="as_dict")
    return dict(m, __class__="Two")


OTHER = {"__module__": "megatron.energon", "__class__": "StandardWebdatasetFactory", "sample_type": {"__module__": "lib.joiners", "__class__": "Other"}, "field_map": {"other": "txt"}}


def write_meta(d, kind, cols, names):
    from lib.disk import yaml_dump

    refs = [dict(path=f"c{i}") for i in range(cols)]
    if kind == "dict-type":
        keys = ["pic", "cap", "meta"]
        refs = {keys[i]: r for i, r in enumerate(refs)}
    sp = dict(join=refs, joiner=joiner(kind))
    p = f"{d}/m-{kind}.yaml"
    yaml_dump({"__module__": "megatron.energon", "__class__": "MetadatasetV2", "splits": {"train": sp, "val": sp}}, p)
    return p


def cols_of(s, kind):
    if kind == "default":
        return (s.text, s.other)
    c = s["cols"] if isinstance(s, dict) else s.cols
    return tuple(v for _, v in sorted(c, key=lambda x: ["pic", "cap", "meta"].index(x[0]))) if kind == "dict-type" else c


def key_of(s):
    return s["__key__"] if isinstance(s, dict) else s.__key__


def run_case(c):
    from lib.disk import Scratch, ids_for, make_ds, member, write_index, write_tar, yaml_dump, text_yaml
    from lib.wk import streams
    from megatron.energon import TaskEncoder, get_train_dataset, get_val_dataset
    import contextlib
    import io

    res = Res()

    def load(path, wc, train, **kw):
        with contextlib.redirect_stdout(io.StringIO()):
            if train:
                return get_train_dataset(path, worker_config=wc, batch_size=None, shuffle_buffer_size=None, **{"max_samples_per_sequence": None, **kw}, task_encoder=TaskEncoder())
            return get_val_dataset(path, worker_config=wc, batch_size=None, task_encoder=TaskEncoder(), **kw)

    with Scratch() as d:
        if c["kind"] == "match":
            ids = ids_for(c["counts"])
            flat = [x for s in ids for x in s]
            shard_of = {x: i for i, s in enumerate(ids) for x in s}
            for i in range(c["cols"]):
                make_ds(f"{d}/c{i}", ids, pay=pay(i), exts=("txt",) if i != 1 else ("aux", "txt", "zzz"), dataset_yaml=OTHER if False else None)
            for kind in KINDS:
                if kind == "default":
                    if c["cols"] != 2:
                        continue
                    yaml_dump(OTHER, f"{d}/c1/.nv-meta/dataset.yaml")
                path = write_meta(d, kind, c["cols"], None)
                if kind == "default":
                    path = path
                want = {x: tuple(pay(i)(x, "txt").decode() for i in range(c["cols"])) for x in flat}
                for R, W in LAYOUTS:
                    for train, kw in ((0, {}), (1, {}), (1, dict(max_samples_per_sequence=2, parallel_shard_iters=2))):
                        if train and len(flat) < R * max(1, W):
                            continue
                        got = streams(lambda wc: load(path, wc, train, **kw), R, W, epochs=2 if not train else 1, max_samples=2 * len(flat))
                        res.evals += 1
                        res.key((c["counts"], c["cols"], kind, R, W, train))
                        first = []
                        sig = f"{kind}:{c['counts']}x{c['cols']}:{R}x{W}:{train}:{sorted(kw)}"
                        for w in sorted(got):
                            for e in got[w]:
                                for s in e:
                                    k = key_of(s).rsplit("/", 1)[-1]
                                    if cols_of(s, kind) != want.get(k):
                                        res.bad(f"mixed:{sig}", dict(key=key_of(s), want=str(want.get(k))[:200], got=str(cols_of(s, kind))[:200]))
                                    if key_of(s) != f"shard_{shard_of.get(k)}.tar/{k}":
                                        res.bad(f"key:{sig}", dict(key=key_of(s)))
                            if not train:
                                if [key_of(s) for s in got[w][0]] != [key_of(s) for s in got[w][1]]:
                                    res.bad(f"epochs-differ:{sig}", {})
                                first += [key_of(s).rsplit("/", 1)[-1] for s in got[w][0]]
                            else:
                                ks = [key_of(s).rsplit("/", 1)[-1] for s in got[w][0]]
                                first += sorted(set(ks))
                        if (sorted(first) if train else first) != flat:
                            res.bad(f"coverage:{sig}", dict(want=flat, got=first))
            res.sample = dict(counts=c["counts"])
        elif c["kind"] == "mismatch":
            n, cols, col = c["n"], c["cols"], c["col"]
            base = [f"s{i:03d}" for i in range(n)]
            muts = [("rename", i) for i in range(n)] + [("swap", i) for i in range(n - 1)] + [("shift", i) for i in range(n)] + [("dup", i) for i in range(n - 1)]
            for mut, i in muts:
                seqs = [list(base) for _ in range(cols)]
                s = seqs[col]
                if mut == "rename":
                    s[i] = "q999"
                elif mut == "swap":
                    s[i], s[i + 1] = s[i + 1], s[i]
                elif mut == "shift":
                    s.pop(i)
                    s.append("q998")
                elif mut == "dup":
                    s[i + 1 :] = [s[i + 1] + "b"] + s[i + 2 :]
                agree = 0
                while agree < n and len({q[agree] for q in seqs}) == 1:
                    agree += 1
                if agree == n:
                    continue
                for j in range(cols):
                    make_ds(f"{d}/c{j}", [seqs[j]], pay=lambda s, e, j=j: f"{s}:{j}".encode())
                path = write_meta(d, "list-type", cols, None)
                for W in (0, 2):
                    for train in (0, 1):
                        errors = []
                        kw = dict(handler=lambda e, k: errors.append(k)) if c["handler"] else {}
                        raised = None
                        out = []

                        def consume(wc):
                            return load(path, wc, train, **kw)

                        from lib.core import reset_globals
                        from lib.run import wconf
                        from lib.wk import enter

                        for w in range(max(1, W)):
                            reset_globals()
                            wc = wconf(0, 1, W)
                            ds = consume(wc)
                            enter(w, W)
                            mine = []
                            try:
                                it = iter(ds)
                                for k in range(3 * n):
                                    wc.worker_activate(k)
                                    try:
                                        mine.append(next(it))
                                    finally:
                                        wc.worker_deactivate()
                                    if train and c["handler"] and len(errors) > 2 * n:
                                        break
                            except StopIteration:
                                pass
                            except Exception as ex:
                                raised = ex
                            enter(0, 0)
                            out += mine
                        res.evals += 1
                        res.key((mut, i, n, cols, col, W, train))
                        sig = f"{mut}:{i}/{n}:col{col}/{cols}:W{W}:train{train}:h{c['handler']}"
                        for s in out:
                            ks = {x.split(":")[0] for x in s.cols if x is not None}
                            if len(ks) != 1 or None in s.cols or key_id(s) not in ks or len(s.cols) != cols:
                                res.bad(f"mis-joined:{sig}", dict(key=s.__key__, cols=str(s.cols)))
                        if not c["handler"] and raised is None:
                            res.bad(f"not-reported:{sig}", dict(out=[s.__key__ for s in out]))
                        if c["handler"] and not errors and raised is None:
                            res.bad(f"handler-not-called:{sig}", {})
                        if W == 0 and not train and [key_id(s) for s in out][:agree] != seqs[0][:agree]:
                            res.bad(f"lost-before:{sig}", dict(want=seqs[0][:agree], got=[key_id(s) for s in out]))
            res.sample = dict(n=n, cols=cols)
        elif c["kind"] == "structure":
            # columns whose shards do not correspond are refused when loading
            for a, b in itertools.product([list(v) for k in (1, 2, 3) for v in itertools.product(range(1, 4), repeat=k)], repeat=2):
                if len(a) == 3 and len(b) == 3 and (max(a) > 2 or max(b) > 2):
                    continue
                make_ds(f"{d}/c0", ids_for(a))
                make_ds(f"{d}/c1", ids_for(b))
                path = write_meta(d, "list-type", 2, None)
                for train in (0, 1):
                    from lib.core import reset_globals
                    from lib.run import wconf

                    reset_globals()
                    try:
                        load(path, wconf(), train)
                        ok = True
                    except Exception:
                        ok = False
                    res.evals += 1
                    res.key((a, b))
                    if ok != (a == b):
                        res.bad(f"structure:{a}:{b}:{train}", dict(accepted=ok))
                import shutil

                shutil.rmtree(f"{d}/c0")
                shutil.rmtree(f"{d}/c1")
            res.sample = dict(kind="structure")
        else:
            # the same excludes leave out the rows; different excludes are refused
            ids = ids_for([3, 2])
            allx = ["shard_0.tar", "shard_1.tar"] + [f"shard_{i}.tar/{j}" for i, n in ((0, 3), (1, 2)) for j in range(n)]
            exs = [()] + [tuple(x) for k in (1, 2) for x in itertools.combinations(["shard_0.tar/s000", "shard_0.tar/s001", "shard_0.tar/s002", "shard_1.tar/s003", "shard_1.tar"], k)]
            for e0, e1 in itertools.product(exs, repeat=2):
                make_ds(f"{d}/c0", ids, exclude=list(e0), pay=pay(0))
                make_ds(f"{d}/c1", ids, exclude=list(e1), pay=pay(1))
                path = write_meta(d, "list-type", 2, None)
                try:
                    got = streams(lambda wc: load(path, wc, 0), 1, 0)
                    out = [key_id(s) for s in got[(0, 0)][0]]
                    bad = [s for s in got[(0, 0)][0] if {x.split(":")[0] for x in s.cols} != {key_id(s)}]
                except Exception:
                    out, bad = None, []
                want = [x for x in ids[0] if f"shard_0.tar/{x}" not in e0] + [x for x in ids[1] if f"shard_1.tar/{x}" not in e0 and "shard_1.tar" not in e0]
                res.evals += 1
                res.key((e0, e1))
                if set(e0) == set(e1):
                    if out != want or bad:
                        res.bad(f"exclude:{e0}:{e1}", dict(want=want, got=out))
                elif out is not None and (bad or out != [x for x in want if x in {y for y in flat_keep(ids, e1)}]):
                    res.bad(f"exclude-mixed:{e0}:{e1}", dict(got=out, bad=str(bad)[:300]))
            res.sample = dict(n=len(exs))
    return res


def key_id(s):
    return s.__key__.rsplit("/", 1)[-1]


def flat_keep(ids, ex):
    return [x for i, s in enumerate(ids) for x in s if f"shard_{i}.tar" not in ex and f"shard_{i}.tar/{x}" not in ex]


if __name__ == "__main__":
    main(
        "C18",
        "exploration",
        cases,
        run_case,
        rule="all shard size vectors x columns x join kinds x layouts; every single disagreement between the columns at every position; all pairs of shard structures and exclude sets; distinct = distinct configurations",
    )
