"""C19: metadatasets of any nesting compose weights, splits, labels and epoch multipliers, or are refused."""
import itertools
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import Res, main  # noqa

SPLITS = ("train", "val", "other")
LEAVES = {"L0": None, "L1": {"a": "yaml", "y": 1}, "L2": {}}
# options of one reference
SPLIT = (None, "val")
SUBF = (None, "s")
SUBFS = (None, {"a": "@"}, {"b": "@", "y": "@"})
MULT = (None, 2, -1)
CALLS = (
    dict(),
    dict(subflavors={"a": "call", "c": 0}),
    dict(subflavor="call", shuffle_over_epochs_multiplier=3),
    dict(shuffle_over_epochs_multiplier=-1),
)


def ref_opts(level, sp, sf, sfs, mu):
    o = {}
    if sp is not None:
        o["split_part"] = sp
    if sf is not None:
        o["subflavor"] = f"{sf}{level}"
    if sfs is not None:
        o["subflavors"] = {k: f"{k}{level}" for k in sfs}
    if mu is not None:
        o["shuffle_over_epochs_multiplier"] = mu
    return o


ALL = list(itertools.product(SPLIT, SUBF, SUBFS, MULT))
SMALL = [(None, None, None, None), ("val", "s", None, 2), (None, "s", {"a": 1}, -1), ("val", None, {"b": 1, "y": 1}, None), (None, "s", {"b": 1, "y": 1}, 2)]


def cases(tier):
    out = []
    # one chain of references: file -> file -> leaf, all options on both levels
    for o0 in ALL:
        for shape in ("direct", "blend"):
            out.append(dict(kind="chain2", o0=o0, shape=shape, full=tier != "quick"))
    for o0 in SMALL if tier == "quick" else ALL:
        for o1 in SMALL if tier == "quick" else SMALL:
            out.append(dict(kind="chain3", o0=o0, o1=o1))
    for n in (1, 2, 3):
        for ws in itertools.product((None, 2, 0.5) if tier == "quick" else (None, 2, 0.5, 3), repeat=n):
            if tier == "quick" and n == 3 and len(set(ws)) < 2:
                continue
            out.append(dict(kind="tree", ws=ws))
    out.append(dict(kind="configs"))
    out.append(dict(kind="errors"))
    for part in range(6):
        out.append(dict(kind="join", part=part))
    out.append(dict(kind="deliver"))
    return out


# ---- reference semantics -------------------------------------------------
# node: dict(leaf=name) | dict(file=dict(split -> [ (weight, ref) ])) ; ref = dict(to=node, opts)
def ev(ref, split, sub, subs, mult):
    """-> [(leaf, split, config, split_config, subflavor, subflavors, mult, weight)]"""
    o = ref["o"]
    subs = {**o.get("subflavors", {}), **subs}
    sub = sub or o.get("subflavor")
    split = o.get("split_part") or split
    m = o.get("shuffle_over_epochs_multiplier", 1)
    mult = -1 if -1 in (m, mult) else m * mult
    to = ref["to"]
    if isinstance(to, str):
        base = LEAVES.get(to) or {}
        if o.get("dataset_config") == "alt.yaml":
            base = {"alt": True}
        return [(to, split, o.get("split_config", "split.yaml"), sub, {**base, **subs}, mult, 1.0)]
    return ev_file(to, split, sub, subs, mult)


def ev_file(f, split, sub, subs, mult):
    refs = f["splits"][split]
    total = sum(r["o"].get("weight", 1.0) for r in refs)
    return [
        (*x[:-1], x[-1] * r["o"].get("weight", 1.0) / total)
        for r in refs
        for x in ev(r, split, sub, subs, mult)
    ]


_n = itertools.count()


def dump(node, d, sub=""):
    """Writes a file node (recursively); returns its path relative to d/sub"""
    from lib.disk import yaml_dump

    i = next(_n)
    folder = node.get("dir", "")
    here = os.path.join(d, sub, folder)
    os.makedirs(here, exist_ok=True)
    rel_leaf = os.path.relpath(d, here)
    splits = {}
    for s, refs in node["splits"].items():
        lst = []
        for r in refs:
            if isinstance(r["to"], str):
                p = os.path.join(rel_leaf, r["to"])
                if r.get("abs"):
                    p = os.path.join(d, r["to"])
            else:
                p = dump(r["to"], d, os.path.join(sub, folder))
            lst.append({"path": p, **r["o"]})
        if node["v"] == 1:
            splits[s] = {"datasets": lst}
        elif node["shape"] == "direct" and len(lst) == 1:
            lst[0].pop("weight", None)
            splits[s] = lst[0]
        else:
            splits[s] = {"blend": lst}
    cls = {"__module__": "megatron.energon", "__class__": "Metadataset" if node["v"] == 1 else "MetadatasetV2"}
    if node.get("untyped"):
        cls = {}
    with open(os.path.join(here, f"m{i}.yaml"), "w") as f:
        json.dump({**cls, "splits": splits}, f)
    return os.path.join(folder, f"m{i}.yaml")


def leaves(d):
    from lib.disk import ids_for, make_ds, text_yaml, yaml_dump

    for name, subs in LEAVES.items():
        names = [f"{s}.tar" for s in SPLITS]
        y = text_yaml() if subs is None else text_yaml(subflavors=subs)
        make_ds(f"{d}/{name}", [[f"{name}-{s}-{i}" for i in range(2)] for s in SPLITS], names=names, splits={s: [f"{s}.tar"] for s in SPLITS}, dataset_yaml=y)
        yaml_dump({"split_parts": {"train": ["other.tar"], "val": ["train.tar"], "other": ["val.tar"]}, "exclude": []}, f"{d}/{name}/.nv-meta/split2.yaml")
        yaml_dump(text_yaml(subflavors={"alt": True}), f"{d}/{name}/.nv-meta/alt.yaml")


ROT = {"train": "other", "val": "train", "other": "val"}


def quiet():
    import contextlib
    import io

    return contextlib.redirect_stdout(io.StringIO())


def observe(path, split, call, samples=False, training=True):
    from lib.core import reset_globals
    from lib.run import wconf
    from megatron.energon.metadataset import load_dataset

    reset_globals()
    wc = wconf()
    call = json.loads(json.dumps(call))
    before = json.dumps(call, sort_keys=True)
    with quiet():
        ds = load_dataset(path).get_datasets(training=training, split_part=split, worker_config=wc, **call)
        out = []
        for f, w in ds:
            out.append((os.path.basename(str(f.paths[0])), [os.path.basename(s.name) for s in f.shards], f.subflavor, dict(f.subflavors), f.shuffle_over_epochs, w))
    return out, json.dumps(call, sort_keys=True) == before


def compare(res, sig, got, want):
    got, unchanged = got
    exp = []
    for leaf, split, sc, sub, subs, mult, w in want:
        s = ROT[split] if sc == "split2.yaml" else split
        exp.append((leaf, [f"{s}.tar"], sub, subs, mult, w))
    if not unchanged:
        res.bad(f"{sig}:args", "the caller's arguments were modified")
    if len(got) != len(exp):
        res.bad(f"{sig}:count", dict(want=exp, got=got))
        return
    for g, e in zip(got, exp):
        for i, nm in enumerate(("leaf", "split", "subflavor", "subflavors", "multiplier")):
            if g[i] != e[i]:
                res.bad(f"{sig}:{nm}", dict(want=e, got=g))
        if abs(g[5] - e[5]) > 1e-9:
            res.bad(f"{sig}:weight", dict(want=e, got=g))
    if abs(sum(g[5] for g in got) - 1) > 1e-9:
        res.bad(f"{sig}:weightsum", dict(got=got))


def file_node(refs, v=2, shape="blend", **kw):
    """refs: used for every split a reference may ask for"""
    return dict(v=v, shape=shape, splits={s: refs for s in SPLITS}, **kw)


def run_case(c):
    from lib.disk import Scratch

    res = Res()
    with Scratch() as d:
        leaves(d)
        globals()["kind_" + c["kind"]](c, d, res)
    return res


def check(res, sig, node, d, call, split, training=True):
    path = os.path.join(d, dump(node, d))
    c2 = json.loads(json.dumps(call))
    want = ev_file(node, split, c2.get("subflavor"), c2.get("subflavors", {}), c2.get("shuffle_over_epochs_multiplier", 1))
    res.evals += 1
    res.key(sig)
    try:
        got = observe(path, split, call, training=training)
    except Exception as e:
        res.bad(f"{sig}:raised", f"{type(e).__name__}: {e}")
        return
    compare(res, sig, got, want)
    if res.sample is None:
        res.sample = dict(sig=sig, got=str(got[0])[:600])


def kind_chain2(c, d, res):
    """outer file -> (inner file -> leaf | leaf)"""
    o0 = tuple(c["o0"])
    for leaf in LEAVES:
        for call in CALLS:
            for split in ("train", "other"):
                r = dict(to=leaf, o=ref_opts(0, *o0))
                for v in (1, 2):
                    if v == 1 and c["shape"] == "direct":
                        continue
                    check(res, f"one:{o0}:{leaf}:{sorted(call)}:{split}:v{v}:{c['shape']}", file_node([r], v, c["shape"]), d, call, split)
    for o1 in ALL if c["full"] else SMALL + ALL[::7]:
        for call in CALLS[1:3]:
            for v0, v1 in ((1, 2), (2, 1)) if c["shape"] == "blend" else ((2, 2),):
                inner = file_node([dict(to="L1", o=ref_opts(1, *o1))], v1, c["shape"])
                outer = file_node([dict(to=inner, o=ref_opts(0, *o0))], v0, c["shape"])
                check(res, f"two:{o0}:{o1}:{sorted(call)}:v{v0}{v1}:{c['shape']}", outer, d, call, "train")


def kind_chain3(c, d, res):
    for o2 in SMALL:
        for call in CALLS:
            n2 = file_node([dict(to="L1", o=ref_opts(2, *o2))], 2, "direct", dir="sub2")
            n1 = file_node([dict(to=n2, o=ref_opts(1, *c["o1"]))], 1, "blend", dir="sub1")
            n0 = file_node([dict(to=n1, o=ref_opts(0, *c["o0"]))], 2, "blend")
            check(res, f"three:{c['o0']}:{c['o1']}:{o2}:{sorted(call)}", n0, d, call, "train", training=True)


def kind_tree(c, d, res):
    """blends with weights, nested in folders, different content per split, repeated leaves"""
    ws = c["ws"]

    def wr(to, w, **o):
        return dict(to=to, o={**({} if w is None else {"weight": w}), **o})

    names = ["L0", "L1", "L2"]
    for v in (1, 2):
        flat = [wr(names[i], w, subflavors={"i": i}) for i, w in enumerate(ws)]
        flat[-1]["abs"] = True
        one = dict(v=v, shape="blend", splits={"train": flat, "val": flat[:1], "other": flat[::-1]})
        for split in SPLITS:
            check(res, f"flat:{ws}:v{v}:{split}", one, d, {}, split)
            check(res, f"flat:{ws}:v{v}:{split}:untyped", dict(one, untyped=True), d, {}, split) if v == 1 else None
        for w_out in ((None, 3), (0.25, None), (3, 0.25)):
            for pos in (0, 1):
                refs = [wr("L2", w_out[0], subflavor="out"), wr(dict(one, dir="nested/deep"), w_out[1], subflavors={"out": 1, "i": "outer"})]
                if pos:
                    refs = refs[::-1]
                for v0 in (1, 2):
                    check(res, f"nest:{ws}:{w_out}:{pos}:v{v0}{v}", file_node(refs, v0, dir="x"), d, {}, "train")
                    check(res, f"nest-val:{ws}:{w_out}:{pos}:v{v0}{v}", file_node(refs, v0), d, {}, "val", training=False)
        # the same file and the same leaf referenced several times with other splits and labels
        rr = [wr(one, 2, split_part="val", subflavors={"k": 0}), wr(one, 1, subflavors={"k": 1}), wr(one, 1), wr("L0", 1, split_part="val"), wr("L0", None, split_part="other", subflavors={"k": 2})]
        for n in range(2, len(rr) + 1):
            check(res, f"repeat:{ws}:v{v}:{n}", file_node(rr[:n], v), d, {"subflavors": {"z": 1}}, "train")


def kind_configs(c, d, res):
    for dc, sc in itertools.product((None, "alt.yaml"), (None, "split2.yaml")):
        o = {**({} if dc is None else {"dataset_config": dc}), **({} if sc is None else {"split_config": sc})}
        for leaf in LEAVES:
            for v, shape in ((1, "blend"), (2, "blend"), (2, "direct")):
                for split in SPLITS:
                    for sp in (None, "other"):
                        oo = dict(o) if sp is None else dict(o, split_part=sp)
                        r = [dict(to=leaf, o=dict(oo, subflavors={"q": 1}))]
                        check(res, f"configs:{o}:{leaf}:{v}:{shape}:{split}:{sp}", file_node(r, v, shape), d, {}, split)
                        # mixed with a default reference to the same dataset
                        if shape == "blend":
                            check(res, f"configs2:{o}:{leaf}:{v}:{split}:{sp}", file_node(r + [dict(to=leaf, o={})], v, shape), d, {}, split)
    # direct folder and dict
    from lib.core import reset_globals
    from lib.run import wconf
    from megatron.energon.metadataset import load_dataset

    for leaf in LEAVES:
        for kw in ({}, {"split_config": "split2.yaml"}, {"dataset_config": "alt.yaml"}):
            for call in CALLS:
                for split in SPLITS:
                    reset_globals()
                    with quiet():
                        try:
                            ds = load_dataset(f"{d}/{leaf}", **kw).get_datasets(training=True, split_part=split, worker_config=wconf(), **json.loads(json.dumps(call)))
                        except Exception as e:
                            res.bad(f"folder:{leaf}:{kw}:{sorted(call)}:raised", repr(e))
                            continue
                    got = [(os.path.basename(str(f.paths[0])), [s.name for s in f.shards], f.subflavor, dict(f.subflavors), f.shuffle_over_epochs, w) for f, w in ds]
                    res.evals += 1
                    want = ev(dict(to=leaf, o=kw), split, call.get("subflavor"), call.get("subflavors", {}), call.get("shuffle_over_epochs_multiplier", 1))
                    compare(res, f"folder:{leaf}:{kw}:{sorted(call)}:{split}", (got, True), want)


def kind_errors(c, d, res):
    """compositions which cannot be what the user meant are refused when they are loaded"""
    from lib.disk import yaml_dump

    good = {"path": "L0"}
    yaml_dump({"__module__": "megatron.energon", "__class__": "MetadatasetV2", "splits": {"train": good}}, f"{d}/inner.yaml")
    os.makedirs(f"{d}/empty")
    bad_refs = [
        ({"path": "missing"}, "missing dataset"),
        ({"path": "missing.yaml"}, "missing file"),
        ({"path": "empty"}, "folder which is not prepared"),
        ({"path": "inner.yaml", "dataset_config": "alt.yaml"}, "dataset_config for a metadataset"),
        ({"path": "inner.yaml", "split_config": "split2.yaml"}, "split_config for a metadataset"),
        ({"path": "L0", "wieght": 2}, "unknown field"),
        ({"path": "L0", "subflavors": "x"}, "wrong type"),
        ({"path": "L0", "shuffle_over_epochs_multiplier": "two"}, "wrong type"),
        ({"path": "L0", "split_part": 3}, "wrong type"),
        ({"weight": 2}, "no path"),
        ({}, "empty"),
        ({"path": "L0", "split_config": "nope.yaml"}, "missing split config"),
        ({"path": "L0", "dataset_config": "nope.yaml"}, "missing dataset config"),
        ({"path": "L0", "split_part": "nope"}, "unknown split of the dataset"),
        ({"path": "inner.yaml", "split_part": "nope"}, "unknown split of the metadataset"),
        ({"path": "inner.yaml", "split_part": "val"}, "split missing in the metadataset"),
    ]
    n = itertools.count()
    for r, why in bad_refs:
        for v, shape in ((1, "blend"), (2, "blend"), (2, "direct")):
            for pos in range(3 if shape == "blend" else 1):
                lst = [dict(good), dict(good)]
                lst.insert(pos, r)
                sp = {"datasets": lst} if v == 1 else ({"blend": lst} if shape == "blend" else r)
                p = f"{d}/e{next(n)}.yaml"
                yaml_dump({"__module__": "megatron.energon", "__class__": "Metadataset" if v == 1 else "MetadatasetV2", "splits": {"train": sp, "val": {"datasets": [good]} if v == 1 else good}}, p)
                res.evals += 1
                res.key((why, v, shape, pos))
                try:
                    observe(p, "train", {})
                    res.bad(f"accepted:{why}:v{v}:{shape}:{pos}", dict(ref=r))
                except Exception:
                    pass
                # the other split is still usable where only the use of the bad one is at fault
    for sp, why in (
        ({"blend": []}, "ok-empty"),
        ({"blend": [good], "path": "L0"}, "blend and path"),
        ({"blend": [good], "join": [good, good], "joiner": {"__module__": "lib.joiners", "__class__": "JoinedText"}}, "blend and join"),
        ({"join": [good, good]}, "no joiner"),
        ({"join": [good, {"path": "inner.yaml"}], "joiner": {"__module__": "lib.joiners", "__class__": "JoinedText"}}, "join of a metadataset"),
        ({"join": [good, {"path": "missing"}], "joiner": {"__module__": "lib.joiners", "__class__": "JoinedText"}}, "join with missing"),
        ({"join": [good, good], "dataset_config": "alt.yaml", "joiner": {"__module__": "lib.joiners", "__class__": "JoinedText"}}, "dataset_config for a join"),
        ({"datasets": [good]}, "v1 in v2"),
    ):
        if why == "ok-empty":
            continue
        p = f"{d}/e{next(n)}.yaml"
        yaml_dump({"__module__": "megatron.energon", "__class__": "MetadatasetV2", "splits": {"train": sp}}, p)
        res.evals += 1
        res.key(why)
        try:
            observe(p, "train", {})
            res.bad(f"accepted:{why}", dict(split=sp))
        except Exception:
            pass
    res.sample = dict(kinds=[w for _, w in bad_refs])


def kind_join(c, d, res):
    """labels, splits, configs and multipliers of joined datasets, alone and within blends"""
    from lib.core import reset_globals
    from lib.disk import yaml_dump
    from lib.run import wconf
    from lib.wk import streams
    from megatron.energon import TaskEncoder, get_val_dataset
    from megatron.energon.metadataset import load_dataset

    J = {"__module__": "lib.joiners", "__class__": "JoinedText"}
    n = itertools.count()
    from lib.disk import make_ds, text_yaml

    for name, subs in (("J0", None), ("J1", {"a": "yaml", "y": 1})):
        make_ds(f"{d}/{name}", [[f"{s}-{i}" for i in range(2)] for s in SPLITS], names=[f"{s}.tar" for s in SPLITS], splits={s: [f"{s}.tar"] for s in SPLITS},
                dataset_yaml=text_yaml() if subs is None else text_yaml(subflavors=subs), pay=lambda s, e, name=name: f"{name}:{s}".encode())
        yaml_dump({"split_parts": {"train": ["other.tar"], "val": ["train.tar"], "other": ["val.tar"]}, "exclude": []}, f"{d}/{name}/.nv-meta/split2.yaml")
    jopts = list(itertools.product((None, "val"), (None, "s"), (None, {"a": "j"}, {"b": "j"}), (None, 2, -1)))
    iopts = [(None, None, None, None), ("other", "i", {"a": "i", "b": "i"}, None)]
    for jo, io, as_dict, prim, nest, sc in itertools.product(jopts[c["part"] :: 6], iopts, (0, 1), ("J0", "J1"), (0, 1, 2), (None, "inner", "outer")):
        o = ref_opts("J", *jo)
        i0 = ref_opts("I", *io)
        if "split_part" in i0:
            i0["split_part"] = "other"
        second = {"path": "J1" if prim == "J0" else "J0"}
        if "split_part" in i0:
            second["split_part"] = "other"
        if sc == "inner":
            i0["split_config"] = second["split_config"] = "split2.yaml"
        elif sc == "outer":
            o = dict(o, split_config="split2.yaml")
        cols = [{"path": prim, **i0}, second]
        if as_dict:
            cols = {"first": cols[0], "second": cols[1]}
        sp = {"join": cols, "joiner": J, **o}
        weights = [1.0]
        if nest:
            sp = {"blend": [dict(sp, weight=3), {"path": "L0", "weight": 1}]}
            weights = [0.75, 0.25]
        p = f"{d}/j{next(n)}.yaml"
        meta = {"__module__": "megatron.energon", "__class__": "MetadatasetV2", "splits": {s: sp for s in SPLITS}}
        yaml_dump(meta, p)
        call_subs, outer_mult = {"c": "call"}, 1
        outer_sub = None
        if nest == 2:
            p2 = f"{d}/k{next(n)}.yaml"
            yaml_dump({"__module__": "megatron.energon", "__class__": "MetadatasetV2", "splits": {"train": {"path": os.path.basename(p), "subflavors": {"b": "outer"}, "subflavor": "outer", "shuffle_over_epochs_multiplier": 3}}}, p2)
            p = p2
            outer_mult, outer_sub = 3, "outer"
        sig = f"join:{jo}:{bool(io[0])}:{as_dict}:{prim}:{nest}:{sc}"
        # want
        split = i0.get("split_part") or o.get("split_part") or "train"
        tar = ROT[split] if sc else split
        subs = {**(({"a": "yaml", "y": 1}) if prim == "J1" else {}), **i0.get("subflavors", {}), **o.get("subflavors", {}), **({"b": "outer"} if nest == 2 else {}), **call_subs}
        sub = outer_sub or o.get("subflavor") or i0.get("subflavor")
        m = o.get("shuffle_over_epochs_multiplier", 1)
        mult = -1 if -1 in (m, outer_mult) else m * outer_mult
        res.evals += 1
        res.key(sig)
        try:
            reset_globals()
            wc = wconf()
            with quiet():
                ds = load_dataset(p).get_datasets(training=False, split_part="train", worker_config=wc, subflavors=dict(call_subs))
                f, w = ds[0]
                built = f.build()
                it = iter(built)
                wc.worker_activate(0)
                try:
                    smp = [next(it), next(it)]
                    end = next(it, None)
                finally:
                    wc.worker_deactivate()
        except Exception as e:
            res.bad(f"{sig}:raised", f"{type(e).__name__}: {e}")
            continue
        for k, s in enumerate(smp):
            if [t.split(":")[1] for t in (s.cols if not as_dict else [x[1] for x in s.cols])] != [f"{tar}-{k}"] * 2 or end is not None:
                res.bad(f"{sig}:rows", dict(cols=str(s.cols), want=f"{tar}-{k}"))
            if s.__subflavor__ != sub or s.__subflavors__ != subs:
                res.bad(f"{sig}:labels", dict(got=(s.__subflavor__, s.__subflavors__), want=(sub, subs)))
        if f.shuffle_over_epochs != mult:
            res.bad(f"{sig}:multiplier", dict(got=f.shuffle_over_epochs, want=mult))
        if [x for _, x in ds] != weights:
            res.bad(f"{sig}:weight", dict(got=[x for _, x in ds], want=weights))
    res.sample = dict(joins=next(n))


def kind_deliver(c, d, res):
    """what get_train_dataset / get_val_dataset deliver: exactly the samples of the composition with their labels"""
    from lib.wk import streams
    from megatron.energon import TaskEncoder, get_train_dataset, get_val_dataset

    inner = dict(v=2, shape="blend", dir="in", splits={
        "train": [dict(to="L1", o={"subflavors": {"a": "in"}}), dict(to="L2", o={"split_part": "other"})],
        "val": [dict(to="L2", o={"subflavor": "v"})],
        "other": [dict(to="L0", o={})],
    })
    for v in (1, 2):
        for refs in (
            [dict(to="L0", o={"weight": 1})],
            [dict(to="L0", o={"weight": 2, "subflavors": {"k": 1}}), dict(to=inner, o={"weight": 1, "subflavors": {"b": 2}})],
            [dict(to=inner, o={"split_part": "val", "subflavor": "w"}), dict(to="L1", o={"split_part": "other"})],
            [dict(to=inner, o={"subflavors": {"a": "out"}}), dict(to=inner, o={"split_part": "other"}), dict(to="L0", o={"split_part": "val"})],
        ):
            node = file_node(refs, v)
            path = os.path.join(d, dump(node, d))
            for R, W in ((1, 0), (1, 2), (2, 1), (2, 2)):
                want = [(f"{l}-{s}-{i}", sub, json.dumps(subs, sort_keys=True)) for l, s, _, sub, subs, _, _ in ev_file(node, "train", None, {"call": 1}, 1) for i in range(2)]
                for train in (0, 1):
                    if train and R * W > 2:
                        continue
                    sig = f"deliver:{v}:{refs.__len__()}:{[str(r['o']) for r in refs]}:{R}x{W}:{train}"

                    def mk(wc):
                        with quiet():
                            if train:
                                return get_train_dataset(path, split_part="train", worker_config=wc, batch_size=None, shuffle_buffer_size=None, max_samples_per_sequence=None, task_encoder=TaskEncoder(), subflavors={"call": 1})
                            return get_val_dataset(path, split_part="train", worker_config=wc, batch_size=None, task_encoder=TaskEncoder(), subflavors={"call": 1})

                    try:
                        got = streams(mk, R, W, max_samples=60)
                    except Exception as e:
                        res.bad(f"{sig}:raised", f"{type(e).__name__}: {e}")
                        continue
                    out = [(s.__key__.rsplit("/", 1)[-1], s.__subflavor__, json.dumps(s.__subflavors__, sort_keys=True)) for k in sorted(got) for s in got[k][0]]
                    res.evals += 1
                    res.key(sig)
                    if train:
                        if set(out) != set(want):
                            res.bad(f"{sig}:train", dict(want=want, got=sorted(set(out))))
                    elif sorted(out, key=str) != sorted(want, key=str) or (R * W <= 1 and out != want):
                        res.bad(f"{sig}:val", dict(want=want, got=out))
    res.sample = dict(want=want)


if __name__ == "__main__":
    main(
        "C19",
        "exploration",
        cases,
        run_case,
        rule="all options of references on all levels of chains up to depth 3, all weights of blends of up to 3 datasets nested at depth 2, all reference/join configurations within the option sets, all kinds of errors at every position; distinct = distinct compositions",
    )
