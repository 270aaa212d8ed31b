"""The enumerated pipelines (nested specs, see lib/toy.py)."""
import itertools



def base_specs():
    A, B = ["toy", "a", 5, ""], ["toy", "b", 3, ""]
    AL, BL = ["toy", "a", 5, "ls"], ["toy", "b", 3, "ls"]
    S = []
    for src in (A, AL):
        S.append(src)
        for fn in ("ident", "skip_odd", "skip_most", "err_odd", "gen2", "gen_var", "gen_err", "gen_skip", "aug", "aug_gen", ):
            S.append(["map", src, fn])
        for fn in ("keep_even", "keep_all"):
            S.append(["filter", src, fn])
        for fn in ("it_ident", "it_skip"):
            S.append(["itermap", src, fn])
        for n in (1, 2, 3):
            S.append(["batch", src, n, "bat"])
        S.append(["batch", src, 2, "bat", 1])
        for fn in ("bat_skip", "bat_err", "bat_gen", "bat_gen_err"):
            S.append(["batch", src, 2, fn])
        for crit, n, fn, dl in (("grp2", 2, "bat", 0), ("grp2n", None, "bat", 0), ("grp2", 3, "bat", 1), ("grp_skip", 2, "bat", 0), ("grp2", 2, "bat_skip", 0), ("grp2", 2, "bat_err", 0)):
            S.append(["gbatch", src, n, crit, fn, dl])
        for buf, pre, fin in ((2, "pre_pairs", "bat"), (3, "pre_pairs", "bat"), (4, "pre_var", "bat"), (3, "pre_skip", "bat"), (3, "pre_err", "bat"), (3, "pre_drop", "bat"), (3, "pre_pairs", "fin_skip"), (3, "pre_pairs", "fin_err"), (3, "pre_pairs", "bat_gen")):
            S.append(["pack", src, buf, pre, fin])
        for n in (1, 2, 3):
            S.append(["shuffle", src, n])
        for n in (3, 5, 7):
            S.append(["epochize", src, n])
        for n in (2, 5, 7):
            S.append(["limit", src, n, 1])
        S.append(["log", src])
    S += [
        ["limit", A, 3, 0],
        ["limit", AL, 3, 0],
        ["repeat", A, None],
        ["repeat", A, 2],
        ["repeat", A, 3],
        ["blend", [A, 1.0], [B, 1.0]],
        ["blend", [AL, 2.0], [BL, 1.0]],
        ["blend", [AL, 1.0], [["toy", "e", 0], 1.0], [BL, 3.0]],
        ["blend", [["toy", "e", 0], 1.0], [AL, 1.0], [BL, 3.0]],
        ["concat", A, B],
        ["concat", ["toy", "e", 0], A, B],
        ["concat", A, B, ["toy", "c", 1]],
        ["mix", 2, "bat", [AL, 1.0], [BL, 1.0]],
    ]
    return S


def pipelines():
    """Full pipelines in the order the task encoder composes them."""
    A, B = ["toy", "a", 5, "ls"], ["toy", "b", 3, "ls"]
    E = ["toy", "e", 0]
    S = []
    srcs = [A, ["blend", [A, 1.0], [B, 1.0]], ["blend", [E, 1.0], [A, 2.0], [B, 1.0]]]
    shuf = [None, 3]
    enc = [None, "skip_odd", "gen_var", "err_odd", "aug", "aug_gen"]
    bat = [
        None,
        ["batch", 2, "bat", 0],
        ["batch", 3, "bat", 1],
        ["gbatch", 2, "grp2", "bat", 0],
        ["pack", 3, "pre_var", "bat"],
        ["pack+batch", 3, "pre_pairs", "bat"],
    ]
    ep = [None, 3]
    for s, sh, e, b, v in itertools.product(srcs, shuf, enc, bat, ep):
        x = s
        if sh:
            x = ["shuffle", x, sh]
        if e:
            x = ["map", x, e]
        if b:
            if b[0] == "pack+batch":
                x = ["batch", ["pack", x] + b[1:], 2, "bat"]
            else:
                x = [b[0], x] + b[1:]
        if v:
            x = ["epochize", x, v]
        S.append(x)
    # validation pipelines
    A, B = ["toy", "a", 5], ["toy", "b", 3]
    for s, e, b, lim in itertools.product(
        [A, ["concat", A, B]], [None, "skip_odd", "gen_var"], [None, ["batch", 2, "bat", 0], ["batch", 3, "bat", 1]], [None, 2, 4]
    ):
        x = s
        if e:
            x = ["map", x, e]
        if b:
            x = [b[0], x] + b[1:]
        if lim:
            x = ["limit", x, lim, 1]
        S.append(x)
    return S


def nested():
    """two wrapper layers, every pair"""
    one = [
        lambda x: ["map", x, "skip_odd"],
        lambda x: ["map", x, "gen_var"],
        lambda x: ["map", x, "aug"],
        lambda x: ["filter", x, "keep_even"],
        lambda x: ["itermap", x, "it_skip"],
        lambda x: ["batch", x, 2, "bat"],
        lambda x: ["batch", x, 2, "bat_gen"],
        lambda x: ["gbatch", x, 2, "grp2", "bat", 0],
        lambda x: ["pack", x, 3, "pre_pairs", "bat"],
        lambda x: ["shuffle", x, 2],
        lambda x: ["epochize", x, 3],
        lambda x: ["limit", x, 3, 1],
        lambda x: ["log", x],
        lambda x: ["blend", [x, 1.0], [["toy", "b", 3, "ls"], 1.0]],
        lambda x: ["concat", x, ["toy", "b", 3]],
        lambda x: ["repeat", x, 2],
    ]
    out = []
    infinite_ok = range(len(one))
    for i in infinite_ok:
        for j in infinite_ok:
            for src in (["toy", "a", 5, "ls"], ["toy", "a", 5, "s"]):
                x = one[i](one[j](src))
                # loaders put epochize outermost (below logging only)
                if "'epochize'" in repr(one[j](src)) and i != 12:
                    continue
                out.append(x)
    return out


def is_infinite(s):
    op = s[0]
    if op == "disk":
        return not s[2].get("val")
    if op == "toy":
        return "l" in (s[3] if len(s) > 3 else "") and s[2] != 0
    if op in ("blend", "mix"):
        return True
    if op == "concat":
        return any(is_infinite(x) for x in s[1:])
    if op in ("limit", "epochize"):
        return False
    if op == "repeat":
        return s[2] is None or is_infinite(s[1])
    return is_infinite(s[1])


def ok_spec(s):
    """concat of an infinite dataset / limit without a finite epoch are documented as unsupported"""
    op = s[0]
    if op in ("toy", "disk"):
        return True
    if op in ("blend", "mix"):
        return all(ok_spec(x[0]) for x in (s[3:] if op == "mix" else s[1:]))
    if op == "concat":
        return all(ok_spec(x) and not is_infinite(x) for x in s[1:])
    if op == "repeat" and is_infinite(s[1]):
        return False
    return ok_spec(s[1])



def all_specs():
    seen, out = set(), []
    for s in base_specs() + pipelines() + nested():
        if ok_spec(s) and repr(s) not in seen:
            seen.add(repr(s))
            out.append(s)
    return out


def disk_specs():
    """Pipelines over real tar files: every reading mode, then wrapped."""
    S = []
    for counts in ([4], [3, 2], [2, 1, 3], [3, 0, 2]):
        for so in (1, 2, -1):
            for p in (1, 2, None):
                for ms in (None, 1, 2):
                    if len(counts) == 3 and (ms, p) not in ((None, 2), (1, 1), (1, 2), (2, None)):
                        continue
                    S.append(["disk", counts, dict(so=so, p=p, ms=ms)])
        S.append(["disk", counts, dict(val=1)])
    ex = ["shard_0.tar/s001"]
    for o in (dict(), dict(p=1), dict(ms=1, p=2), dict(val=1)):
        S.append(["disk", [3, 2], dict(exclude=ex, **o)])
        S.append(["disk", [3, 2], dict(exclude=["shard_0.tar/s000", "shard_1.tar/s004"], **o)])
        S.append(["disk", [3, 2], dict(blend=[2, 1], **o)])
        S.append(["disk", [3, 2], dict(join=1, **o)])
        S.append(["disk", [3, 2], dict(join=1, exclude=ex, **o)])
    A, V = ["disk", [2, 1, 3], dict(p=2, ms=2)], ["disk", [3, 2], dict(val=1)]
    for src in (A, V, ["disk", [3, 2], dict(blend=[2, 1], p=2)]):
        S += [
            ["map", src, "skip_odd"],
            ["map", src, "gen_var"],
            ["map", src, "aug"],
            ["batch", src, 2, "bat"],
            ["gbatch", src, 2, "grp2", "bat", 0],
            ["pack", src, 3, "pre_pairs", "bat"],
            ["shuffle", src, 3],
            ["batch", ["map", ["shuffle", src, 3], "gen_var"], 2, "bat"],
        ]
        if src is V:
            S += [["limit", src, 3, 1], ["batch", ["limit", src, 4, 1], 2, "bat"]]
        else:
            S += [["epochize", src, 3], ["epochize", ["batch", ["shuffle", src, 3], 2, "bat"], 2]]
    return S
