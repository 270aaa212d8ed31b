"""C30: collation pads and stacks every field, losing nothing."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import Res, main  # noqa


def cases(tier):
    out = []
    M = 3 if tier == "quick" else 4
    for dim in (0, 1, 2, 3):
        for n in (1, 2, 3):
            for dt in ("int64", "float32", "bool", "uint8", "float16"):
                if dt != "int64" and (dim, n) != (2, 2):
                    continue
                if dim == 3 and n == 3 and tier == "quick":
                    mm = 2
                elif dim == 3 and n == 3:
                    mm = 3
                else:
                    mm = M
                out.append(dict(kind="pad", dim=dim, n=n, dt=dt, M=mm))
    out.append(dict(kind="nested", depth=2 if tier == "quick" else 3))
    out.append(dict(kind="actions"))
    return out


def run_case(c):
    import dataclasses
    from collections import namedtuple

    import torch
    from megatron.energon.task_encoder.base import TaskEncoder, batch_list, batch_pad_stack, batch_stack, generic_batch
    from lib.toy import canon

    res = Res()
    ctr = [1]

    def tens(shape, dt=torch.int64):
        n = 1
        for s in shape:
            n *= s
        ctr[0] += n
        v = torch.arange(ctr[0] - n, ctr[0])
        if dt == torch.bool:
            v = v % 2 == 0
        return v.to(dt).reshape(shape)

    def nested(t):
        return t.tolist()

    def at(l, idx):
        for i in idx:
            if not isinstance(l, list) or i >= len(l):
                return None
            l = l[i]
        return l

    if c["kind"] == "pad":
        dt = getattr(torch, c["dt"])
        shapes = list(itertools.product(range(c["M"]), repeat=c["dim"]))
        for combo in itertools.product(shapes, repeat=c["n"]):
            ctr[0] = 1
            ts = [tens(s, dt) for s in combo]
            before = [t.clone() for t in ts]
            mx = [max(s[d] for s in combo) for d in range(c["dim"])]
            for fn in (batch_pad_stack, generic_batch):
                out = fn(list(ts))
                res.evals += 1
                if tuple(out.shape) != (c["n"], *mx) or out.dtype != dt:
                    res.bad(f"shape:{c['dt']}:{combo}", dict(got=[str(out.shape), str(out.dtype)]))
                    continue
                o = nested(out)
                for i, t in enumerate(ts):
                    tl = nested(t)
                    for idx in itertools.product(*map(range, mx)):
                        inside = all(k < s for k, s in zip(idx, t.shape))
                        want = at(tl, idx) if inside else 0
                        if at(o[i], idx) != want:
                            res.bad(f"value:{c['dt']}:{combo}", dict(at=[i, *idx], want=want, got=at(o[i], idx)))
            if any(not torch.equal(a, b) for a, b in zip(ts, before)):
                res.bad(f"inputs-changed:{combo}", {})
            if len(set(combo)) == 1:
                out = batch_stack(list(ts))
                if canon(out) != canon(batch_pad_stack(ts)):
                    res.bad(f"stack:{combo}", {})
            res.key((c["dt"], combo))
        res.sample = dict(dim=c["dim"], n=c["n"])
        return res

    NT = namedtuple("NT", "p q")
    DC = dataclasses.make_dataclass("DC", [("p", object), ("q", object)])

    def leaf(k, i):
        if k == "t":
            return tens((1 + i % 2,))
        if k == "s":
            return f"s{i}"
        if k == "i":
            return i
        if k == "n":
            return None
        if k == "l":
            return [i, i + 1]
        if k == "tl":
            return [tens((1,))]
        if k == "tu":
            return (i, i)

    def shapes(depth):
        base = ["t", "s", "i", "n", "l", "tu", "tl"]
        if depth == 0:
            return base
        sub = shapes(depth - 1)
        if depth > 1:
            sub = sub[:: max(1, len(sub) // 12)]
        return base + [(T, a, b) for T in ("dict", "dc", "nt") for a in sub for b in sub]

    def inst(sh, i):
        if isinstance(sh, str):
            return leaf(sh, i)
        a, b = inst(sh[1], i), inst(sh[2], i)
        return dict(p=a, q=b) if sh[0] == "dict" else DC(a, b) if sh[0] == "dc" else NT(a, b)

    def ref(xs, sh):
        if sh == "t":
            m = max(x.numel() for x in xs)
            return torch.tensor([x.tolist() + [0] * (m - x.numel()) for x in xs])
        if isinstance(sh, str):
            return list(xs)
        g = (lambda x, k: x[k]) if sh[0] == "dict" else getattr
        a, b = ref([g(x, "p") for x in xs], sh[1]), ref([g(x, "q") for x in xs], sh[2])
        return dict(p=a, q=b) if sh[0] == "dict" else DC(a, b) if sh[0] == "dc" else NT(a, b)

    def full(x):
        """like canon, but telling containers apart"""
        if isinstance(x, torch.Tensor):
            return canon(x)
        if isinstance(x, dict):
            return ("dict", [(k, full(v)) for k, v in x.items()])
        if dataclasses.is_dataclass(x):
            return (type(x).__name__, [(f.name, full(getattr(x, f.name))) for f in dataclasses.fields(x)])
        if isinstance(x, tuple):
            return (type(x).__name__, [full(v) for v in x])
        if isinstance(x, list):
            return ("list", [full(v) for v in x])
        return x

    if c["kind"] == "nested":
        for sh in shapes(c["depth"]):
            for n in (1, 2, 3):
                ctr[0] = 1
                xs = [inst(sh, i) for i in range(n)]
                want = ref(xs, sh)
                res.evals += 1
                got = generic_batch(xs)
                res.key((sh, n))
                if full(got) != full(want):
                    res.bad(f"nested:{sh}:{n}", dict(want=str(want)[:600], got=str(got)[:600]))
        res.sample = dict(depth=c["depth"])
    else:
        class E(TaskEncoder):
            pass

        e = E()
        acts = {None: None, "list": batch_list, "stack": batch_stack, "pad": batch_pad_stack, "len": len}
        for I in ("dict", "dc", "nt"):
            for T in (dict, DC, NT):
                for ap in acts:
                    for aq in acts:
                        for default in (None, "list"):
                            for n in (1, 2, 3):
                                ctr[0] = 1
                                xs = [inst((I, "t", "t"), 2 * i) for i in range(n)]
                                g = (lambda x, k: x[k]) if I == "dict" else getattr
                                actions = {k: acts[a] for k, a in (("p", ap), ("q", aq)) if a is not None}
                                kw = {} if default is None else dict(default_action=acts[default])
                                if actions or n == 2:
                                    kw["actions"] = actions
                                got = e._batch(xs, T, **kw)
                                res.evals += 1
                                want = {}
                                for k, a in (("p", ap), ("q", aq)):
                                    vals = [g(x, k) for x in xs]
                                    a = a or default or "pad"
                                    want[k] = vals if a == "list" else n if a == "len" else torch.stack(vals)
                                want = want if T is dict else T(**want)
                                res.key((I, T.__name__, ap, aq, default, n))
                                if full(got) != full(want):
                                    res.bad(f"actions:{I}:{T.__name__}:{ap}:{aq}:{default}:{n}", dict(want=str(want)[:500], got=str(got)[:500]))
        res.sample = dict(actions=list(map(str, acts)))
    return res


if __name__ == "__main__":
    main(
        "C30",
        "exploration",
        cases,
        run_case,
        rule="all shape combinations of tensors of 0-3 dimensions with sizes 0..M-1 in batches of 1-3; all nested containers up to the depth; all field actions; distinct = distinct shapes/structures",
    )
