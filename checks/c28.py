"""C28: a merged image transform equals applying the transforms one after the other.

Every sequence (up to a length) of pixel exact transforms x image size is executed with MergeTransform and
with torchvision's transforms one by one. All random draws are replaced by an explored choice, so the
outcome is the exact distribution over result images, which has to be the same for both.
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import Res, main  # noqa

PARTS = 96


def cases(tier):
    deep = tier == "thorough"
    out = [dict(kind="seq", length=2, part=k, of=PARTS, deep=deep, inp="pil") for k in range(PARTS)]
    out += [dict(kind="seq", length=3, part=k, of=PARTS, deep=deep, inp="pil") for k in range(PARTS)]
    out += [dict(kind="seq", length=2, part=k, of=PARTS, deep=deep, inp="tensor") for k in range(PARTS)]
    out += [dict(kind="angles", part=k, of=8, deep=deep) for k in range(8)]
    out += [dict(kind="perspective", part=k, of=8, deep=deep) for k in range(8)]
    out += [dict(kind="sizes", part=k, of=12, deep=deep) for k in range(12)]
    out += [dict(kind="fixed", part=k, of=4, deep=deep) for k in range(4)]
    out += [dict(kind="refusals")]
    return out


def op_table(rrc=False):
    from torchvision import transforms as T
    from torchvision.transforms.functional import InterpolationMode as IM

    N = IM.NEAREST

    class MyFlip(T.RandomHorizontalFlip):
        pass

    t = {}
    for s in ((3, 6), 2, [5], (1, 1), (5, 3)):
        t[f"resize{s}"] = lambda s=s: T.Resize(s, interpolation=N)
    t["resize2max3"] = lambda: T.Resize(2, max_size=3, interpolation=N)
    t["resize3max4"] = lambda: T.Resize([3], max_size=4, interpolation=N)
    for p in (0, 0.5, 1):
        t[f"hflip{p}"] = lambda p=p: T.RandomHorizontalFlip(p)
        t[f"vflip{p}"] = lambda p=p: T.RandomVerticalFlip(p)
    t["myflip"] = lambda: MyFlip(1)
    for d in (0, 90, 180, 270, -90):
        t[f"rot{d}e"] = lambda d=d: T.RandomRotation((d, d), interpolation=N, expand=True)
        t[f"rot{d}"] = lambda d=d: T.RandomRotation((d, d), interpolation=N)
    t["rot+-90"] = lambda: T.RandomRotation(90, interpolation=N)
    t["rot+-90e"] = lambda: T.RandomRotation((0, 90), interpolation=N, expand=True)
    for s in (1, 2, 3, 4, 5, 6, (2, 3), (5, 2), [4], (1, 7)):
        t[f"center{s}"] = lambda s=s: T.CenterCrop(s)
    for s in (1, 2, 3, (2, 3), (1, 4)):
        t[f"rcrop{s}"] = lambda s=s: T.RandomCrop(s)
    for s in (3, (5, 2), (2, 5), 4):
        t[f"rcrop{s}pad"] = lambda s=s: T.RandomCrop(s, pad_if_needed=True)
    for s, pad in ((2, 1), ((3, 2), (1, 2)), (3, (1, 0, 2, 1)), ((2, 4), [1]), (1, [0, 1])):
        t[f"rcrop{s}padding{pad}"] = lambda s=s, pad=pad: T.RandomCrop(s, padding=pad)
    t["rcrop6padboth"] = lambda: T.RandomCrop((6, 3), padding=1, pad_if_needed=True)
    for s, sc, ra in ((2, (0.25, 0.25), (1, 1)), ((3, 6), (1, 1), (1, 1)), ((2, 4), (0.5, 0.5), (2, 2)), ((1, 3), (0.2, 1.0), (1, 1)), (2, (1, 1), (0.5, 0.5))):
        t[f"rrc{s}{sc}{ra}"] = lambda s=s, sc=sc, ra=ra: T.RandomResizedCrop(s, scale=sc, ratio=ra, interpolation=N)
    if rrc:
        # 16 output pixels: the sample positions are never at the border between two pixels
        t = {}
        for sc in ((1, 1), (0.3, 0.3), (0.05, 0.05), (2, 2), (0.1, 0.9)):
            for ra in ((1, 1), (0.75, 0.75), (1, 2), (0.5, 0.5), (0.5, 2), (3, 3), (0.2, 0.3)):
                if sc[0] == sc[1] or ra[0] == ra[1]:
                    t[f"rrc{sc}{ra}"] = lambda sc=sc, ra=ra: T.RandomResizedCrop((16, 16), scale=sc, ratio=ra, interpolation=N)
        return t
    t["persp0"] = lambda: T.RandomPerspective(p=0, interpolation=N)
    t["persp-id"] = lambda: T.RandomPerspective(p=1, distortion_scale=0, interpolation=N)
    t["custom"] = lambda: custom()
    return t


SHORT = ["resize(3, 6)", "resize2", "hflip0.5", "vflip1", "rot90e", "rot90", "rot+-90", "center2", "center4", "center(5, 2)", "rcrop2", "rcrop(2, 3)", "rcrop3pad", "rcrop2padding1", "rrc2(0.25, 0.25)(1, 1)", "persp-id", "custom"]


_custom = None


def custom():
    """Moves the image by (1, 2) and adds 2 rows at the bottom"""
    global _custom
    if _custom is None:
        import numpy as np
        import PIL.Image
        import torch

        from megatron.energon.transforms import CustomTransform

        class Shift(CustomTransform):
            def __init__(self):
                pass

            def apply_transform(self, matrix, dst_size):
                return self.translate(1, 2) @ matrix, np.array((dst_size[0] + 2, dst_size[1]), dtype=dst_size.dtype), None

            def __call__(self, img):
                if isinstance(img, torch.Tensor):
                    out = torch.zeros(img.shape[0], img.shape[1] + 2, img.shape[2])
                    out[:, 2:, 1:] = img[:, :, :-1]
                    return out
                out = PIL.Image.new(img.mode, (img.width, img.height + 2), 0)
                out.paste(img, (1, 2))
                return out

        _custom = Shift
    return _custom()


class Draws:
    """All outcomes of torch's random functions, depth first"""

    def __init__(self):
        self.script, self.pos, self.prob = [], 0, 1

    def choose(self, n):
        if self.pos == len(self.script):
            self.script.append([0, n])
        assert self.script[self.pos][1] == n
        self.prob = self.prob / n if n > 1 else self.prob
        k = self.script[self.pos][0]
        self.pos += 1
        return k

    def advance(self):
        while self.script and self.script[-1][0] + 1 >= self.script[-1][1]:
            self.script.pop()
        if not self.script:
            return False
        self.script[-1][0] += 1
        return True


def outcomes(fn, limit=4000):
    """[(probability, result)] over all draws of torch.rand / randint / uniform_"""
    from fractions import Fraction

    import torch

    d = Draws()
    out = []
    orig = torch.rand, torch.randint, torch.Tensor.uniform_

    def rand(*a, **k):
        return torch.tensor([(0.25, 0.75)[d.choose(2)]])

    def randint(*a, **k):
        size = k.get("size")
        a = list(a)
        if size is None:
            size = a.pop()
        low, high = (a + [k.get("high")])[:2] if len(a) + ("high" in k) == 2 else (k.get("low", 0), a[0] if a else k["high"])
        assert tuple(size) in ((1,), ()), size
        if high <= low:
            raise RuntimeError("empty range")
        return torch.full(tuple(size), low + d.choose(high - low))

    def uniform_(self, a=0.0, b=1.0):
        a, b = float(a), float(b)
        return self.fill_(a if a == b else (a, b)[d.choose(2)])

    torch.rand, torch.randint, torch.Tensor.uniform_ = rand, randint, uniform_
    try:
        while True:
            d.pos, d.prob = 0, Fraction(1)
            try:
                r = fn()
            except Exception as e:
                r = ("error", f"{type(e).__name__}: {e}")
            out.append((d.prob, r))
            if len(out) > limit:
                raise OverflowError
            if not d.advance():
                return out
    finally:
        torch.rand, torch.randint, torch.Tensor.uniform_ = orig


def run_case(c):
    import itertools
    import math
    from collections import defaultdict

    import numpy as np
    import PIL.Image
    import torch
    from torchvision import transforms as T
    from torchvision.transforms import functional as F
    from torchvision.transforms.functional import InterpolationMode as IM

    import contextlib
    import io

    from megatron.energon.transforms import MergeTransform

    torch.set_num_threads(1)
    quiet = lambda: contextlib.redirect_stdout(io.StringIO())
    res = Res()
    tensor = c.get("inp") == "tensor"

    def image(h, w, mode):
        a = np.arange(1, h * w + 1, dtype=np.uint8).reshape(h, w)
        if mode == "L":
            return PIL.Image.fromarray(a)
        if mode == "RGB":
            return PIL.Image.fromarray(np.stack([a, a + 100, 255 - a], -1))
        return torch.from_numpy(np.stack([a, a * 2.0])).float()

    def arr(x):
        return np.asarray(x).astype(np.float64) if not isinstance(x, torch.Tensor) else np.round(x.numpy().astype(np.float64).transpose(1, 2, 0), 3) + 0.0

    def freeze(r):
        if isinstance(r, tuple) and r[0] == "error":
            return "error"
        a = arr(r)  # tensors are sampled bilinear unless a transform says otherwise: equal up to rounding
        return (a.shape, a.tobytes())

    def size_of(x):
        return (x.height, x.width) if isinstance(x, PIL.Image.Image) else tuple(x.shape[-2:])

    def tie(d, n):
        # a resize from d to n whose sample positions are at the border between two pixels
        # (or one which torchvision takes from the corner instead of the centre, with tensors)
        return any((2 * x + 1) * d % (2 * n) == 0 for x in range(n)) or c.get("inp") == "tensor" and n % d != 0

    class Skip(Exception):
        pass

    def sequential(ops, names, img, flags):
        """torchvision's transforms one by one; notes whether content was lost before the image was enlarged"""
        lost = False
        resized = False
        for op, name in zip(ops, names):
            h, w = size_of(img)
            if name.startswith("rot") and not op.expand and (h - w) % 2 and "180" not in name and name != "rot0":
                raise Skip()  # the centre is at the border between two pixels
            if name.startswith("rot") and tensor and (h - w) % 2 and name not in ("rot0", "rot180", "rot0e", "rot180e"):
                raise Skip()  # torchvision does not transpose tensors
            try:
                new = op(img)
            except Exception:
                if tensor and name.startswith(("resize", "rrc")):
                    raise Skip()  # empty images are refused for tensors
                raise
            nh, nw = size_of(new)
            if name.startswith(("resize", "rrc")):
                if resized:
                    raise Skip()  # nearest twice is not nearest once
                resized = True
                if name.startswith("rrc"):
                    i, j, ch, cw = flags.get("rrc")
                    if tie(cw, nw) or tie(ch, nh):
                        raise Skip()
                    lost = lost or (ch, cw) != (h, w)
                elif tie(h, nh) or tie(w, nw):
                    raise Skip()
            elif name.startswith("rot"):
                if not op.expand and h != w:
                    flags["hidden"] = flags["hidden"] or lost
                    lost = True
            elif name == "custom":
                flags["hidden"] = flags["hidden"] or lost
                lost = True
            elif name.startswith(("center", "rcrop")):
                if nh > h or nw > w or "padding" in name or "padboth" in name:
                    flags["hidden"] = flags["hidden"] or lost
                lost = lost or nh < h or nw < w or "pad" in name
            img = new
        return img

    if c["kind"] in ("seq", "sizes"):
        table = op_table(c["kind"] == "sizes")
        names = list(table)
        L = c.get("length", 1)
        if L == 3 and not c["deep"]:
            names = SHORT
        seqs = [(s,) for s in names] if L == 1 else [s for n in ((1, 2) if L == 2 else (3,)) for s in itertools.product(names, repeat=n)]
        if L == 3:
            sizes = [(2, 3), (4, 4), (5, 1)] if not c["deep"] else [(2, 3), (4, 4), (5, 1), (3, 3)]
            if c["deep"]:
                seqs = [s for s in seqs if len([n for n in s if n not in SHORT]) <= 1]
        elif L == 1:
            m = 5 if not c["deep"] else 9
            sizes = [(h, w) for h in range(1, m + 1) for w in range(1, m + 1)] + [(1, 16), (16, 1), (2, 16), (15, 3), (7, 12), (11, 2), (3, 10)]
        else:
            m = 4 if not c["deep"] else 7
            sizes = [(h, w) for h in range(1, m + 1) for w in range(1, m + 1)]
            if tensor:
                sizes = [s for s in sizes if s in ((1, 1), (2, 3), (3, 2), (4, 4), (1, 4), (4, 3))]
        skipped = strict = 0
        orig_params = T.RandomResizedCrop.get_params
        for si, s in enumerate(seqs):
            if si % c["of"] != c["part"]:
                continue
            if sum(n.startswith(("resize", "rrc")) for n in s) > 1:
                continue
            ops = [table[n]() for n in s]
            try:
                merged = MergeTransform(ops)
            except Exception as e:
                res.bad(f"refused:{s}", repr(e))
                continue
            for h, w in sizes:
                for mode in ("tensor",) if tensor else (("L", "RGB") if (h, w) == (2, 3) else ("L",)):
                    img = image(h, w, mode)
                    before = freeze(img)
                    flags = dict(hidden=False)

                    def get_params(*a, **k):
                        flags["rrc"] = orig_params(*a, **k)
                        return flags["rrc"]

                    T.RandomResizedCrop.get_params = staticmethod(get_params)
                    skip = False

                    def seq():
                        nonlocal skip
                        try:
                            return sequential(ops, s, img, flags)
                        except Skip:
                            skip = True
                            raise

                    try:
                        want = outcomes(seq, 1500)
                        if skip:
                            skipped += 1
                            continue
                    except OverflowError:
                        skipped += 1
                        continue
                    finally:
                        T.RandomResizedCrop.get_params = staticmethod(orig_params)
                    with quiet():
                        got = outcomes(lambda: merged(img), 1500)
                    res.evals += len(want) + len(got)
                    res.states += 1
                    res.key((s, h, w))
                    sig = f"merge:{s}:{h}x{w}:{mode}"
                    if freeze(img) != before:
                        res.bad(f"modified:{s}:{h}x{w}:{mode}", "the image was modified")
                    a, b = defaultdict(int), defaultdict(int)
                    rep = {}
                    for p, r in want:
                        a[freeze(r)] += p
                        rep[freeze(r)] = r
                    for p, r in got:
                        b[freeze(r)] += p
                        rep[freeze(r)] = r
                    if not flags["hidden"]:
                        strict += 1
                        if dict(a) != dict(b):
                            show = lambda d: [(float(p), rep[k][1] if k == "error" else arr(rep[k]).tolist()) for k, p in list(d.items())[:3]]
                            res.bad(sig, dict(expected=show({k: v for k, v in a.items() if b.get(k) != v}), got=show({k: v for k, v in b.items() if a.get(k) != v})))
                    else:
                        # parts which were moved out of the image in between may be visible instead of the fill
                        def match(x, y):
                            if x == "error" or y == "error":
                                return x == y
                            X, Y = arr(rep[x]), arr(rep[y])
                            return X.shape == Y.shape and bool(np.all((X == Y) | (X == 0)))

                        for k in a:
                            if not any(match(k, k2) for k2 in b):
                                res.bad(sig, dict(missing=arr(rep[k]).tolist() if k != "error" else rep[k], got=[str(arr(rep[k2]).tolist()) if k2 != "error" else rep[k2] for k2 in b][:3]))
                                break
                        for k2 in b:
                            if not any(match(k, k2) for k in a):
                                res.bad(sig, dict(unexpected=arr(rep[k2]).tolist() if k2 != "error" else rep[k2], expected=[str(arr(rep[k]).tolist()) if k != "error" else rep[k] for k in a][:3]))
                                break
                    if len(res.viol) > 10:
                        return res
        res.note("skipped: not pixel exact", skipped)
        res.note("compared as exact distributions", strict)
        res.sample = dict(last=str(s), length=L)
    elif c["kind"] == "fixed":
        # the size of the result of all transforms without randomness, for many image sizes
        m = 24 if not c["deep"] else 50
        table = [lambda s=s, x=x: T.Resize(s, max_size=x, interpolation=IM.NEAREST) for s in (1, 2, 3, 5, 8, [4], [9]) for x in (None, 4, 7, 10, 30) if x is None or x > (s if isinstance(s, int) else s[0])]
        table += [lambda s=s: T.Resize(s, interpolation=IM.NEAREST) for s in ((3, 4), (7, 1))]
        table += [lambda s=s: T.CenterCrop(s) for s in (1, 2, 5, 8, (3, 8), (8, 3))]
        for k, mk in enumerate(table):
            if k % c["of"] != c["part"]:
                continue
            op = mk()
            merged = MergeTransform([op])
            for h in range(1, m):
                for w in range(1, m):
                    img = PIL.Image.fromarray((np.arange(h * w) % 250 + 1).astype(np.uint8).reshape(h, w))
                    r = []
                    for f in (op, merged):
                        try:
                            with quiet():
                                r.append(f(img))
                        except Exception as e:
                            r.append(None)
                    res.evals += 2
                    res.states += 1
                    a, b = [x and x.size for x in r]
                    # images which would become empty are refused by PIL in one of the two
                    if a and b and a != b or bool(a) != bool(b):
                        res.bad(f"size:{op}:{h}x{w}", dict(expected=a, got=b))
                    elif a and isinstance(op, T.CenterCrop) and np.any(np.asarray(r[0]) != np.asarray(r[1])):
                        res.bad(f"crop:{op}:{h}x{w}", dict(expected=np.asarray(r[0]).tolist(), got=np.asarray(r[1]).tolist()))
                    if len(res.viol) > 10:
                        return res
            res.key(str(op))
        res.sample = dict(transforms=len(table), sizes=m - 1)
    elif c["kind"] == "angles":
        # the size of the result for all angles, and the contents for all multiples of 90 degrees
        m = 9 if not c["deep"] else 16
        sizes = [(h, w) for h in range(1, m) for w in range(1, m)] + [(1, 100), (100, 1), (99, 64), (480, 641)]
        for angle in range(-360, 361, 1):
            if angle % c["of"] != c["part"]:
                continue
            for expand in (False, True):
                op = T.RandomRotation((angle, angle), interpolation=IM.NEAREST, expand=expand)
                merged = MergeTransform([op])
                for h, w in sizes:
                    img = PIL.Image.fromarray((np.arange(h * w) % 250 + 1).astype(np.uint8).reshape(h, w))
                    want, got = op(img), merged(img)
                    res.evals += 2
                    res.states += 1
                    if want.size != got.size:
                        res.bad(f"rotated-size:{angle}:{expand}:{h}x{w}", dict(expected=want.size, got=got.size))
                    elif angle % 90 == 0 and (expand or (h - w) % 2 == 0 or angle % 180 == 0) and np.any(np.asarray(want) != np.asarray(got)):
                        res.bad(f"rotated:{angle}:{expand}:{h}x{w}", dict(expected=np.asarray(want).tolist(), got=np.asarray(got).tolist()))
                    if len(res.viol) > 10:
                        return res
            res.key(angle)
        res.sample = dict(angles="-360..360")
    elif c["kind"] == "perspective":
        # all draws of the corners; linear ramps, so bilinear sampling is exact inside of the image
        n = 0
        for h, w in ((6, 6), (7, 4), (4, 9)) + (((9, 9), (8, 11)) if c["deep"] else ()):
            yy, xx = np.mgrid[0:h, 0:w]
            ramp = (10.0 + xx * 3 + yy * 7).astype(np.float32)
            for scale, inp in itertools.product((0.4, 0.5), ("pil", "tensor")):
                op = T.RandomPerspective(p=1, distortion_scale=scale, interpolation=IM.BILINEAR)
                merged = MergeTransform([op])
                img = PIL.Image.fromarray(ramp) if inp == "pil" else torch.from_numpy(ramp)[None]
                n += 1
                if n % c["of"] != c["part"]:
                    continue
                want = outcomes(lambda: op(img), 70000)
                with quiet():
                    got = outcomes(lambda: merged(img), 70000)
                res.evals += len(want) + len(got)
                res.key((h, w, scale, inp))
                if len(want) != len(got):
                    res.bad(f"perspective-draws:{h}x{w}:{scale}:{inp}", dict(expected=len(want), got=len(got)))
                    continue
                # degenerate corners may be refused
                errors = [(str(x)[:200], str(y)[:200]) for (_, x), (_, y) in zip(want, got) if isinstance(x, tuple) != isinstance(y, tuple)]
                if errors:
                    res.bad(f"perspective-error:{h}x{w}:{scale}:{inp}", dict(count=len(errors), example=str(errors[0])))
                pairs = [(x, y) for (x, y) in zip(want, got) if not isinstance(x[1], tuple) and not isinstance(y[1], tuple)]
                want, got = [x for x, _ in pairs], [y for _, y in pairs]
                A = np.stack([arr(r).reshape(h, w) for _, r in want])
                B = np.stack([arr(r).reshape(h, w) for _, r in got])
                # only pixels which are clearly inside in both
                inside = (A > 10.5) & (B > 10.5)
                core = inside.copy()
                core[:, 1:] &= inside[:, :-1]
                core[:, :-1] &= inside[:, 1:]
                core[:, :, 1:] &= inside[:, :, :-1]
                core[:, :, :-1] &= inside[:, :, 1:]
                core[:, [0, -1], :] = False
                core[:, :, [0, -1]] = False
                err = np.abs(A - B) * core
                res.states += int(core.sum())
                if err.max() > 0.3:
                    k = int(err.reshape(len(err), -1).max(1).argmax())
                    res.bad(f"perspective:{h}x{w}:{scale}:{inp}", dict(error=float(err.max()), expected=A[k].tolist(), got=B[k].tolist()))
        res.sample = dict(kind="perspective")
    else:
        N, B = IM.NEAREST, IM.BILINEAR
        ok = lambda ts: MergeTransform(ts)
        rot = lambda fill=0, i=N: T.RandomRotation((90, 90), interpolation=i, fill=fill, expand=True)
        table = [
            ([rot(0), T.RandomCrop(2, fill=0)], True),
            ([rot(5), T.RandomCrop(2, fill=0)], False),
            ([T.RandomCrop(2, fill=0), rot(5)], False),
            ([rot(5), T.RandomCrop(2, fill=5)], True),
            ([rot(0, N), T.Resize(3, interpolation=B)], False),
            ([T.Resize(3, interpolation=B), rot(0, N)], False),
            ([T.Resize(3, interpolation=B), T.CenterCrop(2), rot(0, B)], True),
            ([T.Resize(3, interpolation=N), T.CenterCrop(2), rot(0, N), T.Resize(3, interpolation=B)], False),
            ([T.ColorJitter()], False),
            ([T.RandomHorizontalFlip(1), torch.nn.Identity()], False),
            ([T.ToTensor()], False),
            ([custom(), T.CenterCrop(3)], True),
            ([], True),
        ]
        for ts, valid in table:
            res.evals += 1
            res.key(repr(ts))
            try:
                ok(ts)
                r = True
            except ValueError:
                r = False
            except Exception as e:
                r = repr(e)
            if r != valid:
                res.bad(f"accepted:{ts}", dict(expected=valid, got=r))
        # fill values
        for fill, mode in itertools.product((0, 7, (7,), (1, 2, 3)), ("L", "RGB")):
            if mode == "L" and not isinstance(fill, int) and len(fill) != 1 or mode == "RGB" and not isinstance(fill, int) and len(fill) == 1:
                continue
            img = image(2, 3, mode)
            for mk in (lambda: [T.RandomCrop((2, 5), pad_if_needed=True, fill=fill)], lambda: [rot(fill), T.RandomCrop((2, 5), pad_if_needed=True, fill=fill)]):
                ops = mk()
                res.evals += 1
                res.key((str(fill), mode, len(ops)))
                a = {freeze(r) for _, r in outcomes(lambda: sequential(ops, ["rot90e", "rcroppad"][-len(ops) :], img, dict(hidden=False)))}
                with quiet():
                    b = {freeze(r) for _, r in outcomes(lambda: MergeTransform(ops)(img))}
                if a != b:
                    res.bad(f"fill:{fill}:{mode}:{len(ops)}", dict(expected=str(a)[:400], got=str(b)[:400]))
        res.sample = dict(kind="refusals")
    return res


if __name__ == "__main__":
    main(
        "C28",
        "exploration",
        cases,
        run_case,
        rule="all sequences of pixel exact transforms up to the length bound x image sizes x all random draws, merged against one by one; distinct = distinct (sequence, size)",
        assumptions=["a uniform draw is replaced by its two endpoints, a probability by a draw below or above it", "torchvision's transforms are the reference"],
    )
