"""Reference semantics of the stream wrappers over plain lists, with enumerated user-function
behaviours.  Deliberately boring: a sample is an id, an output is (ids..., sub index)."""
from lib.toy import TSample

from megatron.energon.wrappers import SkipSample


class Boom(ValueError):
    pass


# behaviours of one call:
#   o ok | s skip | e ordinary error | f fatal ("system") error
#   generator functions: a digit = number of outputs;  G/S/F = one output, then error/skip/fatal
PLAIN = "ose"
GEN = "012GS"


def out_sample(ids, sub, tag):
    return TSample(
        __key__="k", __restore_key__=(), __subflavor__=None, __subflavors__=None,
        v=[tag, list(ids), sub],
    )


class User:
    """User callbacks whose outcome for a call is looked up by the first sample id it is given."""

    def __init__(self, beh, tag="t", fatal=NameError):
        self.beh, self.tag, self.fatal = beh, tag, fatal
        self.calls = []
        self.errors = []

    def ids(self, x):
        return [User._id(s) for s in x] if isinstance(x, (list, tuple)) else [User._id(x)]

    @staticmethod
    def _id(s):
        return s.v if isinstance(s.v, int) else tuple(s.v[1])

    def outcome(self, ids):
        return self.beh[ids[0]] if ids and ids[0] in self.beh else "o"

    def plain(self, x):
        ids = self.ids(x)
        self.calls.append(tuple(ids))
        b = self.outcome(ids)
        if b == "s":
            raise SkipSample()
        if b == "e":
            raise Boom("boom")
        if b == "f":
            raise self.fatal("fatal")
        return self.hold(out_sample(ids, 0, self.tag), x)

    @staticmethod
    def hold(out, x):
        # a user function may keep the list it was given (as default collation of non-tensors does)
        if isinstance(x, list):
            out.held = x
        return out

    def gen(self, x):
        ids = self.ids(x)
        self.calls.append(tuple(ids))
        b = self.outcome(ids)
        n = 1 if b in "GSF" else int(b) if b.isdigit() else 1
        for k in range(n):
            yield self.hold(out_sample(ids, k, self.tag), x)
        if b == "G":
            raise Boom("boom")
        if b == "S":
            raise SkipSample()
        if b == "F":
            raise self.fatal("fatal")

    def handler(self, e, x):
        self.errors.append((type(e).__name__, tuple(self.ids(x)) if x is not None else None))


def ref_call(b, ids):
    """-> (outputs, errors, fatal?)"""
    ids = tuple(ids)
    if b in ("o",):
        return [(ids, 0)], [], False
    if b == "s":
        return [], [], False
    if b == "e":
        return [], [("Boom", ids)], False
    if b == "f":
        return [], [], True
    if b == "G":
        return [(ids, 0)], [("Boom", ids)], False
    if b == "S":
        return [(ids, 0)], [], False
    if b == "F":
        return [(ids, 0)], [], True
    return [(ids, k) for k in range(int(b))], [], False


def ref_groups(groups, beh, default="o"):
    """groups: list of id lists handed to the user function in order."""
    outs, errs = [], []
    for g in groups:
        o, e, fatal = ref_call(beh.get(g[0], default), g)
        outs += o
        errs += e
        if fatal:
            return outs, errs, True
    return outs, errs, False


def chunks(ids, n, drop_last):
    out = [ids[i : i + n] for i in range(0, len(ids), n)]
    if drop_last and out and len(out[-1]) < n:
        out.pop()
    return out


def ref_group_batch(ids, crit, size_of, drop_last, crit_beh=None):
    """crit(id) -> bucket key; order: as filled, the remaining ones in bucket creation order."""
    crit_beh = crit_beh or {}
    buckets, out, errs = {}, [], []
    for i in ids:
        b = crit_beh.get(i, "o")
        if b == "s":
            continue
        if b == "e":
            errs.append(i)
            continue
        k = crit(i)
        buckets.setdefault(k, []).append(i)
        if len(buckets[k]) >= size_of(k):
            out.append(buckets[k])
            buckets[k] = []
    if not drop_last:
        for k, v in buckets.items():
            if v:
                out.append(v)
    return out, errs


def norm(samples):
    """observed output samples -> [(ids, sub)]"""
    def ids(l):
        return tuple(ids(x) if isinstance(x, (list, tuple)) else x for x in l)

    def held(s):
        h = getattr(s, "held", None)
        return () if h is None or User.ids(None, h) == list(s.v[1]) else ("given list changed afterwards",)

    return [(ids(s.v[1]) + held(s), s.v[2]) for s in samples]
