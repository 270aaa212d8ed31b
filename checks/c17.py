"""C17: the retrying stream delivers the bytes of the file under every sequence of transient faults."""
import io
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import Res, main  # noqa

FILE = [bytes(range(1, 8))]  # the content; 7 different bytes
OPS = [("read", -1), ("read", 0), ("read", 1), ("read", 3), ("read", 50), ("seek", 0, 0), ("seek", 2, 0), ("seek", 50, 0), ("seek", -1, 1), ("seek", 2, 1), ("seek", -2, 2), ("seek", -50, 2), ("tell",)]
# all positions from all origins
PLAIN = [("read", n) for n in (-1, 0, 1, 3, 50)] + [("seek", o, w) for w in (0, 1, 2) for o in (-50, -2, -1, 0, 1, 2, 7, 50)] + [("tell",)]
SUBS = [(0, 7), (2, 4), (3, 4)]


class Fault:
    """Chooses the outcome of every call to the file system; at most `budget` are not ok."""

    def __init__(self, prefix, budget):
        self.prefix, self.budget, self.trace = prefix, budget, []

    def choose(self, options):
        n = len(options) if self.budget > 0 else 1
        k = len(self.trace)
        c = self.prefix[k] if k < len(self.prefix) else 0
        assert c < n, "replay divergence"
        self.trace.append((c, n))
        if c:
            self.budget -= 1
        return options[c]


class File(io.RawIOBase):
    def __init__(self, ch):
        self.ch, self.pos, self.dead = ch, 0, False

    def _use(self):
        if self.dead:
            raise ValueError("I/O operation on closed file")

    def seek(self, off, whence=0):
        self._use()
        if self.ch.choose(("ok", "err")) == "err":
            raise OSError("seek failed")
        self.pos = {0: 0, 1: self.pos, 2: len(FILE[0])}[whence] + off
        return self.pos

    def tell(self):
        return self.pos

    def read(self, n=-1):
        self._use()
        end = len(FILE[0]) if n is None or n < 0 else min(len(FILE[0]), self.pos + n)
        out = FILE[0][self.pos : end]
        # failing may or may not have consumed data already; short: fewer bytes; eof: none at all
        what = self.ch.choose(("ok", "err", "err-adv") + (("short", "eof") if len(out) > 1 else ("eof",) if out else ()))
        if what == "err-adv":
            self.pos = end
        if what.startswith("err"):
            raise OSError("read failed")
        if what == "short":
            out = out[: len(out) // 2]
        if what == "eof":
            out = b""
        self.pos += len(out)
        return out

    def close(self):
        if not self.dead:
            self.dead = True
            if self.ch is not None and self.ch.choose(("ok", "err")) == "err":
                raise OSError("close failed")

    def readable(self):
        return True

    def seekable(self):
        return True

    def __del__(self):
        self.ch, self.dead = None, True


class Fs:
    """Stands for the file system of the path."""

    def __init__(self, ch):
        self.ch = ch
        self.opens = 0

    def open(self, path, mode="rb", **kw):
        assert mode == "rb"
        self.opens += 1
        if self.opens > 2000:
            raise RuntimeError("opened 2000 times")
        if self.ch.choose(("ok", "err")) == "err":
            raise OSError("open failed")
        return File(self.ch)

    def size(self, path):
        return len(FILE[0])

    def info(self, path):
        return dict(size=len(FILE[0]), name=path, type="file")


def cases(tier):
    out = []
    L, F = (3, 2) if tier == "quick" else (3, 3)
    for sub in [None] + SUBS:
        for first in range(len(OPS)):
            for second in range(len(OPS)) if tier != "quick" else (None,):
                out.append(dict(kind="ops", sub=sub, first=first, second=second, L=L, F=F))
    for sub in [None] + SUBS:
        out.append(dict(kind="burst", sub=sub, N=12))
        out += [dict(kind="plain", sub=sub, first=k, L=3 if tier == "quick" else 4) for k in range(len(PLAIN))]
        out.append(dict(kind="many", sub=sub, R=4))
    out.append(dict(kind="tar"))
    return out


class Ref:
    def __init__(self, data):
        self.data, self.pos = data, 0

    def do(self, op):
        if op[0] == "tell":
            return self.pos
        if op[0] == "read":
            end = len(self.data) if op[1] == -1 else min(len(self.data), self.pos + op[1])
            r = self.data[self.pos : end]
            self.pos = end
            return r
        base = {0: 0, 1: self.pos, 2: len(self.data)}[op[2]]
        self.pos = min(max(base + op[1], 0), len(self.data))
        return self.pos


def run_case(c):
    from megatron.energon.epathlib import EPath
    from megatron.energon.flavors.webdataset.itar import SubFileReader
    from megatron.energon.retry_stream import RetryReadStream

    res = Res()

    def mk(ch):
        p = EPath("/nonexistent/file")
        p.fs = Fs(ch)
        s = RetryReadStream(p)
        if c.get("sub"):
            return s, SubFileReader(s, offset=c["sub"][0], size=c["sub"][1])
        return s, s

    data = FILE[0] if not c.get("sub") else FILE[0][c["sub"][0] : c["sub"][0] + c["sub"][1]]

    def do(s, op):
        return getattr(s, op[0])(*op[1:])

    if c["kind"] == "ops":
        rest = [range(len(OPS))] * (c["L"] - 1)
        if c["second"] is not None:
            rest[0] = [c["second"]]
        for seq in itertools.product([c["first"]], *rest):
            ops = [OPS[i] for i in seq] + [("read", -1)]
            ref = Ref(data)
            want = [ref.do(op) for op in ops]
            stack = [[]]
            while stack:
                prefix = stack.pop()
                ch = Fault(prefix, c["F"])
                got = []
                try:
                    _, s = mk(ch)
                    for op in ops:
                        got.append(do(s, op))
                except Exception as ex:
                    got.append(repr(ex))
                res.evals += 1
                res.transitions += len(ch.trace)
                if got != want:
                    res.bad(f"bytes:{c['sub']}:{ops}:{[x for x, _ in ch.trace]}", dict(ops=ops, want=want, got=got, faults=ch.trace))
                    if len(res.viol) > 5:
                        return res
                for k in range(len(ch.trace) - 1, len(prefix) - 1, -1):
                    cc, ar = ch.trace[k]
                    for alt in range(cc + 1, ar):
                        stack.append([x for x, _ in ch.trace[:k]] + [alt])
                res.key((seq, tuple(x for x, _ in ch.trace)))
        res.sample = dict(ops=ops, outcomes=ch.trace)
    elif c["kind"] == "plain":
        for rest in itertools.product(PLAIN, repeat=c["L"] - 1):
            ops = [PLAIN[c["first"]], *rest, ("tell",), ("read", -1)]
            ref = Ref(data)
            want = [ref.do(op) for op in ops]
            got = []
            try:
                _, s = mk(Fault([], 0))
                for op in ops:
                    got.append(do(s, op))
            except Exception as ex:
                got.append(repr(ex))
            res.evals += 1
            res.transitions += len(ops)
            res.key((c["sub"], tuple(ops)))
            if got != want:
                res.bad(f"plain:{c['sub']}:{ops}", dict(ops=ops, want=want, got=got))
                return res
        res.sample = dict(ops=ops)
    elif c["kind"] == "many":
        # transient faults in many reads of one stream: each read is repeated on its own

        class PerRead:
            def __init__(self, kind):
                self.kind, self.left = kind, 0

            def choose(self, options):
                if self.left and self.kind in options:
                    self.left -= 1
                    return self.kind
                return "ok"

        vectors = list(itertools.product((0, 1, 5, 9), repeat=c["R"])) + [(k,) * m for m in range(5, 40) for k in (1, 2, 9)]
        for vec in vectors:
            for kind in ("err", "err-adv", "eof"):
                ch = PerRead(kind)
                ref, got, want = Ref(data), [], []
                try:
                    _, s = mk(ch)
                    for i in range(len(vec)):
                        ch.left = 0
                        if i % 4 == 3:
                            want.append(ref.do(("seek", 0, 0)))
                            got.append(do(s, ("seek", 0, 0)))
                        ch.left = vec[i]
                        want.append(ref.do(("read", 1)))
                        got.append(do(s, ("read", 1)))
                except Exception as ex:
                    got.append(repr(ex))
                res.evals += 1
                res.transitions += len(want)
                res.key((c["sub"], vec, kind))
                if got != want:
                    res.bad(f"many:{c['sub']}:{vec}:{kind}", dict(faults=vec, kind=kind, want=want, got=got))
                    return res
        res.sample = dict(vectors=len(vectors))
    elif c["kind"] == "burst":
        # k failures in a row, at any position: absorbed up to nine, reported afterwards, never wrong data

        class Burst:
            def __init__(self, at, k, kind):
                self.at, self.k, self.kind, self.n = at, k, kind, 0

            def choose(self, options):
                i = self.n
                self.n += 1
                if i < self.at or self.k == 0:
                    return "ok"
                w = self.kind if self.kind in options else "err" if "err" in options and self.kind != "short" else "ok"
                if w != "ok":
                    self.k -= 1
                return w

        for seq in itertools.product(range(len(OPS)), repeat=2):
            ops = [OPS[i] for i in seq] + [("read", -1)]
            ref = Ref(data)
            want = [ref.do(op) for op in ops]
            for at in range(c["N"]):
                for k in (1, 2, 5, 8, 9, 30, 10**6):
                    for kind in ("err", "err-adv", "eof", "short"):
                        ch = Burst(at, k, kind)
                        got = []
                        try:
                            _, s = mk(ch)
                            for op in ops:
                                got.append(do(s, op))
                        except OSError:
                            got.append("OSError")
                        except Exception as ex:
                            got.append(repr(ex))
                        res.evals += 1
                        sig = f"burst:{c['sub']}:{ops}:{at}:{k}:{kind}"
                        res.key((seq, at, k, kind))
                        ok = got == want or (k > 9 and kind != "short" and got and got[-1] == "OSError" and got[:-1] == want[: len(got) - 1])
                        if not ok:
                            res.bad(sig, dict(want=want, got=got))
        res.sample = dict(ops=ops)
    else:
        # the whole reading path of a shard slice, with one or two transient faults at every position
        import tarfile

        buf = io.BytesIO()
        offs = []
        with tarfile.open(fileobj=buf, mode="w") as t:
            for i in range(4):
                ti = tarfile.TarInfo(f"s{i}.txt")
                d = f"content {i} ".encode() * (1 + 100 * i)
                ti.size = len(d)
                offs.append(t.offset)
                t.addfile(ti, io.BytesIO(d))
            offs.append(t.offset)
        old, FILE[0] = FILE[0], buf.getvalue()
        try:
            for a, b in itertools.combinations(range(5), 2):
                want = [(f"s{i}.txt", f"content {i} ".encode() * (1 + 100 * i)) for i in range(a, b)]
                stack = [[]]
                n = 0
                while stack:
                    prefix = stack.pop()
                    ch = Fault(prefix, 2)
                    p = EPath("/nonexistent/file")
                    p.fs = Fs(ch)
                    s = RetryReadStream(p)
                    got = []
                    try:
                        f = SubFileReader(s, offset=offs[a], size=offs[b] - offs[a])
                        with tarfile.open(fileobj=f, mode="r|") as t:
                            for m in t:
                                got.append((m.name, t.extractfile(m).read()))
                    except Exception as ex:
                        got.append(repr(ex))
                    res.evals += 1
                    res.key((a, b, tuple(x for x, _ in ch.trace)))
                    if got != want:
                        res.bad(f"tar:{a}:{b}:{[x for x, _ in ch.trace]}", dict(want=str(want)[:300], got=str(got)[:300]))
                    for k in range(len(ch.trace) - 1, len(prefix) - 1, -1):
                        cc, ar = ch.trace[k]
                        for alt in range(cc + 1, ar):
                            stack.append([x for x, _ in ch.trace[:k]] + [alt])
        finally:
            FILE[0] = old
        res.sample = dict(slices=10)
    return res


if __name__ == "__main__":
    main(
        "C17",
        "fault_enumeration",
        cases,
        run_case,
        case_timeout=300,
        rule="every sequence of read/seek/tell calls up to the depth x every placement of up to the budget of faults (failing open/seek/read/close, reads failing after consuming, short reads, premature end) on every call to the file system; bursts of 1..9 and of 10 or more failures at every position; distinct = distinct (calls, fault placement)",
    )
