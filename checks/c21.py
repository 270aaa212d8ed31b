"""C21: EPath against an independent path model (states = paths reached), file operations against pathlib
on a twin directory and a dictionary for an in-memory object store, and the rclone configuration."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import Res, main  # noqa

STARTS = [
    "/", "/a", "/a/b.tar.gz", "/.hid", "/a/./b//c/", "/x y/[1]/d*", "/..a/...", "/a.b/c",
    "a", "a/b.tar", ".", "", "./a", "a/./b", "x y/[1]", "..a",
    "rclone://r1", "rclone://r1/", "rclone://r1/b", "rclone://r1/b/k.tar.gz", "rclone:///r1/b", "rclone://r1//b///c", "rclone://r1/b/../c/./d", "rclone://r1/b/c/../../d",
    "rclone://r2/b/k.tar.gz", "rclone://r1/x y/[1]/d*",
]
SEGS = [
    "x", "..", ".", "../..", "x/../y", "../x", "./x", "", "x//y/", "y.tar.gz", "x y", "[1]/d*", "..x", "...", ".hid", "../../../..", "x/y/../../..",
    "/abs", "/abs/./q//", "/", "rclone://r2/k", "rclone://r1/b/c.d", "rclone://r1",
]
SUFS = [".z", ".t.z", "", "x", ".", ".a/b"]
CHARS = ["a", "%", "=", ":", "#", ";", " ", '"', "/", "+", "$", "{", "\\", "[", "]", "%("]


def cases(tier):
    out = [dict(kind="alg", start=s, depth=3 if tier == "thorough" else 2) for s in STARTS]
    out += [dict(kind="pairs", part=k, of=4) for k in range(4)]
    out += [dict(kind="bad")]
    for k in range(16):
        out.append(dict(kind="local", part=k, of=16, depth=3 if tier == "thorough" else 2))
        out.append(dict(kind="remote", part=k, of=16, depth=4 if tier == "thorough" else 3))
    out += [dict(kind="glob", part=k, of=4) for k in range(4)]
    out += [dict(kind="conf", part=k, of=4, n=3 if tier == "thorough" else 2) for k in range(4)]
    out += [dict(kind="where"), dict(kind="fork")]
    return out


# ------------------------------------------------------------------ the path model
class PathError(Exception):
    pass


class M:
    """kind: local / r1 / r2; absolute: components below the root of the file system"""

    def __init__(self, kind, absolute, comps):
        self.kind, self.abs, self.comps = kind, absolute, tuple(comps)

    def key(self):
        return (self.kind, self.abs, self.comps)

    def __str__(self):
        if self.kind != "local":
            return "/".join((f"rclone://{self.kind}",) + self.comps)
        if self.abs:
            return "/" + "/".join(self.comps)
        return "/".join(self.comps) or "."


def split(s):
    return [c for c in s.split("/") if c not in ("", ".")]


def norm(comps):
    out = []
    for c in comps:
        if c == "..":
            if not out:
                raise PathError
            out.pop()
        else:
            out.append(c)
    return out


def parse(s):
    if s.startswith("rclone://"):
        c = split(s[9:])
        return M(c[0], True, norm(c[1:]))
    return M("local", s.startswith("/"), split(s))


def join(p, o):
    if o.abs:
        return o
    return M(p.kind, True, norm(p.comps + o.comps))


def parent(p):
    if not p.abs and not p.comps:
        return p
    return M(p.kind, p.abs, p.comps[:-1])


def with_suffix(p, suf):
    if not p.comps:
        raise PathError
    import pathlib

    try:
        n = pathlib.PurePosixPath(p.comps[-1]).with_suffix(suf).name
    except ValueError:
        raise PathError
    return M(p.kind, p.abs, p.comps[:-1] + (n,))


# ------------------------------------------------------------------ an object store in memory
STORES = {}


def fake_s3():
    import fsspec

    class FakeS3(fsspec.AbstractFileSystem):
        protocol = "s3"
        cachable = False
        created = []

        def __init__(self, **kw):
            super().__init__()
            self.kw = kw
            self._pid = os.getpid()
            self.where = (kw.get("endpoint_url"), kw.get("key"))
            FakeS3.created.append(kw)

        def __eq__(self, o):
            return isinstance(o, FakeS3) and o.where == self.where

        __hash__ = object.__hash__

        @property
        def data(self):
            if self._pid != os.getpid():
                raise RuntimeError("file system used in a forked process")
            return STORES.setdefault(self.where, {})

        @classmethod
        def _strip_protocol(cls, path):
            return path.strip("/")

        @classmethod
        def clear_instance_cache(cls):
            pass

        def info(self, path, **kw):
            p = self._strip_protocol(path)
            if p in self.data:
                return dict(name=p, size=len(self.data[p]), type="file")
            if not p or any(k.startswith(p + "/") for k in self.data):
                return dict(name=p, size=0, type="directory")
            raise FileNotFoundError(path)

        def ls(self, path, detail=True, **kw):
            p = self._strip_protocol(path)
            i = self.info(path)
            if i["type"] == "file":
                out = [i]
            else:
                pre = p + "/" if p else ""
                names = sorted({pre + k[len(pre) :].split("/")[0] for k in self.data if k.startswith(pre)})
                out = [self.info(n) for n in names]
            return out if detail else [o["name"] for o in out]

        def open(self, path, mode="rb", block_size=None, **kw):
            import io

            p = self._strip_protocol(path)
            data = self.data
            if "w" in mode:

                class W(io.BytesIO):
                    def close(s):
                        if not s.closed:
                            data[p] = s.getvalue()
                        super().close()

                f = W()
            else:
                if p not in data:
                    raise FileNotFoundError(path)
                f = io.BytesIO(data[p])
            return f if "b" in mode else io.TextIOWrapper(f)

        def rm_file(self, path):
            p = self._strip_protocol(path)
            if p not in self.data:
                raise FileNotFoundError(path)
            del self.data[p]

        def rm(self, path, recursive=False, maxdepth=None):
            self.rm_file(path)

        def mv(self, a, b, **kw):
            a, b = self._strip_protocol(a), self._strip_protocol(b)
            if a not in self.data:
                raise FileNotFoundError(a)
            self.data[b] = self.data.pop(a)

        def mkdir(self, path, create_parents=True, **kw):
            pass

        def makedirs(self, path, exist_ok=False):
            pass

    return FakeS3


CONF = """[r1]
type = s3
provider = Other
access_key_id = k1
secret_access_key = s1
region = here
endpoint = one.example.com

[r2]
type = s3
provider = Other
access_key_id = k2
secret_access_key = s2
region = there
endpoint = http://two.example.com:9000

[other]
type = ftp
"""


def run_case(case):
    import contextlib
    import itertools
    import pathlib
    import shutil
    import tempfile

    import s3fs

    from lib.disk import scratch

    res = Res()
    tmp = tempfile.mkdtemp(dir=scratch())
    STORES.clear()
    old = s3fs.S3FileSystem
    s3fs.S3FileSystem = Fake = fake_s3()
    env = {k: os.environ.get(k) for k in ("PATH", "XDG_CONFIG_HOME", "HOME")}
    os.makedirs(f"{tmp}/conf/rclone")
    os.makedirs(f"{tmp}/home")
    os.makedirs(f"{tmp}/bin")
    open(f"{tmp}/conf/rclone/rclone.conf", "w").write(CONF)
    os.environ.update(PATH=f"{tmp}/bin", XDG_CONFIG_HOME=f"{tmp}/conf", HOME=f"{tmp}/home")
    cwd = os.getcwd()
    os.chdir(f"{tmp}/home")
    from megatron.energon.epathlib import EPath

    def outcome(f):
        try:
            return ("ok", f())
        except Exception as e:
            return ("error", e)

    def bad(sig, **d):
        res.bad(f"{case['kind']}:{sig}"[:150], d)

    def same(p, m, how):
        """p (EPath) is the path m of the model"""
        res.transitions += 1
        want = str(m)
        st, got = outcome(lambda: (str(p), p.is_absolute()))
        if st != "ok" or got != (want, m.abs):
            bad(f"{how}->{want}", how=how, expected=want, got=repr(got))
            return False
        if m.abs and p.url != want:
            bad(f"url:{how}", how=how, expected=want, got=p.url)
            return False
        if m.comps and p.name != m.comps[-1]:
            bad(f"name:{how}", how=how, expected=m.comps[-1], got=p.name)
            return False
        q = EPath(want)
        if not (p == q and hash(p) == hash(q)):
            bad(f"roundtrip:{how}", how=how, path=want)
            return False
        if m.abs and not (p.fs == q.fs):
            bad(f"fs:{how}", how=how, path=want)
            return False
        if m.abs and (p.absolute() != p):
            bad(f"absolute:{how}", how=how, path=want)
            return False
        return True

    def step(p, m, op, how):
        """apply op to both; returns the new pair or None"""
        name, arg = op
        if name == "join":
            e = outcome(lambda: p / arg)
            r = outcome(lambda: join(m, parse(arg)))
        elif name == "joinE":
            e = outcome(lambda: p / EPath(arg))
            r = outcome(lambda: join(m, parse(arg)))
        elif name == "parent":
            e = outcome(lambda: p.parent)
            r = outcome(lambda: parent(m))
        elif name == "suffix":
            e = outcome(lambda: p.with_suffix(arg))
            r = outcome(lambda: with_suffix(m, arg))
        how = how + [op]
        if r[0] == "error":
            assert isinstance(r[1], PathError), r
            if e[0] != "error" or not isinstance(e[1], ValueError):
                bad(f"not-refused:{how}", how=how, got=str(e[1]))
            return None
        if e[0] == "error":
            bad(f"refused:{how}", how=how, expected=str(r[1]), got=repr(e[1]))
            return None
        if not same(e[1], r[1], how):
            return None
        return e[1], r[1], how

    def close():
        os.chdir(cwd)
        s3fs.S3FileSystem = old
        for k, v in env.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        shutil.rmtree(tmp, ignore_errors=True)

    try:
        if case["kind"] == "alg":
            s = case["start"]
            p, m = EPath(s), parse(s)
            if not same(p, m, [s]):
                return res
            seen = {m.key()}
            front = [(p, m, [s])]
            for depth in range(case["depth"] + 1):
                nxt = []
                for p, m, how in front:
                    ops = [("parent", None)] + [("suffix", x) for x in SUFS if m.comps or m.kind == "local"]
                    if m.abs:
                        ops += [("join", x) for x in SEGS] + [("joinE", x) for x in SEGS]
                    elif m.comps and ".." in m.comps:
                        ops = []
                    before = str(p)
                    for op in ops:
                        if len(res.viol) > 5:
                            return res
                        if op[0] == "suffix" and m.comps and m.comps[-1].startswith(".."):
                            continue
                        r = step(p, m, op, how)
                        if r is not None and r[1].key() not in seen:
                            seen.add(r[1].key())
                            nxt.append(r)
                    if str(p) != before:
                        bad(f"changed:{how}", how=how, before=before, after=str(p))
                    if not m.abs:
                        a = p.absolute()
                        if str(a) != os.path.join(os.getcwd(), *m.comps):
                            bad(f"absolute:{how}", how=how, got=str(a))
                        if outcome(lambda: p.is_file())[0] == "ok":
                            bad(f"relative-access:{how}", how=how)
                front = nxt
            res.states = len(seen)
            res.sample = dict(start=s, reached=len(seen), last=[x[2] for x in front[:1]])
        elif case["kind"] == "pairs":
            C = ["a", "b.t", "c", "a b", "[1]"]
            paths = [M(k, True, c) for k in ("local", "r1", "r2") for n in range(4) for c in itertools.product(C[: 3 if n == 3 else 5], repeat=n)]
            # local paths spelled like the ones of a remote
            paths += [M("local", True, ("r1",) + c) for n in range(3) for c in itertools.product(C[:3], repeat=n)]
            E = [EPath(str(m)) for m in paths]
            res.states = len(paths)
            for i, (p, m) in enumerate(zip(E, paths)):
                if i % case["of"] != case["part"]:
                    continue
                for q, o in zip(E, paths):
                    res.transitions += 1
                    eq = m.key() == o.key()
                    if (p == q) != eq or (eq and hash(p) != hash(q)):
                        bad(f"eq:{m}:{o}", a=str(m), b=str(o))
                    lt = outcome(lambda: p < q)
                    if m.kind != o.kind:
                        ok = lt[0] == "error"
                    else:
                        ok = lt == ("ok", m.comps < o.comps)
                    if not ok:
                        bad(f"lt:{m}:{o}", a=str(m), b=str(o), got=repr(lt))
                    r = outcome(lambda: p.relative_to(q))
                    if m.kind != o.kind or m.comps[: len(o.comps)] != o.comps:
                        if r[0] != "error":
                            bad(f"rel:{m}:{o}", a=str(m), b=str(o), got=repr(r))
                    elif r != ("ok", "/".join(m.comps[len(o.comps) :]) or ".") or not (q / r[1] == p):
                        bad(f"rel:{m}:{o}", a=str(m), b=str(o), got=repr(r))
        elif case["kind"] == "bad":
            for s in ["rclone://unknown/a", "rclone://other/a", "http://x/y", "rclone://r1/..", "rclone://r1/../r2/x", "rclone://r1/a/../../r2", "rclone://..", "rclone://."]:
                r = outcome(lambda: EPath(s))
                res.transitions += 1
                if r[0] == "ok":
                    bad(f"accepted:{s}", path=s, got=str(r[1]))
            for kind in ("local", "r1"):
                p = EPath(str(M(kind, True, ("a",))))
                for q in (EPath("rel"), EPath("rel/x")):
                    for name, f in dict(rel=lambda: p.relative_to(q), lt=lambda: q / "x", open=lambda: q.open(), glob=lambda: list(q.glob("*")), size=lambda: q.size(), mk=lambda: q.mkdir(), mv=lambda: p.move(q), rm=lambda: q.unlink(), d=lambda: q.is_dir()).items():
                        res.transitions += 1
                        if outcome(f)[0] == "ok":
                            bad(f"relative:{name}", path=str(q))
            a, b, c = EPath("rclone://r1/a"), EPath("rclone://r2/a"), EPath(f"{tmp}/home/a")
            for x, y in itertools.permutations((a, b, c), 2):
                with x.open("wb") as f:
                    f.write(b"1")
                res.transitions += 1
                if outcome(lambda: x.move(y))[0] == "ok" or not x.is_file() or y.is_file() and not (y == c or y == a or y == b):
                    bad("move-across", a=str(x), b=str(y))
        elif case["kind"] == "local":
            names = ["a", "d[1]", "d[1]/f", "x y/*", "d1", "d[1]/g/h"]
            ops = []
            for n in names:
                ops += [("write", n), ("mkdir", n), ("mkdirs", n), ("unlink", n)]
            ops += [("move", a, b) for a, b in (("a", "d1"), ("a", "d[1]/f"), ("d[1]/f", "a"), ("d1", "x y/*"), ("d[1]", "d1"))]

            def apply(base, op, i, e):
                if e:
                    P = lambda n: EPath(base) / n
                else:
                    P = lambda n: pathlib.Path(base) / n
                if op[0] == "write":
                    with P(op[1]).open("wb") as f:
                        f.write(b"%d" % i * (i + 1))
                elif op[0] == "mkdir":
                    P(op[1]).mkdir() if e else os.mkdir(P(op[1])) if not P(op[1]).is_dir() else None
                elif op[0] == "mkdirs":
                    P(op[1]).mkdir(parents=True) if e else P(op[1]).mkdir(parents=True, exist_ok=True)
                elif op[0] == "unlink":
                    P(op[1]).unlink()
                else:
                    P(op[1]).move(P(op[2])) if e else os.rename(P(op[1]), P(op[2]))

            def tree(base):
                out = {}
                for d, ds, fs in os.walk(base):
                    for x in ds:
                        out[os.path.relpath(f"{d}/{x}", base)] = None
                    for x in fs:
                        out[os.path.relpath(f"{d}/{x}", base)] = open(f"{d}/{x}", "rb").read()
                return out

            A, B = f"{tmp}/A", f"{tmp}/B"
            states = set()
            for k, seq in enumerate(itertools.product(ops, repeat=case["depth"])):
                if k % case["of"] != case["part"]:
                    continue
                for pre in ((), (("mkdirs", "d[1]"), ("write", "d[1]/f"), ("write", "a")), (("mkdirs", "d[1]/g"), ("mkdirs", "x y"), ("write", "d1"))):
                    if k % 3 and pre and case["depth"] > 2:
                        continue
                    for d in (A, B):
                        shutil.rmtree(d, ignore_errors=True)
                        os.mkdir(d)
                    for i, op in enumerate(pre + seq):
                        before = tree(B)
                        if op[0] == "mkdir" and any(before.get(x, 0) is not None for x in [op[1].rsplit("/", 1)[0]] if "/" in op[1]):
                            break  # the missing parents of mkdir() without parents: not specified
                        if op[0] == "mkdir" and before.get(op[1]) is not None:
                            break  # mkdir over a file: not specified
                        if op[0] == "move" and before.get(op[1], 0) is None and "/" in op[2] and op[2].rsplit("/", 1)[0] not in before:
                            break  # of a directory to below a missing one: not specified
                        if op[0] == "move" and (before.get(op[2], 0) is None or op[1] not in before or before.get(op[1]) is None and op[2] in before):
                            break  # to or of a directory over something existing
                        if op[0] == "unlink" and before.get(op[1], 0) is None:
                            break
                        e, r = outcome(lambda: apply(A, op, i, True)), outcome(lambda: apply(B, op, i, False))
                        res.transitions += 1
                        ta, tb = tree(A), tree(B)
                        states.add(repr(sorted(tb.items())))
                        if e[0] != r[0] or ta != tb:
                            bad(f"{(pre + seq)[: i + 1]}", ops=(pre + seq)[: i + 1], epath=repr(e), pathlib=repr(r), tree=repr(ta), expected=repr(tb))
                            break
                        for n in names:
                            p, q = EPath(A) / n, pathlib.Path(B) / n
                            got = (p.is_file(), p.is_dir(), outcome(p.size)[1] if q.is_file() else None, p.read_text() if q.is_file() else None)
                            want = (q.is_file(), q.is_dir(), q.stat().st_size if q.is_file() else None, q.read_text() if q.is_file() else None)
                            if got != want or q.exists() is False and outcome(lambda: p.open())[0] == "ok":
                                bad(f"stat:{n}:{(pre + seq)[: i + 1]}", path=n, ops=(pre + seq)[: i + 1], got=repr(got), expected=repr(want))
                    if len(res.viol) > 5:
                        return res
            res.states = len(states)
        elif case["kind"] == "remote":
            names = ["b/a", "b/d[1]/f", "b/x y", "c/a"]
            ops = [("write", r, n) for r in ("r1", "r2") for n in names[:3]] + [("unlink", "r1", n) for n in names[:3]]
            ops += [("move", "r1", a, b) for a, b in (("b/a", "c/a"), ("b/d[1]/f", "b/a"), ("b/a", "b/d[1]/f"))]
            states = set()
            WH = {"r1": ("https://one.example.com", "k1"), "r2": ("http://two.example.com:9000", "k2")}
            for k, seq in enumerate(itertools.product(ops, repeat=case["depth"])):
                if k % case["of"] != case["part"]:
                    continue
                STORES.clear()
                model = {"r1": {}, "r2": {}}
                for i, op in enumerate(seq):
                    r = op[1]
                    P = lambda n: EPath(f"rclone://{r}") / n
                    mm = model[r]
                    fail = op[0] != "write" and op[2] not in mm
                    if op[0] == "write":
                        mm[op[2]] = b"%d" % i * (i + 1)

                        def do():
                            with P(op[2]).open("wb") as f:
                                f.write(mm[op[2]])
                    elif op[0] == "unlink":
                        mm.pop(op[2], None)
                        do = lambda: P(op[2]).unlink()
                    else:
                        if not fail:
                            mm[op[3]] = mm.pop(op[2])
                        do = lambda: P(op[2]).move(P(op[3]))
                    e = outcome(do)
                    res.transitions += 1
                    got = {q: dict(STORES.get(WH[q], {})) for q in WH}
                    states.add(repr(sorted(got["r1"].items())) + repr(sorted(got["r2"].items())))
                    if (e[0] == "error") != fail or got != model or set(STORES) - set(WH.values()):
                        bad(f"{seq[: i + 1]}", ops=seq[: i + 1], result=repr(e), store=repr(STORES), expected=repr(model))
                        break
                    for q in WH:
                        for n in names + ["b", "c", "b/d[1]"]:
                            p = EPath(f"rclone://{q}/{n}")
                            f, d = n in model[q], any(x.startswith(n + "/") for x in model[q])
                            got = (p.is_file(), p.is_dir(), p.size() if f else None, p.read_text().encode() if f else None)
                            want = (f, d, len(model[q][n]) if f else None, model[q].get(n))
                            if got != want:
                                bad(f"stat:{n}:{seq[: i + 1]}", path=str(p), ops=seq[: i + 1], got=repr(got), expected=repr(want))
                if len(res.viol) > 5:
                    return res
            res.states = len(states)
        elif case["kind"] == "glob":
            import fnmatch

            files = ["t1.tar", "t2.tar", "u.tgz", "s/t3.tar", "s/v/t4.tar", "s/n.txt", "x y/t5.tar", "q[1]/t6.tar", "q1/t7.tar"]
            bases = ["base", "ba[s]e", "b*e", "b?se", "x y/b", "[!a]", "{a,b}", "."]
            # directories which a base mistaken for a pattern would match
            decoys = ["base", "bxe", "base2", "bbse", "a", "b"]
            pats = {
                "*.tar": lambda f: "/" not in f and f.endswith(".tar"),
                "**/*.tar": lambda f: f.endswith(".tar"),
                "**/*.tgz": lambda f: f.endswith(".tgz"),
                "*/*.tar": lambda f: f.count("/") == 1 and f.endswith(".tar"),
                "t[12].tar": lambda f: f in ("t1.tar", "t2.tar"),
                "t?.tar": lambda f: f in ("t1.tar", "t2.tar"),
                "s/*.tar": lambda f: f == "s/t3.tar",
                "s/**/*.tar": lambda f: f in ("s/t3.tar", "s/v/t4.tar"),
                "x y/*": lambda f: f == "x y/t5.tar",
                "t1.tar": lambda f: f == "t1.tar",
                "none*": lambda f: False,
                "q[[]1]/*": lambda f: f == "q[1]/t6.tar",
            }
            combos = [(k, b, sub) for k in ("local", "r1") for b in bases for sub in range(4)]
            for n, (kind, base, sub) in enumerate(combos):
                if n % case["of"] != case["part"]:
                    continue
                some = [f for i, f in enumerate(files) if sub == 0 or i % 3 != sub - 1]
                root = f"{tmp}/g{n}"
                os.mkdir(root)
                P = EPath(root) if kind == "local" else EPath(f"rclone://r1/g{n}")
                for d, fl in [(base, some)] + [(x, files) for x in decoys if x != base]:
                    for f in fl:
                        q = P / d / f
                        q.parent.mkdir(parents=True)
                        with q.open("wb") as h:
                            h.write(b"1")
                for pat, match in pats.items():
                    res.transitions += 1
                    want = {f for f in some if match(f)}
                    if base == ".":
                        want |= {f"{d}/{f}" for d in decoys for f in files if match(f"{d}/{f}")}
                    e = outcome(lambda: sorted(str(x) for x in (P / base).glob(pat) if x.is_file()))
                    w = sorted(str(P / base / f) for f in want)
                    if e != ("ok", w):
                        bad(f"{kind}:{base}:{pat}", kind=kind, base=base, pattern=pat, got=repr(e)[:600], expected=w)
                    for x in (P / base).glob(pat):
                        if outcome(lambda: EPath(str(x)) == x and x.is_absolute() and (P / base / x.relative_to(P / base)) == x) != ("ok", True):
                            bad(f"path:{kind}:{base}:{pat}", got=str(x))
                res.states += 1
        elif case["kind"] == "conf":
            vals = [""] + ["".join(x) for n in range(1, case["n"] + 1) for x in itertools.product(CHARS, repeat=n)]
            vals = [v for v in vals if v == v.strip()]
            for i, v in enumerate(vals):
                if i % case["of"] != case["part"]:
                    continue
                v = "a" + v + "z" if i % 2 else v
                open(f"{tmp}/conf/rclone/rclone.conf", "w").write(f"[one]\ntype = ftp\npass = {v}\n\n[r]\ntype = s3\nprovider = Other\naccess_key_id = {v}\nsecret_access_key = {v}\nregion = x\nendpoint = e.com\n")
                Fake.created.clear()
                e = outcome(lambda: EPath("rclone://r/b/k"))
                res.transitions += 1
                kw = Fake.created[-1] if Fake.created else {}
                if e[0] != "ok" or (kw.get("key"), kw.get("secret")) != (v, v) or kw.get("endpoint_url") != "https://e.com":
                    bad(f"value:{v}", value=v, got=repr(e), args=repr(kw))
                if len(res.viol) > 5:
                    return res
            for ep, url in (("e.com", "https://e.com"), ("http://e.com", "http://e.com"), ("https://e.com:1/x", "https://e.com:1/x"), ("httpd.example.com", "https://httpd.example.com"), ("http.example.com:8080", "https://http.example.com:8080"), ("10.0.0.1:9000", "https://10.0.0.1:9000")):
                open(f"{tmp}/conf/rclone/rclone.conf", "w").write(f"[r]\ntype = S3\naccess_key_id = k\nsecret_access_key = s\nendpoint = {ep}\nregion = reg\n")
                Fake.created.clear()
                e = outcome(lambda: EPath("rclone://r/b/k"))
                kw = Fake.created[-1] if Fake.created else {}
                res.transitions += 1
                if e[0] != "ok" or kw.get("endpoint_url") != url or kw.get("key") != "k" or kw.get("secret") != "s" or kw.get("client_kwargs", {}).get("region_name") != "reg":
                    bad(f"endpoint:{ep}", endpoint=ep, got=repr(e), args=repr(kw))
        elif case["kind"] == "where":
            # which of the possible configuration files is used
            spots = [f"{tmp}/bin/rclone.conf", f"{tmp}/conf/rclone/rclone.conf", f"{tmp}/home/.config/rclone/rclone.conf", f"{tmp}/home/.rclone.conf"]
            os.makedirs(f"{tmp}/home/.config/rclone")
            for present in itertools.product((0, 1), repeat=4):
                for exe in (0, 1):
                    for xdg in (0, 1):
                        res.transitions += 1
                        for i, f in enumerate(spots):
                            if os.path.exists(f):
                                os.remove(f)
                            if present[i]:
                                open(f, "w").write(f"[r]\ntype = s3\naccess_key_id = from{i}\nsecret_access_key = s\nendpoint = e\n")
                        b = f"{tmp}/bin/rclone"
                        if exe:
                            open(b, "w").write("#!/bin/sh\n")
                            os.chmod(b, 0o755)
                        elif os.path.exists(b):
                            os.remove(b)
                        os.environ.pop("XDG_CONFIG_HOME", None)
                        if xdg:
                            os.environ["XDG_CONFIG_HOME"] = f"{tmp}/conf"
                        usable = [i for i in range(4) if present[i] and (i != 0 or exe) and (i != 1 or xdg)]
                        Fake.created.clear()
                        e = outcome(lambda: EPath("rclone://r/b"))
                        if usable and (e[0] != "ok" or Fake.created[-1]["key"] != f"from{usable[0]}") or not usable and e[0] == "ok":
                            bad(f"{present}:{exe}:{xdg}", present=present, exe=exe, xdg=xdg, got=repr(e), used=repr(Fake.created[-1:]))
                        res.states += 1
        elif case["kind"] == "fork":
            import pickle

            with EPath("rclone://r1/b/k").open("wb") as f:
                f.write(b"123")
            uses = dict(
                size=lambda p: p.size() == 3,
                isfile=lambda p: p.is_file(),
                isdir=lambda p: p.parent.is_dir(),
                text=lambda p: p.read_text() == "123",
                open=lambda p: p.open("rb").read() == b"123",
                glob=lambda p: [str(x) for x in p.parent.glob("*")] == ["rclone://r1/b/k"],
                join=lambda p: (p.parent / "k").size() == 3,
                move=lambda p: p.move(p.parent / "k2") or (p.parent / "k2").is_file(),
                rm=lambda p: p.unlink() or not p.is_file(),
                mkdir=lambda p: p.parent.mkdir() or True,
                copy=lambda p: EPath(p).size() == 3,
            )
            for n, use in uses.items():
                p = EPath("rclone://r1/b/k")
                for depth in (1, 2):
                    res.transitions += 1

                    def child(d):
                        pid = os.fork()
                        if pid == 0:
                            code = 1
                            try:
                                code = (0 if use(p) else 3) if d == 1 else child(d - 1)
                            except BaseException:
                                code = 2
                            finally:
                                os._exit(code)
                        return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])

                    rc = child(depth)
                    if rc:
                        bad(f"{n}:{depth}", use=n, depth=depth, rc=rc)
                    res.states += 1
    finally:
        close()
    res.evals = res.transitions
    res.key((case.get("start"), case["kind"], res.states))
    return res


if __name__ == "__main__":
    main(
        "C21",
        "model_checking",
        cases,
        run_case,
        rule="breadth first over the paths reachable by joining, parent and with_suffix (states) compared with a path model after every operation (transitions); sequences of file operations compared with pathlib on a twin directory and with a dictionary for an object store in memory; states = distinct paths / file trees",
        case_timeout=600,
    )
