"""Recording (and failing) of every modification the code makes below a directory, and the directory
states a crash can leave behind: all prefixes of the recorded operations, with torn writes."""
import base64
import builtins
import io
import json
import os
import shutil

_R = dict(open=builtins.open, os_open=os.open, os_write=os.write, rename=os.rename, replace=os.replace, remove=os.remove, unlink=os.unlink, mkdir=os.mkdir, rmdir=os.rmdir, truncate=os.truncate)


class Recorder:
    """with Recorder(root, log): modifications below root are appended to the log file (also by forked
    processes).  fail: function(op, path) -> True to make the operation fail with ENOSPC."""

    def __init__(self, root, log, fail=None):
        self.root, self.logname = os.path.realpath(root), log
        self.fail = fail
        _R["open"](log, "wb").close()
        self.fd = _R["os_open"](log, os.O_WRONLY | os.O_APPEND)

    def inside(self, p):
        try:
            p = os.path.realpath(os.path.dirname(os.path.abspath(os.fspath(p)))) + "/" + os.path.basename(os.path.abspath(os.fspath(p)))
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = p.decode()
        return p[len(self.root) + 1 :] if p.startswith(self.root + "/") else None

    def log(self, *op):
        if self.fail is not None and self.fail(op):
            raise OSError(28, "No space left on device (injected)")
        op = [base64.b64encode(x).decode() if isinstance(x, (bytes, bytearray, memoryview)) else x for x in op]
        _R["os_write"](self.fd, (json.dumps(op) + "\n").encode())

    def __enter__(self):
        rec = self

        class Raw(io.FileIO):
            rel = None

            def write(self, b):
                b = bytes(b)
                if self.rel is not None:
                    pos = None if "a" in self.mode_ else self.tell()
                    rec.log("write", self.rel, pos, b)
                return super().write(b)

            def truncate(self, size=None):
                if self.rel is not None:
                    rec.log("truncate", self.rel, self.tell() if size is None else size)
                return super().truncate(size)

        def open_(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if not set(mode) & set("wax+"):
                return _R["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
            if isinstance(file, int) or opener is not None:
                f = _R["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
                rel = rec.inside(os.readlink(f"/proc/self/fd/{f.fileno()}"))
                if rel is None:
                    return f
                # take over the descriptor
                fd = os.dup(f.fileno())
                f.close()
                raw = Raw(fd, mode.replace("b", "").replace("t", ""))
            else:
                rel = rec.inside(file)
                if rel is None:
                    return _R["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
                existed = os.path.exists(file)
                if "w" in mode or not existed:
                    rec.log("create", rel)
                raw = Raw(file, mode.replace("b", "").replace("t", ""))
            raw.rel, raw.mode_ = rel, mode
            if buffering == 0:
                return raw
            buf = io.BufferedRandom(raw) if "+" in mode else io.BufferedWriter(raw)
            if "b" in mode:
                return buf
            t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line_buffering=buffering == 1)
            t.mode = mode
            return t

        def os_open(path, flags, *a, **kw):
            rel = rec.inside(path) if not isinstance(path, int) and kw.get("dir_fd") is None else None
            if rel is not None and flags & (os.O_WRONLY | os.O_RDWR):
                if flags & os.O_TRUNC or not os.path.exists(path):
                    rec.log("create", rel)
            return _R["os_open"](path, flags, *a, **kw)

        def os_write(fd, b):
            try:
                rel = rec.inside(os.readlink(f"/proc/self/fd/{fd}"))
            except OSError:
                rel = None
            if rel is not None:
                rec.log("write", rel, os.lseek(fd, 0, os.SEEK_CUR), bytes(b))
            return _R["os_write"](fd, b)

        def two(name):
            def f(src, dst, **kw):
                a, b = rec.inside(src), rec.inside(dst)
                if a is not None or b is not None:
                    rec.log("rename", a, b)
                return _R[name](src, dst, **kw)

            return f

        def one(name, op):
            def f(p, *a, **kw):
                rel = rec.inside(p) if not isinstance(p, int) else None
                if rel is not None and kw.get("dir_fd") is None:
                    if op == "mkdir" and os.path.exists(p):
                        return _R[name](p, *a, **kw)
                    rec.log(op, rel)
                return _R[name](p, *a, **kw)

            return f

        builtins.open = io.open = open_
        os.open, os.write = os_open, os_write
        os.rename, os.replace = two("rename"), two("replace")
        os.remove, os.unlink, os.mkdir, os.rmdir = one("remove", "unlink"), one("unlink", "unlink"), one("mkdir", "mkdir"), one("rmdir", "rmdir")
        return self

    def __exit__(self, *a):
        builtins.open = io.open = _R["open"]
        for k in ("rename", "replace", "remove", "unlink", "mkdir", "rmdir", "truncate"):
            setattr(os, k, _R[k])
        os.open, os.write = _R["os_open"], _R["os_write"]
        os.close(self.fd)

    def ops(self):
        out = []
        for line in open(self.logname):
            op = json.loads(line)
            if op[0] == "write":
                op[3] = base64.b64decode(op[3])
            out.append(tuple(op))
        return out


def snapshot(root):
    """{relative path: bytes | None for a directory}"""
    out = {}
    for d, ds, fs in os.walk(root):
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), root)] = None
        for x in fs:
            with open(os.path.join(d, x), "rb") as f:
                out[os.path.relpath(os.path.join(d, x), root)] = f.read()
    return out


def apply(state, op, tear=None):
    """state is modified; tear: only this many bytes of a write arrive"""
    k, p = op[0], op[1]
    if k == "create":
        state[p] = b""
    elif k == "write":
        data = op[3] if tear is None else op[3][:tear]
        old = state.get(p) or b""
        pos = len(old) if op[2] is None else op[2]
        old = old.ljust(pos, b"\0")
        state[p] = old[:pos] + data + old[pos + len(data) :]
    elif k == "truncate":
        state[p] = (state.get(p) or b"")[: op[2]].ljust(op[2], b"\0")
    elif k == "rename":
        v = state.pop(p) if p is not None else b""
        if op[2] is not None:
            state[op[2]] = v
    elif k in ("unlink", "rmdir"):
        state.pop(p, None)
    elif k == "mkdir":
        state[p] = None
    else:
        raise ValueError(op)


def write_tree(root, state):
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    for p, v in state.items():
        q = os.path.join(root, p)
        if v is None:
            os.makedirs(q, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "wb") as f:
                f.write(v)


def prefixes(ops, tears):
    """all (number of complete operations, torn bytes of the next | None)"""
    out = []
    for k, op in enumerate(ops):
        out.append((k, None))
        if op[0] == "write":
            out += [(k, t) for t in tears(len(op[3])) if 0 < t < len(op[3])]
    out.append((len(ops), None))
    return out
