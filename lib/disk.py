"""Small webdatasets on disk, written independently of the package (own tar bookkeeping, own index,
own meta files), plus the oracle of what they contain."""
import atexit
import io
import json
import os
import shutil
import struct
import tarfile
import tempfile

_ROOT = None
_PID = None


def scratch():
    """A scratch directory of this process (removed at exit / by the parent for killed children)."""
    global _ROOT, _PID
    if _ROOT is None or _PID != os.getpid():
        base = os.environ.get("VERIF_SCRATCH")
        if not base or not os.path.isdir(base):
            base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        _ROOT = tempfile.mkdtemp(prefix="verif-", dir=base)
        _PID = os.getpid()
        atexit.register(lambda p=_ROOT, pid=_PID: os.getpid() == pid and shutil.rmtree(p, ignore_errors=True))
    return _ROOT


class Scratch:
    """with Scratch() as d: a fresh directory, removed afterwards."""

    def __enter__(self):
        self.d = tempfile.mkdtemp(dir=scratch())
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def member(name, data=b"", kind="file"):
    ti = tarfile.TarInfo(name)
    if kind == "dir":
        ti.type = tarfile.DIRTYPE
        return ti, None
    if kind == "link":
        ti.type = tarfile.SYMTYPE
        ti.linkname = "elsewhere"
        return ti, None
    ti.size = len(data)
    return ti, data


def write_tar(path, members, fmt=tarfile.PAX_FORMAT):
    """members: [(TarInfo, data|None)].  Returns the byte offset of every member's header block
    (including its extended headers) and the offset of the end-of-archive marker."""
    offs = []
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        for ti, data in members:
            offs.append(f.tell())
            f.write(ti.tobuf(fmt, "utf-8", "surrogateescape"))
            if data is not None:
                f.write(data)
                f.write(b"\0" * (-len(data) % 512))
        end = f.tell()
        f.write(b"\0" * 1024)
        f.write(b"\0" * (-f.tell() % 10240))
    return offs, end


def write_index(tar_path, offsets):
    with open(tar_path[: -len(".tar")] + ".tar.idx", "wb") as f:
        for o in offsets:
            f.write(struct.pack("<Q", o))


def simple_members(sample_ids, exts=("txt",), pay=None):
    out = []
    for s in sample_ids:
        for e in exts:
            out.append((s, member(f"{s}.{e}", pay(s, e) if pay else f"{s}:{e}".encode())))
    return out


def yaml_dump(obj, path):
    import yaml

    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        yaml.safe_dump(obj, f, sort_keys=False)


TEXT_YAML = {
    "__module__": "megatron.energon",
    "__class__": "TextSample",
}


def text_yaml(**kw):
    return {"__module__": "megatron.energon", "__class__": "TextWebdataset", "field_map": {"text": "txt"}, **kw}


def crude_yaml(**kw):
    return {"__module__": "megatron.energon", "__class__": "CrudeWebdataset", **kw}


def make_ds(root, shards, splits=None, exclude=(), dataset_yaml=None, exts=("txt",), pay=None, names=None, meta=".nv-meta"):
    """shards: list of lists of sample ids (strings).  Default split: everything in train and val.
    Returns the shard names."""
    names = names or [f"shard_{i}.tar" for i in range(len(shards))]
    for n, ids in zip(names, shards):
        mem = simple_members(ids, exts, pay)
        offs, end = write_tar(os.path.join(root, n), [m for _, m in mem])
        idx, last = [], None
        for (s, _), o in zip(mem, offs):
            if s != last:
                idx.append(o)
                last = s
        write_index(os.path.join(root, n), idx + [end])
    yaml_dump({"shard_counts": {n: len(ids) for n, ids in zip(names, shards)}}, os.path.join(root, meta, ".info.yaml"))
    splits = splits or {"train": names, "val": names}
    yaml_dump({"split_parts": splits, "exclude": list(exclude)}, os.path.join(root, meta, "split.yaml"))
    yaml_dump(dataset_yaml or text_yaml(), os.path.join(root, meta, "dataset.yaml"))
    return names


def ids_for(counts, prefix="s"):
    """[[ids of shard 0], ...] for a list of counts; ids globally unique and sorted"""
    out, k = [], 0
    for c in counts:
        out.append([f"{prefix}{k + i:03d}" for i in range(c)])
        k += c
    return out


def key_id(sample_key):
    """'shard_0.tar/s003' -> 's003'"""
    return sample_key.rsplit("/", 1)[-1]
