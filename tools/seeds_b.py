W = "wrappers/"
FW = "flavors/webdataset/"

S("c02-gauss", "C02",
  [("savable_loader.py", "            np_tp, np_state, *np_rng = state.numpy_rng[self._worker_id]\n            np.random.set_state((np_tp, np.frombuffer(np_state, dtype=np.uint32), *np_rng))\n",
    "            np_tp, np_state, pos, *_ = state.numpy_rng[self._worker_id]\n            np.random.set_state((np_tp, np.frombuffer(np_state, dtype=np.uint32), pos))\n")],
  """
import numpy as np


class TE(TaskEncoder):
    def encode_sample(self, sample):
        return [sample.text, float(np.random.normal())]


def mk():
    ds = quiet(get_train_dataset, TMP + "/d", worker_config=wc(0, 1, 1), batch_size=None, shuffle_buffer_size=None, max_samples_per_sequence=None, task_encoder=TE())
    return quiet(get_savable_loader, ds, checkpoint_every_sec=0, checkpoint_every_min_n_samples=1)


make_ds("d", [["a", "b", "c", "d", "e", "f"]])
l = mk()
it = iter(l)
for n in range(1, 5):
    next(it)
    st = l.save_state_rank()
    l2 = mk()
    l2.restore_state_rank(st)
    got = take(l2, 3)
    del l2
    l3 = mk()
    want = take(l3, n + 3)[n:]
    del l3
    check(got == want, f"after {n} samples: {got} instead of {want}")
""", "worker processes whose user code draws an odd number of numpy normal variates before the state that is restored", "the spare gaussian of numpy is lost when resuming: augmentations differ")

S("c04-droplist", "C04",
  [("savable_loader.py", """            self._last_checkpoints.append(
                SavableCheckpoint(
                    state=self._save_state(),
                    dataset_state=self.dataset.save_state(),
                    checkpoint_time=time.perf_counter(),
                    sample_index=self._sample_index,
                    epoch=self._epoch,
                )
            )
""", """            checkpoints, self._last_checkpoints = self._last_checkpoints, []
            checkpoints.append(
                SavableCheckpoint(
                    state=self._save_state(),
                    dataset_state=self.dataset.save_state(),
                    checkpoint_time=time.perf_counter(),
                    sample_index=self._sample_index,
                    epoch=self._epoch,
                )
            )
            self._last_checkpoints = checkpoints
""")],
  """
import time


class Slow(Range):
    def save_state(self):
        s = super().save_state()
        if self.pos[self.worker_config.rank_worker_id()] == 0:
            time.sleep(1.5)
        return s


l = quiet(get_savable_loader, Slow(4, wc(0, 1, 1)))
it = iter(l)
for _ in range(4):
    next(it)
time.sleep(0.4)
st = l.save_state_rank()
l2 = quiet(get_savable_loader, Slow(4, wc(0, 1, 1)))
l2.restore_state_rank(st)
check([s["v"] for s in l2] == [], "the rest of the epoch is not empty")
check([s["v"] for s in l2] == [0, 1, 2, 3], "next epoch")
""", "a state request reaching a worker exactly while it stores the checkpoint at the end of its epoch", "saving the state fails (No checkpoint found)")

S("c11-skiprounds", "C11",
  [(W + "packing_dataset.py", """        while not self._stopping[worker_idx]:

            pre_pack_round = 0
            while""", """        pre_pack_round = 0
        while not self._stopping[worker_idx]:

            while"""),
   (W + "packing_dataset.py", """                pre_pack_round += 1
                if pre_pack_round > 10:
""", """                if len(pre_packing_lengths) == 0:
                    pre_pack_round += 1
                if pre_pack_round > 10:
""")],
  """
from megatron.energon.wrappers.packing_dataset import PackingDataset


def pre(samples):
    # every other window is skipped
    if samples[0]["v"] // 2 % 2:
        raise SkipSample()
    return [samples]


ds = PackingDataset(Range(60, wc()), 2, pre, lambda p: dict(__key__="p", __restore_key__=(), v=[s["v"] for s in p]), worker_config=wc())
try:
    got = [s["v"] for s in pull(ds)]
except RuntimeError as e:
    check(False, f"the iteration ended: {e}")
check(got == [[i, i + 1] for i in range(0, 60, 4)], got)
""", "a stream in which more than ten windows altogether (not in a row) are skipped by the pre-packer", "the iteration breaks off with an error although packs were delivered in between")

S("c12-zeroweight", "C12",
  [(W + "blend_dataset.py", "        weights = torch.tensor(weights, dtype=torch.float32)\n", "        # Avoid zero probabilities\n        weights = torch.tensor(weights, dtype=torch.float32).clamp(min=1e-2)\n")],
  """
from megatron.energon.wrappers.blend_dataset import BlendDataset

c = wc()
ds = BlendDataset((Range(10, c), 0.5), (Range(10, c, 100), 0.0), (Range(10, c, 200), 0.5), worker_config=c)
got = {s["v"] // 100 for s in pull(ds, 3000)}
check(got == {0, 2}, f"sources drawn: {got}")
""", "a blend containing a dataset of weight zero (or below one percent)", "samples of a dataset with weight zero are delivered")

S("c16-renameflush", "C16",
  [(FW + "itar.py", """        self.itar.close()
        if finalize:
            self.tmp_name.move(self.final_name)
        else:
""", """        if finalize:
            self.tmp_name.move(self.final_name)
            self.itar.close()
        else:
            self.itar.close()
""")],
  """
from megatron.energon.epathlib import EPath
from megatron.energon.flavors.webdataset.prepare import WebdatasetPreparator

root = make_ds("d", [[f"k{i}" for i in range(5)]])
idx = root + "/shard_0.tar.idx"
want = open(idx, "rb").read()
pid = os.fork()
if pid == 0:
    # the process is killed right after the index was moved to its final name
    orig = EPath.move

    def move(self, target):
        orig(self, target)
        os._exit(0)

    EPath.move = move
    WebdatasetPreparator._preprocess_tar("shard_0.tar", root, 50)
    os._exit(0)
os.waitpid(pid, 0)
got = open(idx, "rb").read()
check(got == want, f"the index has {len(got)} of {len(want)} bytes")
""", "a kill of the preparation between the rename of a shard's index and the flush of its last entries", "a complete index is replaced by an empty or truncated one")

S("c22-tuplelen", "C22",
  [("typed_converter.py", "            if len(raw_data) != len(inner_types):\n", "            if len(raw_data) < len(inner_types):\n")],
  """
from typing import Tuple, Union, List
from megatron.energon.typed_converter import raw_to_typed, JsonValueError

check(raw_to_typed([1, 2, 3], Union[Tuple[int, int], List[int]]) == [1, 2, 3], "first alternative taken although it does not fit")
try:
    r = raw_to_typed([1, 2, 3], Tuple[int, int])
except JsonValueError:
    r = None
check(r is None, r)
""", "a list with more elements than the fixed length tuple it is converted to", "surplus elements are dropped silently")

S("c23-search", "C23",
  [(FW + "prepare.py", "                    if any(pattern.match(shard.name) for pattern in patterns)\n", "                    if any(pattern.search(shard.name) for pattern in patterns)\n")],
  """
from megatron.energon.flavors.webdataset.prepare import WebdatasetPreparator

root = make_ds("d", [["a"], ["b"]])
os.makedirs(root + "/x")
os.rename(root + "/shard_1.tar", root + "/x/shard_1.tar")
quiet(WebdatasetPreparator.prepare_dataset, root, ["shard_0.tar", "x/shard_1.tar"], split_parts_patterns=[("train", "shard_.*"), ("val", "x/.*")], workers=1)
s = yaml.safe_load(open(root + "/.nv-meta/split.yaml"))["split_parts"]
check(s == {"train": ["shard_0.tar"], "val": ["x/shard_1.tar"]}, s)
""", "shards in subfolders whose path contains another split's pattern not at its beginning", "a shard is assigned to two splits")

S("c24-oldrank", "C24",
  [("savable_loader.py", "                # Select the state of the current rank\n                state = state[self.worker_config.rank]\n",
    "                # Select the state of the current rank\n                state = state[torch.distributed.get_rank() % len(state)]\n")],
  """
import torch.distributed as dist
import torch.multiprocessing as mp


def job(r, port):
    dist.init_process_group("gloo", init_method=f"tcp://127.0.0.1:{port}", rank=r, world_size=4)
    # neighbours form a data parallel group
    groups = [dist.new_group([0, 2]), dist.new_group([1, 3])]
    g = groups[r % 2]

    def mk():
        c = WorkerConfig(rank=r // 2, world_size=2, num_workers=0, data_parallel_group=g)
        return quiet(get_savable_loader, Range(20, c, 100 * r))

    l = mk()
    it = iter(l)
    for _ in range(1 + r):
        next(it)
    st = l.save_state()
    want = next(it)["v"]
    l2 = mk()
    l2.restore_state(st)
    got = next(iter(l2))["v"]
    if got != want:
        print(f"FAIL: rank {r}: {got} instead of {want}", flush=True)
        os._exit(1)
    dist.barrier()
    os._exit(0)


if __name__ == "__main__":
    import socket

    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    port = s.getsockname()[1]
    s.close()
    ps = [mp.get_context("fork").Process(target=job, args=(r, port)) for r in range(4)]
    [p.start() for p in ps]
    import time

    while any(p.is_alive() for p in ps):
        if any(p.exitcode for p in ps):
            [p.kill() for p in ps]
            check(False, "a rank continues at another position")
        time.sleep(0.05)
    check(all(p.exitcode == 0 for p in ps), "a rank failed")
""", "data parallel groups whose rank numbers differ from the global ones (model parallelism) and ranks at different positions", "ranks continue at another rank's position")

S("c27-none", "C27",
  [("task_encoder/cooking.py", """                if (
                    k not in crude_sample["__subflavors__"]
                    or crude_sample["__subflavors__"][k] != v
                ):
                    return False
""", """                if crude_sample["__subflavors__"].get(k) != v:
                    return False
""")],
  """
from megatron.energon.task_encoder.cooking import Cooker
from megatron.energon.flavors.crude import CrudeSample

c = Cooker(cook=lambda s: s, has_subflavors={"lang": None})
check(not c.is_match(CrudeSample(__key__="a", __restore_key__=(), __subflavor__=None, __subflavors__={"x": 1})), "matches without the entry")
check(c.is_match(CrudeSample(__key__="a", __restore_key__=(), __subflavor__=None, __subflavors__={"lang": None})), "does not match the entry")
""", "a cooker requiring a subflavor to be null, and samples without that subflavor", "samples are cooked by the wrong cooker")

S("c31-null", "C31",
  [(FW + "field_access.py", """        try:
            return _field_access(value, f)
        except""", """        try:
            res = _field_access(value, f)
            if res is not None:
                return res
        except""")],
  """
from megatron.energon.flavors.webdataset.field_access import field_access, split_field_access

got = field_access({"json": {"a": None}, "txt": "other"}, split_field_access("json[a],txt"))
check(got is None, got)
""", "an alternative of a field description which exists with the value null", "the value of another part is delivered in its place")


S("c17-seekend", "C17",
  [("retry_stream.py", "            offset += self._size\n", "            offset = self._size - abs(offset)\n")],
  """
from megatron.energon.epathlib import EPath
from megatron.energon.retry_stream import RetryReadStream

open(TMP + "/f", "wb").write(bytes(range(20)))
s = RetryReadStream(EPath(TMP + "/f"))
check(s.seek(-5, 2) == 15 and s.read() == bytes(range(15, 20)), "from the end")
check(s.seek(5, 2) == 20 and s.read(3) == b"", "beyond the end")
""", "a seek to a position beyond the end, given relative to the end", "bytes before the end are read instead of none")

S("c21-eqproto", "C21",
  [("epathlib/epath.py", "        return self.internal_path == other.internal_path and self.protocol == other.protocol\n", "        return self.internal_path == other.internal_path\n")],
  """
os.makedirs(TMP + "/cfg/rclone")
open(TMP + "/cfg/rclone/rclone.conf", "w").write("[rem]\\ntype = s3\\nprovider = Other\\naccess_key_id = a\\nsecret_access_key = b\\nendpoint = http://127.0.0.1:1\\nregion = r\\n")
os.environ["XDG_CONFIG_HOME"] = TMP + "/cfg"
os.environ["HOME"] = TMP
from megatron.energon.epathlib import EPath

check(EPath("rclone://rem/bucket/x") != EPath("/rem/bucket/x"), "a remote and a local path are equal")
""", "a local path spelled like the remote name and path of a path on an rclone remote", "paths of different files compare equal")

S("c22-unpop", "C22",
  [("typed_converter.py", "    kwargs = kwargs.copy()\n    module_name = kwargs.pop(", "    module_name = kwargs.pop(")],
  """
from megatron.energon.dataset_config import load_config


def f(sub, x):
    return sub, x


d = {"sub": {"__module__": "fractions", "__class__": "Fraction", "numerator": 3, "denominator": 4}, "x": 1}
r1 = load_config(d, default_type=f)
r2 = load_config(d, default_type=f)
check(r1 == r2, (r1, r2))
""", "the same configuration data used twice", "the second use builds other objects: the class name was removed from the data")

S("c28-maxsize", "C28",
  [("transforms/mappers.py", "                    new_short, new_long = int(max_size * new_short / new_long), max_size\n", "                    new_short, new_long = int(max_size * short / long), max_size\n")],
  """
from torchvision import transforms as T
from PIL import Image
from megatron.energon.transforms import MergeTransform

for w in range(1, 40):
    for h in range(1, 40):
        for size, mx in ((5, 7), (9, 10), (4, 30)):
            t = T.Resize(size, max_size=mx)
            im = Image.new("L", (w, h))
            try:
                want = t(im).size
            except ValueError:
                continue
            got = quiet(MergeTransform([t]), im).size
            check(got == want, f"{(w, h)} resized to {got} instead of {want} by {t}")
""", "a resize limited by max_size of an image whose sides give another size when the rounding happens once instead of twice", "the image has another size than torchvision gives it")

S("c28-ratiofallback", "C28",
  [("transforms/mappers.py", "        elif in_ratio > max(self.transform.ratio):\n            h = height\n            w = int(round(h * max(self.transform.ratio)))\n",
    "        elif in_ratio > max(self.transform.ratio):\n            h = height\n            w = int(round(h * min(self.transform.ratio)))\n")],
  """
from torchvision import transforms as T
from PIL import Image
from megatron.energon.transforms import MergeTransform

im = Image.new("L", (16, 2))
im.putdata([x * 8 + y for y in range(2) for x in range(16)])
t = T.RandomResizedCrop((2, 4), scale=(1, 1), ratio=(1, 2), interpolation=T.InterpolationMode.NEAREST)
want = t(im).tobytes()
got = quiet(MergeTransform([t]), im).tobytes()
check(got == want, f"{list(got)} instead of {list(want)}")
""", "a random resized crop of an image so wide that no crop of the requested area and aspect ratio fits", "another part of the image is used than with torchvision")
