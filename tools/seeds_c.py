FW = "flavors/webdataset/"
W = "wrappers/"

LINT = """
import subprocess


def lint(name, *args):
    return subprocess.run([sys.executable, "-c", "from megatron.energon.cli.main import main; main()", "lint", TMP + "/" + name, "--parallel", "0", *args], capture_output=True, text=True)

"""

S("c32-emptysplit", "C32",
  [("tools/lint.py", """            click.echo(f"Skipping empty split part {split_part}")
            continue
""", """            click.echo(f"Skipping empty split part {split_part}")
            break
""")],
  LINT + """
make_ds("d", [["a", "b"], ["c", "e"]], splits={"train": ["shard_0.tar"], "val": [], "test": ["shard_1.tar"]})
with tarfile.open(TMP + "/d/shard_1.tar") as t:
    ti = t.getmember("e.txt")
with open(TMP + "/d/shard_1.tar", "r+b") as f:
    f.seek(ti.offset_data)
    f.write(b"\\xff")
check(lint("d", "--split-parts", "train,val").returncode == 0, "lint refuses good parts")
r = lint("d")
check(r.returncode != 0 and "shard_1.tar/e" in r.stderr, f"broken sample in the test split is not reported: {r.returncode}")
""", "an empty split part listed before the part with the broken sample", "split parts after an empty one are never checked")

S("c32-lastshard", "C32",
  [("tools/lint.py", """            if l - 1 != length:
                ok = False
                print(
""", """            ok = l - 1 == length
            if not ok:
                print(
""")],
  LINT + """
make_ds("d", [["a", "b"], ["c", "e"]], splits={"train": ["shard_0.tar", "shard_1.tar"], "val": [], "test": []})
check(lint("d").returncode == 0, "lint refuses a good dataset")
for bad in (0, 1):
    counts = {"shard_0.tar": 2, "shard_1.tar": 2}
    counts[f"shard_{bad}.tar"] = 1
    dump({"shard_counts": counts}, TMP + "/d/.nv-meta/.info.yaml")
    check(lint("d").returncode != 0, f"wrong count of shard {bad} is not reported")
""", "a wrong count in a shard that is not the last one", "lint accepts the dataset although a shard's index disagrees with the noted count")

S("c33-idxcache", "C33",
  [(FW + "itar.py", """    with TarIndexReader(path) as itar:
        return itar[sample_offset]
""", """    if str(path) not in _open_indexes:
        _open_indexes[str(path)] = TarIndexReader(path)
    return _open_indexes[str(path)][sample_offset]
"""),
   (FW + "itar.py", """def get_itar_byte_offset(
    path: Union[str, EPath],
""", """_open_indexes: dict = {}


def get_itar_byte_offset(
    path: Union[str, EPath],
""")],
  """
make_ds("d", [["a", "b"], ["c", "e"], ["f", "g"]])


def fds():
    out = []
    for f in os.listdir("/proc/self/fd"):
        try:
            p = os.readlink(f"/proc/self/fd/{f}")
        except OSError:
            continue
        if p.startswith(TMP + "/d/"):
            out.append(p)
    return sorted(out)


l = quiet(get_loader, quiet(get_val_dataset, TMP + "/d", worker_config=wc(0, 1, 0), batch_size=1))
check(len(list(l)) == 6)
check(fds() == [], f"still open: {fds()}")
""", "datasets with several shards or workers (an offset must be looked up)", "every index file stays open for the life of the process")
