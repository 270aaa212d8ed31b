"""Single source of properties.jsonl and MANIFEST.json: `python3 tools/props.py` rewrites both."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "src/megatron/energon/"


def P(id, title, statement, over, text, why, files, mech, state=None, observe=None, level="exploration", technique="", note="", built=True, thorough=True):
    d = dict(
        id=id,
        title=title,
        statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(
            files=[W + f if not f.startswith(("src/", "docs/")) else f for f in files],
            mechanism=[dict(name=a, where=W + b) for a, b in mech],
        ),
    )
    if state:
        d["anchors"]["state"] = state
    if observe:
        d["anchors"]["observe_at"] = observe
    return dict(prop=d, level=level, technique=technique, note=note, built=built, thorough=thorough)


PROPS = [
    P("C01", "Resuming in-process loading continues the sample stream exactly",
      "For every pipeline composed the way the train and validation loaders compose it, saving the loader state after any number of samples and restoring it into a freshly built loader makes the new loader deliver exactly the samples (content, keys, restore keys, sample indices, random augmentations, later epoch ends) that the uninterrupted run would have delivered next. This includes states saved from a loader which itself was restored, states saved while buffered samples of a shuffle buffer, batch, group, pack or generator output are still pending, and states saved at an epoch end. Restoring None returns a dataset to its initial state.",
      ["histories", "programs", "configurations"],
      "all save points (and pairs of save points) of all enumerated pipelines",
      "tests sample a handful of save positions on two pipelines; a state field forgotten by one wrapper only shows when the save falls into the window in which that field matters",
      ["savable_loader.py", "wrappers/batch_dataset.py", "wrappers/group_batch_dataset.py", "wrappers/packing_dataset.py", "wrappers/shuffle_buffer_dataset.py", "wrappers/map_dataset.py", "wrappers/blend_dataset.py", "wrappers/epochize_dataset.py"],
      [("save_state/merge_states/restore_state of every wrapper", "wrappers/base.py"), ("loader level save/restore", "savable_loader.py")],
      state=[dict(name="per-worker wrapper states", meaning="positions, RNG states, restore keys of buffered samples", where="src/megatron/energon/wrappers")], observe=["the sample stream of SavableDataLoader"],
      level="model_checking", technique="exhaustive enumeration of save/restore histories executed on the real pipeline",
      note="1129 pipelines (997 over an in-memory source, 132 over real tar datasets) x all save points (and pairs)"),
]
try:
    from props_more import MORE
    PROPS += MORE
except ImportError:
    pass


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p["prop"]) + "\n")
    checks, na = [], []
    for p in PROPS:
        pid = p["prop"]["id"]
        if p["built"] and os.path.exists(os.path.join(ROOT, "checks", pid.lower() + ".py")):
            c = dict(
                property=pid,
                quick_cmd=f"./run.sh {pid.lower()}",
                technique=p["technique"],
                level=p["level"],
                level_note=p["note"],
            )
            if p["thorough"]:
                c["thorough_cmd"] = f"./run.sh {pid.lower()} --tier thorough"
            checks.append(c)
        else:
            na.append(dict(property=pid, reason=p["note"] if not p["built"] else "check not built yet"))
    m = dict(version=1, setup_cmd="./run.sh smoke", checks=checks, not_applicable=na,
             notes="Checks import /repo/src directly (pure Python, nothing to compile); no hooks in /repo are needed: all control comes from stubbing torch/multiprocessing seams from outside.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    import sys
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    main()
