"""Builds DESIGN.md from tools/design_head.md, the per-property texts below, known_findings.txt and the seeds."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}


def D(id, **kw):
    T[id] = kw


exec(open(f"{ROOT}/tools/design_props.py").read(), dict(D=D))
props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
out = [open(f"{ROOT}/tools/design_head.md").read()]
out.append("\n## 4. Properties and how each is decided\n")
for p in sorted(props, key=lambda p: p["id"]):
    out.append(f"### {p['id']}: {p['title']}\n")
    for k, name in (("how", "Decided by"), ("oracle", "Oracle"), ("bounds", "Bounds"), ("cost", "Cost"), ("why", "Beyond the tests"), ("limits", "Limits")):
        if T.get(p["id"], {}).get(k):
            out.append(f"- **{name}:** {T[p['id']][k]}")
    out.append("")
out.append("## 5. Planted changes and the checks which catch them\n")
out.append("Each is in `seeded/<id>` with its demonstration; the verdict is the one of the quick tier of the property's own check (`tools/try_seeds.sh`).\n")
out.append("| change | property | needs | caught by |\n|---|---|---|---|")
verdict = {}
if os.path.exists(f"{ROOT}/tools/verdicts.txt"):
    for l in open(f"{ROOT}/tools/verdicts.txt"):
        if l.strip():
            a, b = l.split(None, 1)
            verdict[a] = b.strip()
for f in sorted(glob.glob(f"{ROOT}/seeded/*/meta.json")):
    m = json.load(open(f))
    i = f.split("/")[-2]
    out.append(f"| {i} | {m['property']} | {m['needs']} | {verdict.get(i, m['property'])} |")
out.append("")
out.append(open(f"{ROOT}/tools/design_tail.md").read())
open(f"{ROOT}/DESIGN.md", "w").write("\n".join(out).rstrip() + "\n")
