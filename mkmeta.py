#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below and props.CHECKS."""
import json, os, subprocess
from props import CHECKS
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mechanism, note):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=text, why=" ".join(why.split()), files=files, mechanism=mechanism, note=note))
exec(open(HERE + "/texts.py").read())
NA = globals().get("NA", {})
with open(HERE + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=p["mechanism"], where=", ".join(p["files"]))]))) + "\n")
T = "symbolic execution of the compiled LLVM IR of the real code; Z3 decides branches and assertions; counterexamples replayed natively"
COMMON = " Bounded: nothing is claimed outside the bounds listed per harness in the evidence. Trusted: rustc's LLVM IR as the semantics of the source, the executor in /verif/engine (every run cross-checks sampled paths against the native build), Z3, the reference in the harness."
m = dict(version=1, setup_cmd="python3 ./setup.py", checks=[], not_applicable=[], notes="./check <id> decides one property; VERIF_TIER=thorough deepens the bounds and budgets. See DESIGN.md.")
hooks = HERE + "/hooks.json"
if os.path.exists(hooks): m["hooks"] = json.load(open(hooks))
for p in P:
    if p["id"] in CHECKS:
        m["checks"].append(dict(property=p["id"], quick_cmd=f"./check {p['id']}", thorough_cmd=f"VERIF_TIER=thorough ./check {p['id']}", technique=T, level="model_checking", level_note=p["note"] + COMMON))
    else: m["not_applicable"].append(dict(property=p["id"], reason=NA.get(p["id"], "no check yet: under construction")))
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
missing = set(CHECKS) - {p["id"] for p in P}
assert not missing, missing
# ---------- DESIGN.md
from doc.methods import M
pl = json.load(open(HERE + "/doc/planted.json")) if os.path.exists(HERE + "/doc/planted.json") else {}
kf = json.load(open(HERE + "/known_findings.json"))
d = open(HERE + "/doc/head.md").read()
d += "## Properties\n\n"
for p in P:
    d += f"### {p['id']} {p['title']}\n\n"
    if p["id"] not in CHECKS: d += f"Not applicable: {NA.get(p['id'], '')}\n\n"; continue
    o, r = M[p["id"]]
    d += f"Statement: see properties.jsonl. Oracle: {o}. Reach: {r}.\n\n"
    for h in CHECKS[p["id"]]["harnesses"]: d += f"* `{h['mod']}/{h['name']}` (up to {h['budget']} s): {h['bounds']}\n"
    b = [f"{i} ({x})" for i, x in sorted(pl.items()) if json.load(open(f"{HERE}/seeded/{i}/meta.json"))["property"] == p["id"]]
    if b: d += f"\nPlanted: {'; '.join(b)}.\n"
    d += "\n"
d += "## Defects found in djc/askama\n\nRecorded in known_findings.json. Still open (the check prints KNOWN-FINDING and stays quiet about exactly these):\n\n" + "".join(f"* {x['property']}, harness {x['harness']}: {x.get('what') or x.get('text')}\n" for x in kf["findings"]) + "\nRepaired by small `fix:` commits:\n\n"
d += "".join(f"* {x[7:]}\n" for x in kf["fixed"])
d += "\n" + open(HERE + "/doc/tail.md").read()
d += "\n## Planted bugs\n\nEach was written from the text of its property, passes the existing tests, and has a demonstration (seeded/<id>).\n\n| bug | property | needs | outcome |\n|---|---|---|---|\n"
for i, x in sorted(pl.items()):
    e = json.load(open(f"{HERE}/seeded/{i}/meta.json")); d += f"| {i} | {e['property']} | {e['needs']} | {x} |\n"
open(HERE + "/DESIGN.md", "w").write(d)
