#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: `python3 tools/gen.py` rewrites both."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, built, note="", state=(), observe="", na=None):
    anchors = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None)
    if state:
        anchors["state"] = [dict(name=n, meaning=w) for n, w in state]
    if observe:
        anchors["observe_at"] = [observe]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=anchors, _built=built, _note=note, _na=na))


exec(open(os.path.join(ROOT, "tools", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")

TECH = "property-based testing (Hypothesis generators against an explicit oracle, with shrinking)"
man = dict(
    version=1,
    setup_cmd="bash setup.sh",
    checks=[dict(property=p["id"], quick_cmd="bash run.sh %s --tier quick" % p["id"],
                 thorough_cmd="bash run.sh %s --tier thorough" % p["id"],
                 evidence_file="evidence/%s.json" % p["id"],
                 technique=TECH, level="exploration", level_note=p["_note"]) for p in P if p["_built"]],
    not_applicable=[dict(property=p["id"], reason=p["_na"] or "The check for this property is not built yet.")
                    for p in P if not p["_built"]],
    notes="Checks import /repo's working tree with a numba cache of their own per run; no hooks in /repo. "
          "Genuine defects that were repaired or recorded are listed in known_findings.json.",
)
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
