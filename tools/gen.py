#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, text, why, files, mech, over=("inputs",), note="", built=True, tech="", na=None):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files,
                  mech=[dict(name=a, where=b) for a, b in mech], over=list(over), note=note,
                  built=built, tech=tech, na=na))

exec(open(os.path.join(HERE, "tools", "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=p["mech"], hook_needed=None)), ensure_ascii=False) + "\n")
checks, na = [], []
for p in P:
    if p["na"] or not p["built"]:
        na.append(dict(property=p["id"], reason=p["na"] or "the check for it is not built yet"))
        continue
    checks.append(dict(
        property=p["id"],
        quick_cmd=f"./check.sh {p['id']} quick",
        thorough_cmd=f"./check.sh {p['id']} thorough",
        evidence_file=f"evidence/{p['id']}.json",
        technique="property-based testing: " + p["tech"],
        level="exploration",
        level_note=p["note"] + " Random search with shrinking: it samples the stated domain and never establishes absence."))
json.dump(dict(version=1, setup_cmd="./check.sh build", checks=checks, not_applicable=na,
    notes="One harness (harness/) holds the engine, the reference model and all checks; see DESIGN.md. There are no hooks in /repo: only public APIs are used. Repairs are the 'fix:' commits listed in known_findings.txt."),
    open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not claimed")
