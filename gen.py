#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
P = []

def prop(id, title, statement, over, qtext, why, files, mech, claim=True, na=None, observe=(), state=None, tech="", note="", level="other"):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, claim=claim, na=na, observe=list(observe), state=state, tech=tech, note=note, level=level))

exec(open(os.path.join(HERE, "props_table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["qtext"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
             "observe_at": p["observe"] or ["static: " + p["files"][0]],
             "hook_needed": None}
        if p["state"]:
            d["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(d) + "\n")
sys.path.insert(0, os.path.join(HERE, "checks"))
import run
reg = run.registry()
checks, na = [], []
for p in P:
    if p["claim"] and p["id"] in reg:
        checks.append({"property": p["id"], "quick_cmd": "python3 checks/run.py " + p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py " + p["id"],
                       "technique": "static analysis: " + reg[p["id"]]["technique"],
                       "level": p["level"], "level_note": p["note"] or "sound over the modelled paths of the current source; see DESIGN.md for what the rule abstracts"})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "no check yet"})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 checks/front.py", "checks": checks, "not_applicable": na}, f, indent=1)
    f.write("\n")
print(len(checks), "claimed,", len(na), "not applicable")
