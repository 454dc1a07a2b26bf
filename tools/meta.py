#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl and MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "disjunctive abstract interpretation of the compiler's LLVM IR (dataflow fixpoint, inlining, contracts)"
PROPS, NA = [], []


def P(id, title, statement, over, qtext, why, files, mech, observe=(), tech=TECH, note="", na=None):
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": ["skull/" + f for f in files],
                    "mechanism": [{"name": n, "where": "skull/" + w} for n, w in mech],
                    "observe_at": list(observe), "hook_needed": None},
        "_tech": tech, "_note": note, "_na": na})


exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
m = {"version": 1, "setup_cmd": "python3 lib/extract.py",
     "checks": [], "not_applicable": []}
for p in PROPS:
    if p["_na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["_na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                            "technique": p["_tech"], "level": "other", "level_note": p["_note"]})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
