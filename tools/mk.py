#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (one place for both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = "src/linestring_2d/convex_hull.rs"
PROPS = []

def P(id, title, statement, over, text, why, files, mech, technique, note, observe=None, na=None, claimed=True):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, technique=technique, note=note, observe=observe or [], na=na, claimed=claimed))

exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")
man = {
    "version": 1,
    "setup_cmd": "./check.sh --setup",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p['id']}",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    } for p in PROPS if p["claimed"]],
    "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if not p["claimed"]],
    "notes": "No hooks: every monitor observes the public API of the real crate. Each check rebuilds harness/ against /repo. known_findings.txt lists recorded and repaired defects.",
}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
