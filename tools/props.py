#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one list."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, note, technique, state=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, note=note, technique=technique, state=state or [], na=na))
exec(open(os.path.join(os.path.dirname(__file__), "list.py")).read())
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root + "/properties.jsonl", "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
             "observe_at": p["observe"], "hook_needed": False}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "Black-box property-based testing of the freshly built tool; every check builds what it needs from /repo's working tree in a scratch directory. VERIF_SEED seeds the generators, VERIF_TIER selects the number of cases."}
for p in sorted(P, key=lambda p: p["id"]):
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": "VERIF_TIER=quick ./check.sh " + p["id"],
                        "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
                        "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"],
                        "level": "exploration", "level_note": p["note"]})
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
