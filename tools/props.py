#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, tech=None, level="exploration", note="", na=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why, anchors=a, tech=tech, level=level, note=note, na=na))

exec(open(os.path.join(root, "tools", "props_data.py")).read())

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps({k: x[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": [], "not_applicable": []}
for x in P:
    if x["tech"]:
        m["checks"].append({"property": x["id"], "quick_cmd": "bash /verif/check.sh " + x["id"], "thorough_cmd": "VERIF_TIER=thorough bash /verif/check.sh " + x["id"],
            "technique": x["tech"], "level": x["level"], "level_note": x["note"]})
    else:
        m["not_applicable"].append({"property": x["id"], "reason": x["na"] or "check under construction"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
