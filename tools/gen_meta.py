"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P  # noqa

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the real Python source with z3 (bounded, all inputs within bounds)"
NOTE = (
    "every execution path of the encoded functions is explored for all input values within the stated bounds and z3 discharges each assertion; "
    "trusts the numpy/pandas models of sx/, exact rational arithmetic for floats, and z3; path witnesses and counterexamples are replayed on the unmodified package. "
)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
man = {
    "version": 1, "setup_cmd": "./setup.sh",
    "checks": [{
        "property": p["id"], "quick_cmd": f"./check.sh {p['id']} --tier quick", "thorough_cmd": f"./check.sh {p['id']} --tier thorough",
        "technique": TECH, "level": "model_checking", "level_note": NOTE + p["note"],
    } for p in P if not p["na"]],
    "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
}
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
