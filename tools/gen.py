"""Writes properties.jsonl and MANIFEST.json from tools/props.py (only properties with a check are claimed)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from tools.props import NOT_APPLICABLE, PROPS  # noqa: E402

TECH = "symbolic execution of the real Python source + SMT (z3), counterexamples replayed on the unmodified package"
checks = []
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(q) + "\n")
        if os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py")):
            checks.append(
                {
                    "property": p["id"],
                    "quick_cmd": f"./run.sh {p['id']} --tier quick",
                    "thorough_cmd": f"./run.sh {p['id']} --tier thorough",
                    "evidence_file": f"evidence/{p['id']}.json",
                    "technique": p.get("technique", TECH),
                    "level": "model_checking",
                    "level_note": p["note"],
                }
            )
claimed = {c["property"] for c in checks}
na = [n for n in NOT_APPLICABLE]
for p in PROPS:
    if p["id"] not in claimed and p["id"] not in {n["property"] for n in na}:
        na.append({"property": p["id"], "reason": "no check has been built for it yet"})
man = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks are needed in /repo: the checks execute its unmodified source. See DESIGN.md.",
}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties,", len(checks), "checks,", len(na), "not applicable")
