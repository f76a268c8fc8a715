"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from props import PROPS, NA
ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS + NA:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["all"]},
            "why_tests_cant": p["tests"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
checks = []
for p in PROPS:
    assert os.path.exists(V + "/sa/rules/%s.py" % p["id"].lower()), p["id"]
    checks.append({
        "property": p["id"], "quick_cmd": "python3 sa/run.py %s" % p["id"],
        "thorough_cmd": "python3 sa/run.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"], "level": "other", "level_note": p["note"],
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3 sa/facts.py",
    "hooks": {"guard": "none", "enable": "no hooks: the checks read the compiler's MIR of the unmodified sources", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
    "notes": "All checks are static analyses over the MIR that rustc produces for /repo's current tree (driver/ is a rustc_private wrapper); nothing of libimagequant is executed. Analysis engine: sa/engine.py (path-sensitive interprocedural abstract interpretation); one rule file per property in sa/rules.",
}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(PROPS), "claimed", len(NA), "not applicable")

import design
from det import DET
design.write(PROPS, NA, DET)
