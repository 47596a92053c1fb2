#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props_meta.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props_meta import PROPS, NOT_APPLICABLE
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(f"{root}/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs", "configurations"]), "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", ["the HTML and diagnostics returned by the library's public API"]),
                        "hook_needed": None},
        }, ensure_ascii=False) + "\n")
        assert len(p["title"]) <= 80, p["id"]
claimed = [p for p in PROPS if p.get("claimed", True)]
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"./run.sh {p['id']} quick",
        "thorough_cmd": f"./run.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    } for p in claimed],
    "not_applicable": NOT_APPLICABLE,
    "notes": "Property-based testing with a choice-tape generator, tape shrinking and crash-isolated workers; see DESIGN.md. No hooks in /repo are needed: everything is observed through public APIs.",
}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
