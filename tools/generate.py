#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/properties.py."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import properties  # noqa: E402


def main():
    lines = []
    checks = []
    na = []
    for p in properties.PROPERTIES:
        assert len(p["title"]) <= 80, p["title"]
        have = os.path.exists(os.path.join(VERIF, "checks", p["id"] + ".py"))
        reason = p.get("not_applicable")
        if not have and not reason:
            continue
        files = p["files"]
        lines.append({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quantifier"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]},
        })
        if have:
            checks.append({
                "property": p["id"],
                "quick_cmd": f"./run.py {p['id']} --tier quick",
                "thorough_cmd": f"./run.py {p['id']} --tier thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": p.get("technique", "symbolic execution of the Python source with z3 (" + p["encoding"] + ")"),
                "level": "model_checking",
                "level_note": p["note"],
            })
        else:
            na.append({"property": p["id"], "reason": reason})
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for line in lines:
            f.write(json.dumps(line) + "\n")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na, "notes": properties.NOTES}, f, indent=1)
        f.write("\n")
    print(len(lines), "properties,", len(checks), "checks,", len(na), "not applicable")


main()
