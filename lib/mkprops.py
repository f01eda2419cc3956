#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from propdefs.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from propdefs import P

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    from registry import CHECKS
    with open(ROOT + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in CHECKS:
            checks.append({
                "property": p["id"],
                "quick_cmd": "python3 check.py %s" % p["id"],
                "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "the check is not finished"})
    man = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "check.py reads VERIF_TIER (quick or thorough) and VERIF_SEED. No hooks are needed in /repo: "
                    "all monitors sit at the API boundary; tc/ holds stand-ins for tree-gen and ANTLR."}
    with open(ROOT + "/MANIFEST.json", "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
