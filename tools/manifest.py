#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Run it after changing the tables below."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, NOT_APPLICABLE, NOTES
from properties import PROPS

def main():
    here = os.path.dirname(os.path.abspath(__file__))
    checks = []
    for id, technique, note in CHECKS:
        checks.append({
            "property": id,
            "quick_cmd": "bash check.sh -tier quick " + id,
            "thorough_cmd": "bash check.sh -tier thorough " + id,
            "evidence_file": "evidence/%s.json" % id,
            "technique": technique,
            "level": "other",
            "level_note": note,
        })
    ids = {p["id"] for p in PROPS}
    done = {c["property"] for c in checks} | {n for n, _ in NOT_APPLICABLE}
    missing = sorted(ids - done)
    if missing:
        print("properties without check or reason:", missing)
    m = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": checks,
        "hooks": {"guard": "verif", "enable": "no hooks are used: the checks only read the source", "source_commits": []},
        "not_applicable": [{"property": p, "reason": r} for p, r in NOT_APPLICABLE],
        "notes": NOTES,
    }
    with open(os.path.join(here, "..", "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

if __name__ == "__main__":
    main()
