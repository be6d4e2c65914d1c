#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import sys
sys.dont_write_bytecode = True
import json, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, NOT_APPLICABLE

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for p in sorted(CHECKS):
    c = CHECKS[p]
    checks.append({
        "property": p,
        "quick_cmd": "python3 tools/check.py " + p,
        "thorough_cmd": "python3 tools/check.py " + p,
        "technique": c.get("technique", "TLA+ specification checked by TLC; traces of the real code replayed through it"),
        "level": c.get("level", "model_checking"),
        "level_note": c["note"],
        "evidence_file": "evidence/%s.json" % p,
    })
m = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "hooks": {"guard": "verif", "enable": "no hooks are needed: the harness uses the public API only", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NOT_APPLICABLE.items())],
    "notes": "known-findings.txt lists the defects found (fixed in /repo or known). DESIGN.md explains the specification and its binding.",
}
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
