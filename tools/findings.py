#!/usr/bin/env python3
"""Writes known_findings.jsonl: the repaired defects (looked up by commit subject) and the open ones."""
import subprocess, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = {}   # subject -> (property, what failed)
OPEN = []    # dicts: property, sig, what
exec(open(os.path.join(HERE, "tools", "findings_data.py")).read())
log = dict(l.split(" ", 1)[::-1] for l in subprocess.check_output(
    ["git", "-C", "/repo", "log", "--reverse", "--format=%H %s"], text=True).splitlines())
with open(os.path.join(HERE, "known_findings.jsonl"), "w") as f:
    for s, h in log.items():
        if s.startswith("fix:"):
            p, w = FIXED[s]
            f.write(json.dumps({"status": "fixed", "property": p, "commit": h,
                                "entry": f"fixed: property={p} {h[:12]} {w}"}) + "\n")
    for o in OPEN:
        f.write(json.dumps(dict(status="open", **o)) + "\n")
