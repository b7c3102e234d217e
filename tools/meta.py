#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import subprocess
HOOKS = [l.split()[0] for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%H %s"], text=True).splitlines() if l.split(" ", 1)[1].startswith("hook:")]
P = []      # (property, claim dict or None, reason)

def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None,
         technique=None, note=None, level="exploration", na=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    p = dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
             why_tests_cant=why, anchors=a)
    P.append((p, dict(technique=technique, note=note, level=level), na))

exec(open(os.path.join(HERE, "tools", "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p, _, _ in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")

checks, na = [], []
for p, c, r in P:
    if r:
        na.append({"property": p["id"], "reason": r}); continue
    checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick",
                   "thorough_cmd": f"./check.sh {p['id']} thorough",
                   "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "xi_mon", "enable": "RUSTFLAGS='--cfg xi_mon' (check.sh sets it for the core monitor); adds RpcCtx::for_peer, with which the monitor plays the peer of the core in memory",
               "source_commits": HOOKS},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
