#!/opt/venv/bin/python
"""Rebuild MANIFEST.json from the check modules and properties.jsonl."""
import ast
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, have = [], set()
for f in sorted(glob.glob(os.path.join(HERE, "mc/checks/p*_*.py"))):
    consts = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                consts[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    pid = consts["PROP"]
    have.add(pid)
    checks.append(dict(property=pid, quick_cmd="./run.py %s --quick" % pid, thorough_cmd="./run.py %s --thorough" % pid,
                       technique=consts["TECHNIQUE"], level=consts["LEVEL"], level_note=consts["LEVEL_NOTE"]))
NA = {}
na = [dict(property=p, reason=NA.get(p, "check not built yet")) for p in props if p not in have]
out = dict(version=1, setup_cmd="/opt/venv/bin/python -c \"import pypsrp, requests, cryptography, spnego\"", checks=checks, not_applicable=na,
           notes="All checks run the real code from /repo/src under a controlled environment (mc/env.py); no hooks in /repo.")
json.dump(out, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks;", len(na), "not claimed")
