#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the entries in tools/props.py."""
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import NA, NOTES, P

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lines, checks = [], []
for p in P:
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["all"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "observe_at": p.get("observe", []), "hook_needed": None}}))
    assert len(p["title"]) <= 80, p["id"]
    if p["id"] in NA:
        continue
    cmd = f"/opt/venv/bin/python run.py {p['id']} --tier "
    checks.append({
        "property": p["id"], "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "symbolic execution of the repository's functions, obligations decided by SMT (z3)",
        "level": "model_checking",
        "level_note": p["note"]})
open(os.path.join(ROOT, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import wam2layers' && mkdir -p evidence",
     "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()], "notes": NOTES}
open(os.path.join(ROOT, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
import subprocess
V = "/opt/veriftools/pyvenv/bin/python"
code = ("import json,jsonschema;m=json.load(open('MANIFEST.json'));"
        "jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')));"
        "[jsonschema.validate(json.loads(l),json.load(open('/root/.vp/PROPERTIES.schema.json'))) for l in open('properties.jsonl')];"
        "print('valid',len(m['checks']))")
subprocess.run([V, "-c", code], cwd=ROOT)
