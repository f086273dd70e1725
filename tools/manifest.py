"""Writes MANIFEST.json from properties.jsonl and checks/bounds.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks.bounds import BOUNDS  # noqa: E402

checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if not os.path.exists(os.path.join(HERE, "checks", p.lower() + ".py")):
        na.append({"property": p, "reason": "the check is not built yet"})
        continue
    checks.append({
        "property": p,
        "quick_cmd": f"python3 run_check.py {p} --tier quick",
        "thorough_cmd": f"python3 run_check.py {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": "symbolic execution of the real Python code under jax tracers, obligations decided by z3",
        "level": "model_checking",
        "level_note": "Bounded, exhaustive over the symbolic inputs: " + BOUNDS[p]
        + " Real arithmetic up to 1e-6; jax primitives trusted, validated by concrete replay of every path.",
    })
json.dump({
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3, jax, horqrux\"",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks: the code is encoded from /repo as it is on each run. Numbers in parentheses are the thorough tier. known_findings.txt lists findings and fixes.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
