"""Writes /verif/MANIFEST.json from properties.jsonl and the harness files present."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import importlib

TECH = "bounded symbolic execution of the real Python code, assertions decided by an SMT solver (z3), counterexamples replayed on the unmodified package"
NOTE = ("Every path of the real estrade code (loaded from /repo's current source) within the stated bounds is executed symbolically and z3 decides "
        "each assertion for all values on the path. Trusted: the symbolic engine (symx/), its stand-ins for datetime/arrow/float described in DESIGN.md "
        "(a sample of paths per run is re-executed on the real package and compared), z3. Bounds: ")
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    pid = p["id"]
    path = os.path.join(HERE, "harness", pid.lower() + ".py")
    if os.path.exists(path) and pid not in NA:
        mod = importlib.import_module("harness." + pid.lower())
        bounds = "; ".join(h.bounds for h in mod.HARNESSES if h.bounds)
        checks.append({"property": pid, "quick_cmd": "python3-vt check.py %s" % pid,
                       "thorough_cmd": "python3-vt check.py %s --tier thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid, "technique": TECH,
                       "level": "model_checking", "level_note": NOTE + bounds})
    else:
        na.append({"property": pid, "reason": NA.get(pid, "the check for this property is not built yet")})
m = {"version": 1, "setup_cmd": "python3-vt tools/selftest.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: the checks load its source files directly. Known findings: known_findings.json."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
