#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the registered harnesses."""
import json
import os
import sys

sys.dont_write_bytecode = True
BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, BASE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
os.chdir(BASE)
from vt import registry

H = registry.load()
NA = {}
NOTE = (
    "Bounded symbolic execution of the current source under /repo/dsari: inputs, times, orders, "
    "faults and histories are solver variables, every obligation is decided by z3 for all values "
    "within the bounds listed per harness in the evidence file; counterexamples are replayed on the "
    "unmodified code before they are reported. Trusted: the Python-operator model (cross-checked on "
    "every run by replaying sampled models concretely), the stand-ins for OS/clock/SQL/cron listed "
    "in the evidence, z3."
)
checks, na = [], []
for line in open("properties.jsonl"):
    p = json.loads(line)["id"]
    if p in H:
        checks.append(
            {
                "property": p,
                "quick_cmd": "./check {} quick".format(p),
                "thorough_cmd": "./check {} thorough".format(p),
                "technique": "symbolic execution of the real Python source with z3 (bounded model checking), counterexample replay",
                "level": "model_checking",
                "level_note": NOTE,
            }
        )
    else:
        na.append({"property": p, "reason": NA.get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. ./check PROP [quick|thorough] [harness-substring] [-v]; ./check --replay FILE replays a reported counterexample on the unmodified code."}
with open("MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
