"""Writes MANIFEST.json from properties.jsonl and the checks which exist."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(V, "props", i.lower() + ".py")):
        na.append({"property": i, "reason": "No check has been built for it yet."})
        continue
    m = importlib.import_module("props." + i.lower())
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                   "technique": m.TECHNIQUE, "level": m.LEVEL, "level_note": m.NOTE})
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo are needed: the monitors observe the real programs from outside (system calls, pipes, files, "
                    "terminals) and the library through its public API."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
