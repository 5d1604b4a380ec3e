"""writes MANIFEST.json from the properties that have a check"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {
 "C18": "needs a CUDA GPU with scikit-cuda; neither is present, so no GPU code path can execute, simulated or not",
 "C19": "pure functions of their input: no schedule, clock, fault, I/O or randomness for a simulation to decide",
}
LEVEL_NOTE = ("Seeded search over schedules and fault sequences of the real package code inside a deterministic "
              "simulator (every package source line and every file/HDF5/lock/queue/clock operation is a decision "
              "point). Samples, does not enumerate. Trusts the simulated disk, locks, queues and scheduler to "
              "behave like the real ones; numpy/scipy/PyTables/fasteners code is real.")
PY = "/opt/venv/bin/python -W ignore -m sim.check "
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "sim/props/%s.py" % i.lower())):
        checks.append({"property": i, "quick_cmd": PY + i + " --tier quick", "thorough_cmd": PY + i + " --tier thorough",
                       "evidence_file": "evidence/%s.json" % i, "level": "exploration",
                       "technique": "deterministic simulation with fault injection, seeded schedule and fault search",
                       "level_note": LEVEL_NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import numpy, scipy, tables, fasteners, six'",
     "checks": checks, "not_applicable": na,
     "notes": "no hooks in /repo were needed: every seam is an import-time replacement of library entry points"}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
