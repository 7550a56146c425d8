"""Writes MANIFEST.json: a check for every property that has a module in dst/props, a reason for every other."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {
 "C19": "pure function of its arguments (matrix algebra on immutable circuits): no I/O, clock, schedule, fault or history for the property to depend on; simulation would only be random testing of inputs",
 "C20": "pure function of circuit and rules; nothing for a scheduler or fault injector to decide",
 "C21": "pure function of Hamiltonian, time and order; nothing for a scheduler or fault injector to decide",
 "C22": "pure algebraic transforms; nothing for a scheduler or fault injector to decide",
 "C23": "pure operator algebra; nothing for a scheduler or fault injector to decide (sharing and in-place aliasing between clients is decided under C15)",
 "C24": "pure functions of two distributions; nothing for a scheduler or fault injector to decide (that they leave the distributions alone is decided under C16)",
 "C25": "pure functions of operators; nothing for a scheduler or fault injector to decide",
 "C26": "pure functions of sizes; nothing for a scheduler or fault injector to decide",
}
NOTE = {}
exec(open(V + "/tools/level_notes.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/dst/props/%s.py" % (V, i.lower())):
        checks.append(dict(property=i, quick_cmd="./check.sh %s" % i, thorough_cmd="./check.sh %s thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique="deterministic simulation with fault injection: seeded search over schedules, fault sequences and histories, minimised replay files",
                           level="exploration", level_note=NOTE[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: every seam (devices under open(), os/h5py/time/random/numpy generators, backends, functions) is reached from outside. "
                     "Replay a violation with: . ./env.sh; $PY dst/runner.py replay FILE"),
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
