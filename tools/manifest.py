#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the scenarios present in sim/scen."""
import json, re, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
have = set()
for f in glob.glob(root + "/sim/scen/*.cc"):
    have |= set(re.findall(r'SCENARIO\("(C\d+)"', open(f).read()))
notes = {}
exec(open(root + "/tools/notes.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have and i not in disabled:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "technique": technique.get(i, "deterministic simulation with fault injection: seeded search over schedules, workloads and faults"),
                       "level": "exploration", "level_note": notes.get(i, default_note)})
    else:
        na.append({"property": i, "reason": na_reason.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "hooks": {
        "guard": "VRS_SIM_HOOKS",
        "enable": "sim/CMakeLists.txt compiles the sources of /repo with -DVRS_SIM_HOOKS; the only hook lets the simulator choose how many records a batch of an index holds (vrs_sim_index_batch_size), so that short recordings have indexes of several batches",
        "source_commits": ["34301d6"]},
    "notes": "Threads, clocks, files and AIO are libc symbols which the simulator defines, so that VRS needs no hooks for them. known-findings.txt lists the defects found."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
