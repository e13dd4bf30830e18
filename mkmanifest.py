#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl."""
import json, subprocess
props = [json.loads(l) for l in open("/verif/properties.jsonl") if l.strip()]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
commits = [l.split()[0] for l in hook.splitlines() if "Guarded simulation hooks" in l]
m = {"version": 1,
     "setup_cmd": "python3 check.py --build",
     "hooks": {"guard": "CAL_SIM",
               "enable": "-DCAL_SIM -DCAL_SIM_HEADER='\"/verif/sim/tune.h\"' (set by sim/Makefile)",
               "source_commits": commits},
     "checks": [], "not_applicable": []}
for p in props:
    m["checks"].append({
        "property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py " + p["id"] + " thorough",
        "technique": "deterministic simulation: seeded search over operation histories, maintenance schedules and faults, checked against a truth-table reference model",
        "level": "exploration",
        "level_note": "seeded random exploration of whole-library runs over at most 12 variables; finds violations with a replayable minimised trace, proves nothing about unexplored histories"})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
