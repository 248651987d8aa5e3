#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks/table.py."""
import json, os, sys, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "checks")); sys.dont_write_bytecode = True
import table
hook = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines() if l.split(" ", 1)[1].startswith("hook:")]
checks, na = [], []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    if i in table.CHECKS:
        c = table.CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % i,
                       "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": table.NA.get(i, "no check yet: under construction") if hasattr(table, "NA") else "no check yet: under construction"})
m = {"version": 1, "setup_cmd": "python3 tools/selfcheck.py", "hooks": {"guard": "ODES_MONITOR", "enable": "-DODES_MONITOR (header only library: the checks compile /repo's headers with it)", "source_commits": hook},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
