#!/usr/bin/env python3
"""writes MANIFEST.json: one check for each props/cNN.py"""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C19": "Pure function of a byte string: no schedule, time, I/O or fault can change its result, so simulation has "
           "nothing to decide (a wrong CRC on frames the simulated runs exchange is still reported by C02, C04 and C18).",
    "C20": "Pure arithmetic on the baud rate; nothing for a scheduler or fault injector to decide.",
    "C21": "The HMI (hmi/master_webhmi.py) is Python 2 source, which no installed interpreter compiles, and needs the bottle "
           "framework, which is not installed either, so its code cannot be run, neither really nor simulated.",
}
NOTE = ("Seeded search over schedules, delays and faults of simulated executions running the real package code; "
        "it samples and does not exhaust them.")
checks = []
for f in sorted(os.listdir(os.path.join(ROOT, "props"))):
    m = re.match(r"c(\d\d)\.py$", f)
    if m:
        pid = "C" + m.group(1)
        checks.append({"property": pid, "quick_cmd": "./check.py %s --tier quick" % pid,
                       "thorough_cmd": "./check.py %s --tier thorough" % pid,
                       "technique": "deterministic simulation with fault injection (seeded search, replayable)",
                       "level": "exploration", "level_note": NOTE})
have = set(c["property"] for c in checks)
na = []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    if p["id"] not in have:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "check not built yet")})
man = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.exit(0)\"", "checks": checks,
       "not_applicable": na}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
