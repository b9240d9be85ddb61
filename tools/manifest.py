#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run: python3 tools/manifest.py)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(here, "lib"))
import checks, levels
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.RUN:
        tech, level, note = levels.LEVELS[i]
        m["checks"].append({"property": i, "quick_cmd": "./check %s --quick" % i, "thorough_cmd": "./check %s --thorough" % i,
                            "technique": tech, "level": level, "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": levels.NA.get(i, "not built yet")})
m["notes"] = ("TLA+ specifications in specs/, checked with TLC; conformance by replaying TLC's state graph edges and seeded random "
              "scripts into the real code and validating the recorded traces with TLC. No hooks in /repo are needed.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
