#!/usr/bin/env python3
"""Writes MANIFEST.json from sa/checks/registry.py (claimed) and NA below (not applicable)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sa.checks import registry

NA = {
    "C23": "Floating-point error against exact arithmetic depends on run-time magnitudes and cancellation over unbounded "
           "histories; no static argument in reach bounds it. The formula itself is decided by C19.",
    "C25": "Run time is a quantity of execution; pandas' costs are not visible in this source, so no static bound is honest.",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        level, note, fn = registry.CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i,
                       "thorough_cmd": "python3 check.py %s --thorough" % i,
                       "technique": registry.TECHNIQUE[i], "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "Static analysis of /repo's current source with the standard library's ast module; nothing of /repo is "
              "imported or executed. See DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
