#!/usr/bin/env python3
"""Takes lines printed by run.py (stdin) into tools/cost.json, which DESIGN.md quotes."""
import json, os, re, sys
f = os.path.dirname(os.path.abspath(__file__)) + "/cost.json"
d = json.load(open(f)) if os.path.exists(f) else {}
for l in sys.stdin:
    m = re.match(r"(C\d+) (\w+): held on (\d+) executions, (\d+) states, (\d+) transitions, (\d+) comparisons \(([\d.]+) s", l)
    if m:
        d.setdefault(m[1], {})[m[2]] = "%s executions, %s states, %s transitions, %s comparisons, %.0f s" % tuple(m.groups()[2:6] + (float(m[7]),))
json.dump(d, open(f, "w"), indent=1, sort_keys=True)
