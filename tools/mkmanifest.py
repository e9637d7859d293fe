#!/usr/bin/env python3
"""writes MANIFEST.json from checks.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
TECH = "runtime monitoring: "
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        builds = "/".join(c["variants"])
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
            evidence_file="evidence/%s.json" % i, technique=TECH + c.get("technique", "randomised executions of the real code judged by an independent oracle, with address and undefined behaviour sanitizers"),
            level=c.get("level", "exploration"),
            level_note="Executes the code built from the working tree (%s builds) on generated workloads; every observed result is judged by an oracle that does not share code with the library. Counts: %s. Assumes: %s." % (builds, c["rule"], "; ".join(c.get("assumptions", [])) or "nothing further")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check has been built yet")))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
