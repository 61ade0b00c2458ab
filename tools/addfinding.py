#!/usr/bin/env python3
"""addfinding.py <property> <id> <workload> <key-regex> <what>: lists a confirmed defect that is not repaired."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
prop, fid, wl, key, what = sys.argv[1:6]
d["findings"] = [f for f in d["findings"] if f["id"] != fid] + [dict(property=prop, id=fid, workload=wl, key=key, what=what)]
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")
