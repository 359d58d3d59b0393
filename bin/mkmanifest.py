#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = json.load(open(V + "/bin/not_applicable.json")) if os.path.exists(V + "/bin/not_applicable.json") else {}
checks = []
for p in props:
    c = CHECKS.get(p["id"])
    if not c: continue
    e = dict(property=p["id"], quick_cmd="python3 bin/check.py %s quick" % p["id"], thorough_cmd="python3 bin/check.py %s thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"], level=c["level"], technique=c["technique"], level_note="Every execution within the stated bounds is run on the code of /repo and compared with a reference model: " + c["bounds"] + ". Assumes: " + "; ".join(c["assumptions"]) + ". " + c["note"])
    checks.append(e)
m = dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks, not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], "no check built yet")) for p in props if p["id"] not in CHECKS])
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); print(len(checks), "checks;", [x["property"] for x in m["not_applicable"]])
