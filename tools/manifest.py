#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the tests present in harness/."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tests = set()
for f in os.listdir(V + "/harness"):
    tests |= set(re.findall(r"^func Test(C\d\d)\(", open(V + "/harness/" + f).read(), re.M))
TECH = json.load(open(V + "/tools/techniques.json"))
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i in tests:
        checks.append({"property": i, "quick_cmd": "python3 run.py check %s quick" % i,
                       "thorough_cmd": "python3 run.py check %s thorough" % i,
                       "technique": TECH.get(i, TECH["default"]), "level": "exploration",
                       "level_note": "generated cases against an explicit oracle; the number and kinds of cases are in the evidence file"})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
