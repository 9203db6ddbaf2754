#!/usr/bin/env python3
"""Writes section 6 of DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
also = {"card-appid-v2-first": "C06", "activity-ring-start": "C05", "events-after-2038": "C05", "vehicle-unit-version-trim": "C05",
        "rsa-unnamed-issuer": "C23", "enum-high-bit": "C10"}
try:
    also.update(json.load(open(V + "/tools/also.json")))
except OSError:
    pass
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append((m["property"], d, m["what_it_breaks"], also.get(d, "")))
rows.sort()
out = ["## 6. Planted bugs", "",
       "Each was written from a property and the code, keeps the tests green, and has a demonstration.",
       "Caught by: the quick check of its property, and by the others named. First missed, then caught after the",
       "check was strengthened: rsa-unnamed-issuer (issuers without a name), chain-skips-deadline (causes of",
       "failures), transfer-type-memo (cold start of each process), vu-empty-transfer-list (mixed files).", "",
       "| property | bug | what it breaks | also caught by |", "|---|---|---|---|"]
out += ["| %s | %s | %s | %s |" % r for r in rows]
t = open(V + "/DESIGN.md").read()
t = re.split(r"^(?:@@SEEDED@@|## 6\. Planted bugs)", t, flags=re.M)[0] + "\n".join(out) + "\n"
open(V + "/DESIGN.md", "w").write(t)
print(len(rows), "planted bugs")
