#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(here + "/tools/claims.py").read())
ids = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in CLAIMS:
        tech, note = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd="./run.sh " + i, thorough_cmd="./run.sh " + i, technique=tech, level="other", level_note=note + " " + COMMON))
    else:
        na.append(dict(property=i, reason=NA.get(i, "the rule for this property is not built yet")))
json.dump(dict(version=1, setup_cmd="./run.sh --build", checks=checks, not_applicable=na,
    notes="All checks are one static analyser (checker/, Go, vendored golang.org/x/tools) run on /repo's current source; no code of /repo is executed. The analysis is exhaustive over paths and does not depend on a bound or on the seed, so the quick and the thorough command are the same."),
    open(here + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", len(na), "not applicable:", [x["property"] for x in na])
