#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and lib/checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl")) if x.strip()]
checks = []
for p in props:
    if p["id"] not in CHECKS:
        continue
    c = CHECKS[p["id"]]
    checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"], thorough_cmd="python3 run.py %s thorough" % p["id"],
        technique=c.get("technique", "TLA+ specification model-checked with TLC; traces of the real code validated against it"),
        level="model_checking", level_note=c["note"]))
na = [dict(property=p["id"], reason=NOT_APPLICABLE.get(p["id"], "check not built yet")) for p in props if p["id"] not in CHECKS]
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
