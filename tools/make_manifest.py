#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and lib/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import registry

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        t, n = registry.NOTES[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=t, level="exploration", level_note=n))
    else:
        na.append(dict(property=i, reason="not built yet"))
m = dict(version=1, setup_cmd="python3 check.py --list", checks=checks, not_applicable=na,
         notes="Checks build their harness from /repo/include at run time (cache in build/, keyed by content). No hooks were needed in /repo.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not built")
