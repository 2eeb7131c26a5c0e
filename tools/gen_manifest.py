#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import registry
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for p in ids:
    if p not in registry.PROPS: continue
    r = registry.PROPS[p]
    checks.append(dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
        technique=r.get("technique", "TLA+ specification checked with TLC; traces of the real code validated against it (TLC)"),
        level="model_checking", level_note=r.get("note", registry.DEFAULT_NOTE)))
na = [dict(property=p, reason=registry.NA.get(p, "check not built yet")) for p in ids if p not in registry.PROPS]
json.dump(dict(version=1, setup_cmd="python3 lib/setup.py", checks=checks, not_applicable=na), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
