#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
ck, na = [], []
for p in props:
    if p in checks.CHECKS:
        t, n = checks.NOTES[p]
        ck.append(dict(property=p, quick_cmd="bin/check %s quick" % p, thorough_cmd="bin/check %s thorough" % p,
                       evidence_file="evidence/%s.json" % p, technique=t, level="model_checking", level_note=n))
    else:
        na.append(dict(property=p, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="bin/setup", checks=ck, not_applicable=na,
               notes="TLA+/TLC. No hooks in /repo: the harness uses the public API only. See DESIGN.md."), open(V + "/MANIFEST.json", "w"), indent=1)
