#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and lib/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.path.insert(0, os.path.join(V, "tools"))
from props import P
from registry import CHECKS, NOTES
NA = {}
try:
    from props import NA
except ImportError:
    pass

with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for p in P:
        n = p["statement"].count(". ") + 1
        assert n <= 3, (p["id"], n)
        assert len(p["title"]) <= 80, p["id"]
        fh.write(json.dumps(p) + "\n")
        for f in p["anchors"]["files"]:
            assert os.path.exists(os.path.join("/repo", f)), f
checks, na = [], []
for p in P:
    i = p["id"]
    if i in CHECKS:
        checks.append(dict(
            property=i, quick_cmd="python3 check.py " + i,
            thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
            technique="TLA+ specification checked by TLC; recorded executions of the real code validated against it",
            level="model_checking", level_note=NOTES.get(i, NOTES["*"])))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not claimed yet: its specification is still being written")))
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         hooks=dict(guard="FORTUNA_VERIF (unused)", enable="no hooks are needed: everything is observed through the public API",
                    source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Specifications in specs/, drivers of the real code in harness/, orchestration in lib/. See DESIGN.md.")
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
