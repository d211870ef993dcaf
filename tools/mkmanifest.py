#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from targets import PROPS
from notes import NOTES, NA
m = dict(version=1, setup_cmd="python3 tools/check.py setup", checks=[], not_applicable=NA,
         notes="No hooks in /repo: every seam is an existing interface or a system primitive that the simulator replaces at link time.")
for p in sorted(PROPS):
    m["checks"].append(dict(property=p, quick_cmd="python3 tools/check.py %s quick" % p, thorough_cmd="python3 tools/check.py %s thorough" % p,
                            evidence_file="evidence/%s.json" % p, technique="deterministic simulation with fault injection: " + NOTES[p][0], level="exploration", level_note=NOTES[p][1]))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
