#!/usr/bin/env python3
"""Writes the "fixed" list of known_findings.json from the fix: commits of /repo (run by hand)."""
import json, os, subprocess
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [l.split("\t") for l in open(os.path.join(D, "tools", "fixed.tsv")).read().splitlines()]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s"], text=True).splitlines()
k = json.load(open(os.path.join(D, "known_findings.json")))
k["fixed"] = []
for l in log:
    h, s = l.split("\t")
    if not s.startswith("fix:"):
        continue
    m = [p for p in PROPS if s.startswith("fix: " + p[0])]
    assert len(m) == 1, (s, m)
    k["fixed"].append("fixed: property=%s %s %s" % (m[0][1], h, m[0][2]))
json.dump(k, open(os.path.join(D, "known_findings.json"), "w"), indent=1)
