#!/usr/bin/env python3
"""fixed.py PROPERTY 'commit subject prefix' 'what failed': records a repaired defect in known-findings.json"""
import json, subprocess, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p, subj, what = sys.argv[1:4]
h = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h", "-F", "--grep", subj], text=True).split()
assert len(h) == 1, h
f = os.path.join(V, "known-findings.json")
d = json.load(open(f))
d["fixed"].append("fixed: property=%s %s %s" % (p, h[0], what))
json.dump(d, open(f, "w"), indent=1)
open(f, "a").write("\n")
