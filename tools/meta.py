#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection"
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, note=None, tech=None, na=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    d["_note"] = note
    d["_tech"] = tech or TECH
    d["_na"] = na
    P.append(d)


exec(open(os.path.join(V, "tools", "proptable.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps({k: v for k, v in d.items() if not k.startswith("_")}) + "\n")
man = dict(version=1, setup_cmd="python3 setup.py",
           hooks=dict(guard="none", enable="nothing to enable: the seam is symbol renaming (objcopy) on objects built from the unmodified sources", source_commits=[]),
           checks=[], not_applicable=[])
for d in P:
    if d["_na"]:
        man["not_applicable"].append(dict(property=d["id"], reason=d["_na"]))
    else:
        man["checks"].append(dict(property=d["id"], quick_cmd="python3 check.py " + d["id"],
                                  thorough_cmd="python3 check.py %s --tier thorough" % d["id"], technique=d["_tech"],
                                  level="exploration", level_note=d["_note"], evidence_file="evidence/%s.json" % d["id"]))
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
