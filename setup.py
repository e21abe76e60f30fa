#!/usr/bin/env python3
"""Warms the build cache: every target and the simulator host, from /repo's working tree."""
import simbuild
from props import PROPS
seen = set()
for p in PROPS.values():
    key = (tuple(p["targets"]), tuple(p["sources"]))
    if key in seen:
        continue
    seen.add(key)
    simbuild.build(p["targets"], ["core.cpp", "main.cpp"] + p["sources"])
print("built", len(seen), "configurations")
