#!/usr/bin/env python3
"""Builds every harness once, so that the checks only rebuild what changed in /repo."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, registry
t = {}
for c in registry.CHECKS.values():
    for p in c["parts"]:
        t.setdefault(p.get("variant", "plain"), []).extend(x for x in p["targets"] if x not in t.get(p.get("variant", "plain"), []))
for v, x in t.items():
    t0 = time.time(); build.build(v, x); print(v, x, "%.0f s" % (time.time() - t0))
