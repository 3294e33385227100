#!/usr/bin/env python3
"""Appends to known_findings.txt a `fixed:` line for every fix commit of /repo that is not there yet: fixed.py PROPERTY [COMMIT..]"""
import subprocess, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(V, "known_findings.txt"); t = open(f).read()
log = [l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()]
with open(f, "a") as o:
    for h, s in log:
        if s.startswith("fix: ") and h not in t and (len(sys.argv) < 3 or any(h.startswith(x[:7]) for x in sys.argv[2:])):
            o.write("fixed: property=%s %s %s\n" % (sys.argv[1], h, s[5:]))
