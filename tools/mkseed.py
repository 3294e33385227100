#!/usr/bin/env python3
"""Development tool: mkseed.py ID PROPERTY NEEDS BREAKS  with the change made in /repo's working tree and demo.py on stdin.
Writes seeded/ID, undoes the change in /repo."""
import sys, os, subprocess, json, shutil
V = "/verif"
i, prop, needs, breaks = sys.argv[1:5]
d = os.path.join(V, "seeded", i); os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", os.environ.get("SR", "/repo"), "diff"], capture_output=True, text=True).stdout
assert diff.strip(), "no change in /repo"
open(d + "/patch.diff", "w").write(diff)
demo = sys.stdin.read()
if demo.strip():
    open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom demo_lib import *\n" + demo)
    shutil.copy(V + "/tools/demo_lib.py", d)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n')
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
subprocess.run(["git", "-C", os.environ.get("SR", "/repo"), "checkout", "--", "."])
