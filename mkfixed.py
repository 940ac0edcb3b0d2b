#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from the fix commits of /repo and the table below (a development aid; no check runs it)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
T = json.load(open(os.path.join(HERE, "fixes.json")))  # subject -> property
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
fixed = []
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        s = s[5:]
        if s not in T:
            print("no property for:", s)
        fixed.append("fixed: property=%s %s %s" % (T.get(s, "?"), h, s))
p = os.path.join(HERE, "known_findings.json")
d = json.load(open(p))
d["fixed"] = fixed
json.dump(d, open(p, "w"), indent=1)
print(len(fixed))
