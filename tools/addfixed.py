#!/usr/bin/env python3
"""addfixed.py FROM..TO PID[:hash,hash..]...  lists fix commits in known_findings.json; the first PID is the default"""
import json, subprocess, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(V, "known_findings.json")
k = json.load(open(f))
have = " ".join(k["fixed"])
m = {}
for a in sys.argv[3:]:
    p, hs = a.split(":")
    for h in hs.split(","): m[h] = p
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", sys.argv[1]], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if h in have or not s.startswith("fix: "): continue
    k["fixed"].append("fixed: property=%s %s %s" % (m.get(h, sys.argv[2]), h, s[5:]))
json.dump(k, open(f, "w"), indent=1)
