#!/usr/bin/env python3
"""fixrec.py PROP COMMIT "what failed": record a repaired defect (COMMIT 'HEAD' = last commit of /repo)."""
import json, subprocess, sys
p, c, w = sys.argv[1:4]
if c == "HEAD":
    c = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h", "-1"], text=True).strip()
f = "/verif/known_findings.json"
s = open(f).read()
e = json.dumps(dict(property=p, status="fixed", commit=c, what="fixed: property=%s %s %s" % (p, c, w)))
s = s.replace("\n]}", ",\n " + e + "\n]}")
json.loads(s)
open(f, "w").write(s)
