#!/usr/bin/env python3
"""Appends a `fixed:` line for every fix: commit of /repo not yet listed.  usage: tools/fixed.py PROP=word,word ... (commit subject substring -> property), default C01"""
import subprocess, sys, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
kf = os.path.join(H, "known_findings.txt"); txt = open(kf).read()
rules = [a.split("=", 1) for a in sys.argv[1:]]
out = ""
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "adbc3c2..HEAD"], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix:") or h in txt: continue
    p = "C01"
    for pr, w in rules:
        if any(x in s for x in w.split(",")): p = pr; break
    out += "fixed: property=%s %s %s\n" % (p, h, s[5:])
open(kf, "w").write(txt + out); print(out)
