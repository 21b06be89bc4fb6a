#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(root + "/DESIGN.md").read().split("<!-- seeds -->")[0] + "<!-- seeds -->\n| bug | needs | caught by |\n|---|---|---|\n"
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    text += "| %s | %s | %s |\n" % (f.split("/")[-2], m["needs"].replace("|", "/"), m.get("caught_by", m["property"]))
open(root + "/DESIGN.md", "w").write(text)
