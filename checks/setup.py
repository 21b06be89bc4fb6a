#!/usr/bin/env python3
"""Builds the library variants and every harness once (each check rebuilds what it needs anyway)."""
import os, sys
sys.argv = [sys.argv[0]]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run
from concurrent.futures import ThreadPoolExecutor
parts = {}
for c in run.CHECKS.values():
    for p in c.get("parts") or [c]: parts[p["harness"]] = p
for v in sorted({p.get("variant", "asan") for p in parts.values()}):
    b, l = run.build_lib(v, ["iges_static", "idf3"]); l.close()
with ThreadPoolExecutor(4) as ex: list(ex.map(run.build, parts.values()))
print("built", len(parts), "harnesses")
