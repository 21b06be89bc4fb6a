#!/usr/bin/env python3
"""Planted bugs.  seed.py confirm ID...: with the patch the repository builds, its stable tests pass and demo.sh fails; without, demo.sh passes.
seed.py catch ID...: applies the patch to /repo, runs the property's quick check, undoes the patch."""
import subprocess, sys, os, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
def clean(): sh("git -C %s checkout -- ." % R)
def stable():
    sh("bash /opt/vp/test.sh /tmp/seed.json"); b = json.load(open("/opt/vp/BASELINE.json"))["stable"]; p = set(json.load(open("/tmp/seed.json"))["passed"]); return [x for x in b if x not in p]
def demo(i): return sh("timeout 300 bash %s/seeded/%s/demo.sh" % (H, i), cwd=R)
assert not sh("git -C %s status --porcelain" % R).stdout.strip(), "/repo is not clean"
mode = sys.argv[1]
if mode == "confirm":
    if sh("bash /opt/vp/build.sh").returncode: sys.exit("build of the unchanged tree fails")
    for i in sys.argv[2:]:
        d = demo(i); r0 = d.returncode; p = "%s/seeded/%s/patch.diff" % (H, i)
        if sh("git -C %s apply %s" % (R, p)).returncode: print(i, "patch does not apply"); continue
        try:
            miss = stable(); d2 = demo(i)
            print(i, "OK" if r0 == 0 and d2.returncode and not miss else "BAD", "plain=%d patched=%d missing=%s" % (r0, d2.returncode, miss))
            if r0: print(d.stdout[-1500:], d.stderr[-1500:])
            else: print("   ", (d2.stdout + d2.stderr).strip().splitlines()[-1:] )
        finally: clean()
    sh("bash /opt/vp/build.sh")
else:
    for i in sys.argv[2:]:
        prop = json.load(open("%s/seeded/%s/meta.json" % (H, i)))["property"]
        sh("git -C %s apply %s/seeded/%s/patch.diff" % (R, H, i))
        try:
            r = sh("python3 checks/run.py %s --tier quick" % prop, cwd=H); hit = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(i, prop, "caught" if r.returncode == 1 and hit else "MISSED rc=%d" % r.returncode, hit[:1], [l.strip()[:140] for l in r.stdout.splitlines() if "key:" in l or " what:" in l][:2])
        finally: clean()
