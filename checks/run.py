#!/usr/bin/env python3
"""Build a harness against /repo's working tree, run its exhaustive exploration, replay what fails,
write evidence.  usage: checks/run.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--keep]"""
import sys, os, json, subprocess, shutil, time, tempfile, re, fcntl
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
sys.path.insert(0, os.path.join(HERE, "checks"))
from registry import CHECKS

ASAN = "-fsanitize=address,undefined -fno-sanitize=vptr,enum,bool -fno-sanitize-recover=all -O1 -g1 -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS -D_GLIBCXX_SANITIZE_VECTOR -w"
VARIANTS = {"asan": ASAN, "opt": "-O2 -g1 -w"}
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def build_lib(variant, targets):
    b = os.path.join(BUILD, variant)
    os.makedirs(b, exist_ok=True)
    lock = open(os.path.join(b, ".lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    cfg = ["cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DUSE_SISL=ON",
           "-DSTATIC_IGES=ON", "-DCMAKE_CXX_FLAGS=" + VARIANTS[variant], "-DCMAKE_VERBOSE_MAKEFILE=OFF"]
    stamp, want = os.path.join(b, ".cfg"), " ".join(cfg)
    have = open(stamp).read() if os.path.exists(stamp) else ""
    if have != want or not os.path.exists(os.path.join(b, "build.ninja")):
        r = sh(cfg)
        if not r.returncode: open(stamp, "w").write(want)
        if r.returncode: print(r.stdout[-3000:]); sys.exit(2)
    r = sh(["ninja", "-C", b] + targets)
    if r.returncode:
        print(r.stdout[-6000:]); print("BUILD FAILED"); sys.exit(2)
    return b, lock

def build(check):
    variant = check.get("variant", "asan")
    b, lock = build_lib(variant, check.get("targets", ["iges_static", "idf3"]))
    src = os.path.join(HERE, "harness", check["harness"])
    exe = os.path.join(b, "h_" + os.path.splitext(check["harness"])[0])
    flags = VARIANTS[variant].split() + ["-std=c++17", "-I" + b + "/src", "-I" + REPO + "/src/include",
             "-I" + REPO + "/src/include/core", "-I" + REPO + "/src/idf", "-I" + HERE + "/harness"]
    libs = [b + "/src/idf/libidf3.a", b + "/src/libiges_static.a", "-lsisl", "-lm", "-ldl"]
    deps = [src] + [os.path.join(HERE, "harness", f) for f in os.listdir(os.path.join(HERE, "harness")) if f.endswith(".hpp")]
    for root in (REPO + "/src/include", REPO + "/src/idf"):
        for d, _, fs in os.walk(root):
            deps += [os.path.join(d, f) for f in fs if f.endswith(".h")]
    deps += [l for l in libs if l.startswith("/")] + [os.path.abspath(__file__)]
    if not os.path.exists(exe) or any(os.path.getmtime(d) > os.path.getmtime(exe) for d in deps if os.path.exists(d)):
        extra = check.get("extra", [])
        r = sh(["g++"] + flags + ["-o", exe, src] + [x.replace("@H@", HERE + "/harness") for x in extra] + libs)
        if r.returncode:
            print(r.stdout[-6000:]); print("HARNESS BUILD FAILED"); sys.exit(2)
    lock.close()
    return exe

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=2000:detect_odr_violation=0:handle_abort=0:symbolize=1",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:abort_on_error=1", LC_ALL="C")

def known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", l)
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out

def replay_one(exe, path, scratch, limit, args=()):
    vec = ",".join(map(str, path)) or "-"
    try:
        r = subprocess.run([exe, "--scratch", scratch, "--limit", str(limit)] + list(args) + ["--replay", vec],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=ENV, timeout=limit + 30)
        rc, out, err = r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        return "hang", "", ""
    if rc == 0: return "ok", out, err
    if rc == 3: return "property", out, err
    if rc == -14: return "hang", out, err
    return "crash", out, err

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    a = sys.argv[2:]
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    check = CHECKS[pid]
    t0 = time.time()
    parts = check.get("parts") or [check]
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    try:
        if "--replay" in a:
            rp = json.load(open(a[a.index("--replay") + 1]))
            part = [p for p in parts if p["harness"] == rp["harness"]][0]
            exe = build(part)
            k, out, err = replay_one(exe, rp["path"], scratch, rp.get("limit", 120), rp.get("args", []))
            print(k); print(out); print(err[-4000:])
            return 0 if k == "ok" else 1
        viols, cov, inconclusive = [], [], []
        for part in parts:
            exe = build(part)
            out = os.path.join(scratch, "out-" + part["harness"]); os.makedirs(out)
            cmd = [exe, "--out", out, "--scratch", os.path.join(scratch, "s"), "--jobs", str(JOBS)]
            args = list(part.get("args", []))
            if tier == "thorough": args.append("--thorough")
            budget = os.environ.get("VERIF_BUDGET") or (part.get("budget", 420) if tier == "quick" else None)
            if budget: args += ["--budget", str(budget)]
            r = subprocess.run(cmd + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=ENV)
            if r.returncode:
                print(r.stdout[-2000:], r.stderr[-2000:]); print("ENGINE ERROR", r.returncode); return 2
            if r.stdout.strip(): print(r.stdout.strip())
            s = json.load(open(os.path.join(out, "summary.json"))); s["part"] = part["harness"]
            cov.append(s)
            raw = []
            for f in sorted(os.listdir(out)):
                if f.startswith("viol."):
                    raw += [json.loads(l) for l in open(os.path.join(out, f), errors="replace")]
            bykey = {}
            for v in raw: bykey.setdefault((v["kind"], v["key"]), []).append(v)
            # replay alone before believing anything
            for (kind, key), vs in bykey.items():
                if viols and time.time() - t0 > 500: inconclusive.append("not replayed: " + key); continue
                confirmed = None
                if kind == "hang" and sum(v["kind"] == "hang" for v in viols) >= 3: inconclusive.append("not replayed: " + key); continue
                for v in sorted(vs, key=lambda v: (len(v["path"]), v["path"]))[:1 if kind == "hang" else 3]:
                    k, o, e = replay_one(exe, v["path"], scratch, min(60, 4 * part.get("limit", 20)), [x for x in args if x == "--thorough"])
                    if k != "ok":
                        if k == "property":
                            m = re.search(r"^KEY (.*)$", o, re.M)
                            if m: v["key"] = m.group(1)
                        v["kind"] = k
                        if k == "crash": v["msg"] = e[:3000]
                        confirmed = v; break
                if confirmed: confirmed["harness"] = part["harness"]; confirmed["args"] = [x for x in args if x == "--thorough"]; viols.append(confirmed)
                else: inconclusive.append(key)
        kn = known(pid)
        rdir = os.path.join(HERE, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(pid + "-"): os.unlink(os.path.join(rdir, f))
        new, hit = [], {}
        for v in viols:
            m = [k for k in kn if k[0] == v["key"]]
            if m: hit[m[0]] = v
            else: new.append(v)
        for (k, text), v in sorted(hit.items()):
            print("KNOWN-FINDING: property=%s %s [%s]" % (pid, text, k))
        for i, v in enumerate(new):
            rp = os.path.join(rdir, "%s-%d.json" % (pid, i))
            json.dump(dict(property=pid, harness=v["harness"], path=v["path"], key=v["key"], kind=v["kind"], msg=v["msg"],
                           history=v["note"], args=v["args"], rerun="python3 checks/run.py %s --replay <this file>" % pid), open(rp, "w"), indent=1)
            if i < 25:
                print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(rp, HERE)))
                print("   key: %s\n   what: %s\n   history: %s" % (v["key"], v["msg"].strip()[:1200], v["note"][:600]))
        tot = lambda k: sum(c[k] for c in cov)
        outcomes = {}
        for c in cov:
            for k, n in c["outcomes"].items(): outcomes[k] = outcomes.get(k, 0) + n
        samples = [s for c in cov for s in c["samples"]][:16]
        coverage = dict(evaluations=tot("evaluations") + tot("lost_to_crashes"), distinct_nontrivial=tot("distinct_nontrivial"),
                        rule=check["rule"], samples=samples or ["(none)"], exhaustive=all(c["complete"] for c in cov),
                        outcomes=outcomes, parts=[dict(harness=c["part"], evaluations=c["evaluations"], wall=c["wall"]) for c in cov],
                        known_findings_seen=[k[0] for k in hit], unconfirmed=inconclusive)
        if check["level"] == "model_checking":
            coverage.update(states=tot("states"), transitions=tot("transitions"), traces_validated_against_impl=tot("validated"))
        ev = dict(property=pid, tier="thorough" if tier == "thorough" else "quick", seed=seed, level=check["level"], coverage=coverage,
                  assumptions=check.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
        print("%s %s: %d executions, %d distinct non-trivial, %d states, %d violation(s), %d known, %.1fs" % (pid, tier, coverage["evaluations"], coverage["distinct_nontrivial"], tot("states"), len(new), len(hit), time.time() - t0))
        for c in cov:
            if not c["complete"]: print("NOTE %s: exploration not completed" % c["part"])
        top = sorted(outcomes.items(), key=lambda x: -x[1])[:40]
        print("   outcomes: " + ", ".join("%s=%d" % t for t in top))
        return 1 if new else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
