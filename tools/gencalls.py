#!/usr/bin/env python3
"""Writes harness/c06_calls.hpp: one call of every method of every public wrapper class, generated from the headers (run by hand, output committed)."""
import re, os, glob
R = "/repo/src/include/api"; H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
classes = {}
for f in sorted(glob.glob(R + "/dll_*.h")):
    t = open(f).read(); t = re.sub(r"/\*.*?\*/", "", t, flags=re.S); t = re.sub(r"//.*", "", t)
    for m in re.finditer(r"class\s+MCAD_API\s+(DLL_\w+)\s*(?::\s*public\s+(\w+))?\s*\{(.*?)\n\};", t, re.S):
        name, base, body = m.groups(); body = body[body.find("public:") + 7:]
        ms = []
        for d in body.split(";"):
            d = " ".join(d.split()); q = re.match(r"(?:virtual )?([\w ]+?[\s*]+)(\w+) ?\((.*)\)( const)?( = 0)?$", d)
            if not q or name in d.split("(")[0]: continue
            ms.append((q.group(1).strip(), q.group(2), [a.strip() for a in q.group(3).split(",") if a.strip() and a.strip() != "void"]))
        classes[name] = (base, ms)
SKIP = {"IsValid", "NewEntity", "NewOutline", "NewSegment", "Attach", "Detach", "GetRawPtr", "SetAPIParentIGES", "DelEntity", "DelOutline", "DelSegment"}
def arg(a, i):
    a = re.sub(r"\s*=.*", "", a); a = re.sub(r"\s*([*&])\s*", r"\1 ", a).replace("* *", "**").replace("* &", "*&").replace("** &", "**&")
    toks = a.rsplit(" ", 1)
    if len(toks) == 2 and re.match(r"^[a-zA-Z_]\w*$", toks[1]) and toks[1] not in ("int", "double", "bool"): ty = toks[0].strip()
    else: ty = a.strip()
    v = "a%d" % i
    if ty.endswith("&"):
        b = ty[:-1].strip()
        if b.startswith("const ") and not b.endswith("*"): b = b[6:]
        if b.startswith("DLL_MCAD_SEGMENT"): return "", "w.seg", ty
        if b.startswith("DLL_MCAD_OUTLINE"): return "", "w.out", ty
        if b == "DLL_IGES": return "", "w.model", ty
        if b == "DLL_IGES_CURVE": return "", "w.line", ty
        if b == "DLL_IGES_ENTITY": return "", "w.line", ty
        if b == "DLL_IGES_ENTITY*": return "DLL_IGES_ENTITY* %s = new DLL_IGES_ENTITY_110(w.model, true); std::unique_ptr<DLL_IGES_ENTITY*, DropHandle> d%d(&%s); " % (v, i, v), v, ty     # an existing handle is replaced
        if b == "DLL_IGES_ENTITY_314": return "", "w.colour", ty
        if b == "DLL_IGES_ENTITY_142": return "", "w.c142", ty
        if re.match(r"const char ?\*$|char const ?\*$", b): return "const char* %s = \"text\"; " % v, v, ty
        return "%s %s = %s(); " % (b, v, b if re.match(r"^\w+$", b) else "") if re.match(r"^\w+$", b) else "%s %s = 0; " % (b, v), v, ty
    if ty.endswith("**"): b = ty[:-1].strip(); return "%s %s = 0; " % (b, v), "&" + v, ty
    if re.match(r"const char ?\*$|char const ?\*$", ty): return "", "\"text\"", ty
    if ty.startswith("const double"): return "double %s[64] = {0}; " % v, v, ty
    if ty == "IGES_ENTITY*": return "", "w.line.GetRawPtr()", ty
    if ty == "IGES_CURVE*": return "", "(IGES_CURVE*)w.line.GetRawPtr()", ty
    if ty == "IGES_ENTITY_142*": return "", "(IGES_ENTITY_142*)w.c142.GetRawPtr()", ty
    if ty == "IGES_ENTITY_308*": return "", "(IGES_ENTITY_308*)w.sub.GetRawPtr()", ty
    if ty in ("MCAD_SEGMENT*", "MCAD_SEGMENT const*"): return "", "w.seg.GetRawPtr()", ty
    if ty == "MCAD_OUTLINE*": return "", "w.out.GetRawPtr()", ty
    if ty == "IGES*": return "", "w.model.GetRawPtr()", ty
    if ty == "DLL_IGES*": return "", "&w.model", ty
    if ty == "DLL_IGES_ENTITY*": return "", "&w.line", ty
    if ty.endswith("*"): return "%s %s = 0; " % (ty, v), v, ty
    return "%s %s = %s; " % (ty, v, "MCAD_POINT()" if ty == "MCAD_POINT" else "(%s)1" % ty), v, ty
out = "// generated by tools/gencalls.py: every method of every wrapper class, called with harmless arguments\n#pragma once\nstruct Call { const char* name; bool failed; };\nstruct DropHandle { void operator()(DLL_IGES_ENTITY** p) const { delete *p; } };\n"
total = 0
def emit(cls):
    global out, total
    base, ms = classes[cls]; body = []
    for rt, n, ps in ms:
        if n in SKIP: continue
        decl, args, tys = "", [], []
        for i, p in enumerate(ps):
            d, a, t = arg(p, i); decl += d; args.append(a); tys.append(t)
        if n in ("Read", "Write"): args[0] = "w.file.c_str()"
        call = "h.%s(%s)" % (n, ", ".join(args)); label = "%s::%s(%s)" % (cls[4:], n, ", ".join(tys))
        if rt == "void": e = "(%s, true)" % call
        elif rt == "bool": e = "!%s" % call
        elif rt == "IGES_ENTITY_TYPE": continue
        else: e = "!(%s > 0)" % call if rt == "int" or rt == "size_t" else "%s == 0" % call
        if n in ("IsPlanar", "IsRational") or False: pass
        body.append("    case %d: { c.name = \"%s\"; %sc.failed = %s; break; }" % (len(body), label, decl, e)); total += 1
    nb = "ncalls((%s*)0)" % base if base in classes else "0"
    out += "inline int ncalls(%s*) { return %d + %s; }\ntemplate <class W> Call call(%s& h, int k, W& w) { Call c{\"\", true}; switch (k) {\n%s\n    default: %s } return c; }\n" % (cls, len(body), nb, cls, "\n".join(body), "return call((%s&)h, k - %d, w);" % (base, len(body)) if base in classes else "break;")
done = []
def rec(c):
    if c in done: return
    b = classes[c][0]
    if b in classes: rec(b)
    done.append(c); emit(c)
for c in classes: rec(c)
open(H + "/harness/c06_calls.hpp", "w").write(out); print(total, "calls", len(classes), "classes")
