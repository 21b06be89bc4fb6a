// C22: the parts of a path, against a reference on plain strings; file status; the file name recorded in written models.
#include "apibuild.hpp"
#include <geom/mcad_utils.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
using namespace igs;
struct Ref {            // what the header documents
    string full;
    string name() const { size_t p = full.rfind('/'); return p == string::npos ? full : full.substr(p + 1); }
    bool hasExt() const { string n = name(); size_t d = n.rfind('.'); return d != string::npos && d > 0; }
    string ext() const { string n = name(); return n.substr(n.rfind('.') + 1); }
    string base() const { string n = name(); return hasExt() ? n.substr(0, n.rfind('.')) : n; }
    static string native(string s) { for (char& ch : s) if (ch == '\\') ch = '/'; return s; }
    void set(const char* p) { full = p ? native(p) : ""; }
    bool setExt(const char* e) { if (full.empty() || (e && string(e) == ".")) return false; if (hasExt()) full.erase(full.size() - ext().size() - 1); if (e && *e) full += (*e == '.' ? "" : ".") + string(e); return true; }
    void append(const char* p) { string s = p ? native(p) : ""; if (s.empty() || s == "/") return; full += (full.empty() ? "" : "/") + s; }
};
static string q(const char* p) { return p ? "'" + string(p) + "'" : "none"; }
static string get(MCAD_FILEPATH& f, int k) { switch (k) { case 0: return "full " + q(f.GetFullPath()); case 1: return "file name " + q(f.GetFileName()); case 2: return "base name " + q(f.GetBaseName()); default: return "extension " + q(f.GetExtension()); } }
static string want(const Ref& r, int k) {
    bool e = r.full.empty(); switch (k) { case 0: return "full " + (e ? string("none") : q(r.full.c_str())); case 1: return "file name " + (e ? string("none") : q(r.name().c_str())); case 2: return "base name " + (e ? string("none") : q(r.base().c_str())); default: return "extension " + (e || !r.hasExt() ? string("none") : q(r.ext().c_str())); }
}
static const char* GETS[] = {"GetFullPath", "GetFileName", "GetBaseName", "GetExtension"};
static void paths(mc::Ctx& c) {
    static const char A[] = "a./\\"; int L = c.thorough ? 6 : 5; int n = c.choose(L + 1, "length"); string p; for (int i = 0; i < n; i++) p += A[c.choose(4, "char")];
    static const char* EXT[] = {NULL, "", ".", "b", ".b", "b.c", "..", "b."}; static const char* APP[] = {NULL, "", "/", "\\", "a", "a.b", "/a", "..", "a\\b", "a/"}; static const char* SET[] = {NULL, "c.d", "e"};
    int depth = c.thorough ? 3 : 2; vector<int> ops; for (int k = 0; k < depth; k++) ops.push_back(c.choose(8 + 10 + 3 + 4, "op")); c.begin();
    MCAD_FILEPATH f(p.c_str()); Ref r; r.set(p.c_str()); string h = "path '" + p + "'";
    for (int o : ops) {
        if (o < 8) { const char* e = EXT[o]; h += ", SetExtension(" + q(e) + ")"; bool b = f.SetExtension(e), w = r.setExt(e); c.check(b == w, "SetExtension return value", h); }
        else if (o < 18) { const char* a = APP[o - 8]; h += ", Append(" + q(a) + ")"; bool b = f.Append(a); r.append(a); c.check(b, "Append return value", h); }
        else if (o < 21) { const char* s = SET[o - 18]; h += ", SetPath(" + q(s) + ")"; bool b = f.SetPath(s); r.set(s); c.check(b, "SetPath return value", h); }
        else { int k = o - 21; h += string(", ") + GETS[k]; string g = get(f, k), w = want(r, k); if (g != w) c.fail(string(GETS[k]) + " wrong", h + ": " + g + " instead of " + w); }
        c.transition(); c.state(mc::hstr(r.full));
    }
    for (int i = 0; i < 8; i++) { int k = i < 4 ? (i + (int)p.size()) % 4 : 7 - i; string g = get(f, k), w = want(r, k); if (g != w) { c.fail(string(GETS[k]) + " wrong", h + ": " + g + " instead of " + w); break; } }
    c.outcome("path"); c.nontrivial(mc::hstr(h));
}
static const char* TREE[] = {"file", "dir", "dir/file.x", "link", "dirlink", "dangling", "fifo", "socket", "absent", "absent/file", "file/x", ""};
static void plant() {
    spill("file", "x"); mkdir("dir", 0700); spill("dir/file.x", "y"); if (symlink("file", "link") || symlink("dir", "dirlink") || symlink("nowhere", "dangling") || mkfifo("fifo", 0600)) {}
    int s = socket(AF_UNIX, SOCK_STREAM, 0); struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; strcpy(a.sun_path, "socket"); if (s >= 0) { if (bind(s, (struct sockaddr*)&a, sizeof a)) {} close(s); }
}
static void status(mc::Ctx& c) {
    int k = c.choose(12, "entry"), sl = c.choose(3, "spelling"), ops = c.choose(2, "reused"); c.begin(); string d = c.scratch + "/tree"; mkdir(d.c_str(), 0700); if (chdir(d.c_str())) return; struct stat st; if (lstat("file", &st)) plant();
    string p = TREE[k]; if (sl == 1 && !p.empty()) p = "./" + p; if (sl == 2 && !p.empty()) p = d + "/" + p; MCAD_FILEPATH f("nowhere.x"); if (ops) { f.Exists(); f.SetPath(""); f.Append(p.c_str()); } else f.SetPath(p.c_str());
    bool ok = !p.empty() && stat(p.c_str(), &st) == 0, dir = ok && S_ISDIR(st.st_mode), reg = ok && S_ISREG(st.st_mode); string h = "'" + p + "'";
    c.check(f.DirExists() == dir, "DirExists", h); c.check(f.FileExists() == reg, "FileExists", h); c.check(f.Exists() == (dir || reg), "Exists", h); c.outcome("status"); c.nontrivial(mc::hstr(h)); if (chdir("/")) {}
}
static void files(mc::Ctx& c) {
    static const char* DIRS[] = {"", "./", "d/", "d.e/", "d.e/f.g/", "d//", ".h/", "@"}; int k = c.choose(8, "dir"); static const char A[] = "a.B "; int n = 1 + c.choose(c.thorough ? 5 : 4, "length"); string b; for (int i = 0; i < n; i++) b += A[c.choose(4, "char")]; int over = c.choose(2, "exists"); c.begin(); if (b == "." || b == "..") return;
    string d = c.scratch + "/w"; mkdir(d.c_str(), 0700); if (chdir(d.c_str())) return; for (const char* x : {"d", "d.e", "d.e/f.g", ".h"}) mkdir(x, 0700);
    string p = k == 7 ? d + "/d.e/" + b : DIRS[k] + b; if (over) spill(p, "old"); else ::unlink(p.c_str()); string h = "'" + p + "'";
    { IGES g; IGES_ENTITY* e; g.NewEntity(110, &e); static_cast<IGES_ENTITY_110*>(e)->X2 = 5; if (!g.Write(p.c_str(), true)) { c.fail("write refused", h); if (chdir("/")) {} return; } c.check(g.globalData.fileName == b, "file name after writing", h + ": '" + g.globalData.fileName + "'"); }
    try { File f = parse(slurp(p)); IGES g; if (!g.Read(p.c_str())) c.fail("read refused", h); else c.check(g.globalData.fileName == b && g.entities.size() == 1, "file name after reading", h + ": '" + g.globalData.fileName + "'"); } catch (Bad& x) { c.fail("written file: " + x.key, h + " " + x.msg); }
    ::unlink(p.c_str()); if (chdir("/")) {} c.outcome("written"); c.nontrivial(mc::hstr(h));
}
static void explore(mc::Ctx& c) { int k = c.choose(3, "part"); if (k == 0) paths(c); else if (k == 1) status(c); else files(c); }
MC_MAIN(explore, 3, 20)
