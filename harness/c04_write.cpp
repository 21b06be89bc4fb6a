// C04: every operating-system error at every point of a write; success means the complete file, failure leaves the model
// (and, without leave to overwrite, the target) as they were.  The C library entry points which the stream layer uses are
// replaced by versions which perform the real call or fail it as the schedule says.
#include "apibuild.hpp"
#include "api/dll_iges.h"
#include <dlfcn.h>
#include <sys/uio.h>
#include <sys/syscall.h>
using namespace igs;
extern "C" time_t time(time_t* t) { if (t) *t = 1700000000; return 1700000000; }

// ---- fault injection -------------------------------------------------------------------------------------------
struct Fault { int at, kind; };
static bool armed = false; static int opno = 0, sticky = 0, fired = 0; static vector<Fault> plan; static string ops; static std::set<int> fds;
// kinds for open: 0 EACCES 1 EMFILE 2 ENOSPC ; for write: 0 ENOSPC from here on, 1 EIO once, 2 EINTR, 3 one byte, 4 half, 5 all but one,
// 6 half then ENOSPC from here on ; for close: 0 EIO, 1 ENOSPC
static const int KW = 7, KO = 3, KC = 2;
static int fault(char op) { int i = opno++; ops += op; for (auto& f : plan) if (f.at == i) { fired++; return f.kind; } return -1; }
static FILE* openHook(const char* fn, const char* p, const char* m) {
    typedef FILE* (*F)(const char*, const char*); static F real64 = (F)dlsym(RTLD_NEXT, "fopen64"), real = (F)dlsym(RTLD_NEXT, "fopen");
    F r = string(fn) == "fopen64" ? real64 : real;
    if (!armed) return r(p, m);
    int k = fault('o'); if (k >= 0) { errno = k == 0 ? EACCES : k == 1 ? EMFILE : ENOSPC; return 0; }
    FILE* f = r(p, m); if (f) fds.insert(fileno(f)); return f;
}
extern "C" FILE* fopen(const char* p, const char* m) { return openHook("fopen", p, m); }
extern "C" FILE* fopen64(const char* p, const char* m) { return openHook("fopen64", p, m); }
static ssize_t wr(int fd, const struct iovec* v, int n) {
    if (!armed || !fds.count(fd)) return syscall(SYS_writev, fd, v, n);
    size_t total = 0; for (int i = 0; i < n; i++) total += v[i].iov_len;
    int k = fault('w');
    if (sticky) { errno = sticky; return -1; }
    size_t want = total;
    switch (k) {
    case 0: sticky = ENOSPC; errno = ENOSPC; return -1;
    case 1: errno = EIO; return -1;
    case 2: errno = EINTR; return -1;
    case 3: want = 1; break;
    case 4: want = total / 2; break;
    case 5: want = total - 1; break;
    case 6: want = total / 2; sticky = ENOSPC; break;
    }
    if (!want || want > total) want = total;
    vector<iovec> q; for (int i = 0; i < n && want; i++) { iovec x = v[i]; if (x.iov_len > want) x.iov_len = want; want -= x.iov_len; q.push_back(x); }
    return syscall(SYS_writev, fd, q.data(), (int)q.size());
}
extern "C" ssize_t write(int fd, const void* b, size_t n) { iovec v{(void*)b, n}; if (!armed) return syscall(SYS_write, fd, b, n); return wr(fd, &v, 1); }
extern "C" ssize_t writev(int fd, const struct iovec* v, int n) { return wr(fd, v, n); }
extern "C" int fclose(FILE* f) {
    typedef int (*F)(FILE*); static F real = (F)dlsym(RTLD_NEXT, "fclose");
    if (!armed) return real(f);
    int fd = fileno(f); bool ours = fds.count(fd) > 0; if (ours) fds.erase(fd);
    int k = ours ? fault('c') : -1; int r = real(f); if (k >= 0) { errno = k ? ENOSPC : EIO; return EOF; } return r;
}

// ---- models, targets --------------------------------------------------------------------------------------------
static const int NM = 7;
static string source(int k) {     // the file a model is read from
    Chooser z = [](int, const char*) { return 0; }; B b(z);
    switch (k) {
    case 0: family(b, 4); break;
    case 1: family(b, 11); b.m.start = {"one", "two", string(150, 's')}; b.m.g.author = "author"; break;
    case 2: { int e = family(b, 4); for (int i = 0; i < 500; i++) b.at(e).comm.push_back(fmt("comment line %d of a long list of comments", i)); break; }          // parameter data beyond a stream buffer
    case 3: for (int i = 0; i < 150; i++) { b.at(family(b, 4)).label = fmt("L%d", i); } break;                                                                  // a long directory
    case 4: family(b, 15); family(b, 2); b.m.start.clear(); for (int i = 0; i < 200; i++) b.m.start.push_back(fmt("start section line %d", i)); break;          // a long start section
    case 5: family(b, 4); b.m.g.author = string(9000, 'a'); break;                                                                                               // a long global section
    case 6: for (int i = 0; i < 12; i++) family(b, i); break;
    }
    return synth(b.m);
}
struct Target { const char* name; bool exists, writable; };
static const Target T[] = {{"missing", false, true}, {"short file", true, true}, {"long file", true, true}, {"empty file", true, true}, {"link to a file", true, true}, {"dangling link", false, true},
                           {"directory", true, false}, {"missing directory", false, false}, {"full device", true, false}, {"hard link", true, true}};
static const int NT = sizeof T / sizeof *T;
static string DIR_;
static string path(int t) { return t == 7 ? DIR_ + "/t/no/o.igs" : DIR_ + "/t/o.igs"; }
static const string OLD = "previous content\n";
static string oldContent(int t) { return t == 2 ? string(400000, 'o') : t == 3 ? string() : OLD; }
static void setup(int t) {
    ::mkdir((DIR_ + "/t").c_str(), 0755); string p = DIR_ + "/t/o.igs", q = DIR_ + "/t/other";
    ::rmdir(p.c_str()); ::unlink(p.c_str()); ::unlink(q.c_str());
    switch (t) {
    case 1: case 2: case 3: spill(p, oldContent(t)); break;
    case 4: spill(q, OLD); if (symlink(q.c_str(), p.c_str())) abort(); break;
    case 5: if (symlink(q.c_str(), p.c_str())) abort(); break;
    case 6: ::mkdir(p.c_str(), 0755); break;
    case 8: if (symlink("/dev/full", p.c_str())) abort(); break;
    case 9: spill(q, OLD); if (link(q.c_str(), p.c_str())) abort(); break;
    }
}
static bool there(int t) { struct stat s; return stat(path(t).c_str(), &s) == 0; }
struct Try { bool ok; int fired; string ops; };
struct Obj { DLL_IGES w; IGES& g; Obj() : g(*w.GetRawPtr()) {} };
static Try attempt(Obj& o, int t, bool over, const vector<Fault>& f, bool dll) {
    plan = f; opno = 0; sticky = 0; fired = 0; ops.clear(); fds.clear(); string p = path(t);
    bool r;
    armed = true; r = dll ? o.w.Write(p.c_str(), over) : o.g.Write(p.c_str(), over); armed = false;
    return {r, fired, ops};
}
static string fine(IGES& g) {   // what the model shows, except the file name
    IGES_GLOBAL& G = g.globalData; string s = fmt("%c%c|%d %d %d %d %d|%.17g|%d|%d|%.17g|%.17g|%.17g|%d|%d|%.17g|%d|", G.pdelim, G.rdelim, G.nIntegerBits, G.floatMaxExp, G.floatMaxSig, G.doubleMaxExp, G.doubleMaxSig, G.modelScale, G.unitsFlag, G.maxLinewidthGrad, G.maxLinewidth, G.minResolution, G.maxCoordinateValue, G.igesVersion, G.draftStandard, G.cf, G.convert);
    for (const string* p : {&G.productIDSS, &G.nativeSystemID, &G.preprocessorVersion, &G.productIDRS, &G.unitsName, &G.author, &G.organization, &G.applicationNote}) s += *p + "|";
    size_t n = 0; const char** h = 0; bool ok = g.GetHeaders(n, h); for (size_t i = 0; ok && i < n; i++) s += string(h[i]) + "/";
    return s;
}
static vector<string>& refs() { static vector<string> R; return R; }
static vector<string>& srcs() { static vector<string> R; return R; }
static void load(IGES& g, int m) { string in = DIR_ + "/in.igs"; spill(in, srcs()[m]); if (!g.Read(in.c_str())) throw mc::Fail{"setup", "the source model is not readable"}; }
static string show(const vector<Fault>& f) { string s; for (auto& x : f) s += fmt(" op %d fault %d", x.at, x.kind); return s.empty() ? " no fault" : s; }

static void judge(mc::Ctx& c, Obj& o, int m, int t, bool over, const Try& r, const vector<Fault>& f, bool existed, const string& before, const string& model) {
    string what = fmt("model %d, target %s, overwriting %s, calls %s,", m, T[t].name, over ? "allowed" : "not allowed", r.ops.c_str()) + show(f);
    string key = fmt("%s:%s:%s", T[t].name, over ? "overwrite" : "keep", r.fired ? (f[0].at < (int)r.ops.size() ? string(1, r.ops[f[0].at]).c_str() : "-") : "clean");
    if (!r.fired) { bool want = T[t].writable && (over || !existed); c.check(r.ok == want, "result:" + key, what + (r.ok ? ": reports success" : ": reports failure")); }
    if (r.ok) {
        c.check(!existed || over, "overwritten:" + key, what + ": success though the target existed");
        string got = slurp(path(t));
        c.check(got == refs()[m], "incomplete:" + key, what + fmt(": reports success but the file has %zu bytes, the complete one %zu", got.size(), refs()[m].size()));
    } else if (existed && !over && t != 6 && t != 8) c.check(slurp(path(t)) == before, "touched:" + key, what + ": refused, but the existing file has changed");
    if (!over && existed) { c.check(there(t), "removed:" + key, what + ": the existing target is gone"); c.check(!r.ok, "kept:" + key, what + ": success"); }
    c.check(fine(o.g) == model, "model:" + key, what + ": the globals or headers of the model have changed\n" + fine(o.g) + "\n---\n" + model);
    c.transition();
}
// afterwards, a write to a good place gives the complete file
static void after(mc::Ctx& c, Obj& o, int m, const string& hist) {
    setup(0); Try r = attempt(o, 0, true, {}, false); c.check(r.ok, "later write", hist + ": a later write fails");
    string got = slurp(path(0)); c.check(got == refs()[m], "later bytes", hist + fmt(": a later write gives other bytes (%zu instead of %zu)", got.size(), refs()[m].size()));
    r = attempt(o, 0, false, {}, false); c.check(!r.ok && slurp(path(0)) == refs()[m], "later refusal", hist + ": a later write without leave to overwrite");
    c.validated();
}
static int kinds(char op) { return op == 'o' ? KO : op == 'w' ? KW : KC; }

static void explore(mc::Ctx& c) {
    DIR_ = c.scratch;
    if (refs().empty()) for (int k = 0; k < NM; k++) { srcs().push_back(source(k)); Obj o; IGES& g = o.g; load(g, k); setup(0); Try r = attempt(o, 0, false, {}, false); if (!r.ok) throw mc::Fail{"reference", fmt("model %d cannot be written", k)}; refs().push_back(slurp(path(0))); }
    static std::map<int, string> calls;   // calls of an undisturbed write, by (model, target, overwrite)
    auto callsOf = [&](int m, int t, bool over) -> const string& { int k = (m * NT + t) * 2 + over; auto it = calls.find(k); if (it != calls.end()) return it->second; Obj o; IGES& g = o.g; load(g, m); setup(t); return calls[k] = attempt(o, t, over, {}, false).ops; };
    int mode = c.choose(4, "mode"), m = c.choose(NM, "model");
    if (mode == 3) {     // refusals which have nothing to do with the operating system
        int why = c.choose(6, "why"), t = c.choose(NT, "target"); bool over = c.flip("overwrite"), dll = c.flip("wrapper"); c.begin();
        Obj o; IGES& g = o.g; load(g, m); setup(t); bool existed = T[t].exists; string before = existed && t != 6 && t != 8 ? slurp(path(t)) : "";
        IGES_ENTITY* e = 0;
        double keep = g.globalData.minResolution;
        switch (why) {
        case 0: if (!g.NewEntity(110, &e)) throw mc::Fail{"setup", "no line"}; as<IGES_ENTITY_110>(e)->X1 = NAN; as<IGES_ENTITY_110>(e)->X2 = 1; break;
        case 1: if (!g.NewEntity(110, &e)) throw mc::Fail{"setup", "no line"}; as<IGES_ENTITY_110>(e)->X1 = INFINITY; break;
        case 2: g.Clear(); break;
        case 3: g.Clear(); g.NewEntity(502, &e); e = 0; break;                      // only an orphan
        case 4: break;                                                             // null file name
        case 5: g.globalData.minResolution = NAN; break;
        }
        const char* p = 0; string ps = path(t); if (why != 4) p = ps.c_str();
        plan.clear(); opno = 0; sticky = 0; fired = 0; ops.clear(); fds.clear(); bool ok;
        ok = dll ? o.w.Write(p, over) : g.Write(p, over);
        string what = fmt("model %d, refusal %d, target %s, overwriting %s", m, why, T[t].name, over ? "allowed" : "not allowed");
        if (why != 5) c.check(!ok, fmt("written%d", why), what + ": reports success");
        if (!ok) {
            c.check(there(t) == existed, fmt("refused%d:exists", why), what + ": the refused write has created or removed the target");
            if (existed && t != 6 && t != 8) c.check(slurp(path(t)) == before, fmt("refused%d:content", why), what + ": the refused write has changed the target");
            // the reason removed, the model is as it was
            if (why <= 1) g.DelEntity(e);
            if (why == 5) g.globalData.minResolution = keep;
            if (why == 2 || why == 3) load(g, m);
            after(c, o, m, what);
        }
        c.outcome(fmt("refusal %d", why)); c.nontrivial(mc::hstr(fmt("r%d %d %d %d %d", m, why, t, over, dll)));
        return;
    }
    if (mode == 0) {     // one write with up to two faults
        int t = c.choose(NT, "target"); bool over = c.flip("overwrite"), dll = m <= 1 && c.flip("wrapper"); c.begin();
        const string& cs = callsOf(m, t, over); vector<Fault> f; string trace = cs;
        // every position of an undisturbed write and two more (a fault may cause further calls)
        int maxf = c.thorough ? (m <= 1 ? 3 : 2) : m <= 1 ? 2 : 1; int from = 0;
        for (int i = 0; i < maxf; i++) { int n = (int)cs.size() + 2; if (from >= n) break; int at = c.choose(n - from + 1, "fault position"); if (at == 0) break; at = from + at - 1;
            char op = at < (int)cs.size() ? cs[at] : 'w'; f.push_back({at, c.choose(kinds(op), "fault")}); from = at + 1; }
        Obj o; IGES& g = o.g; load(g, m); string model = fine(g); setup(t); string before = T[t].exists && t != 6 && t != 8 ? slurp(path(t)) : "";
        Try r = attempt(o, t, over, f, dll); c.say(fmt("model %d target %s over %d: %s -> %d (calls %s)", m, T[t].name, over, show(f).c_str(), r.ok, r.ops.c_str()));
        if ((int)f.size() != r.fired && f.size() > 1) c.outcome("fault not reached");
        judge(c, o, m, t, over, r, f, T[t].exists, before, model); after(c, o, m, "after a write with" + show(f));
        c.outcome(r.ok ? "succeeded" : "failed"); c.outcome(fmt("%d fault(s) fired", r.fired)); c.nontrivial(mc::hstr(fmt("%d %d %d %d", m, t, over, dll) + show(f)));
        return;
    }
    // histories of writes on one object, each with a fault (1: on one target; 2: alternating targets, with changes between)
    int n = c.thorough && m <= 1 ? 4 : m <= 1 ? 3 : 2; if (!c.thorough && mode == 2 && m > 2) c.skip(); struct St { int t; bool over; Fault f; }; vector<St> H; static const int TT[] = {0, 1, 4, 8};
    int t0 = mode == 1 ? TT[c.choose(4, "target")] : 0; 
    vector<int> pick;
    for (int i = 0; i < n; i++) { St s; s.t = mode == 1 ? t0 : TT[c.choose(4, "target")]; s.over = c.flip("overwrite"); 
        // fault: none, first/second open, first write (3 kinds), last write, close
        int k = c.choose(mode == 1 ? 8 : 4, "fault"); static const int KK[] = {0, 1, 3, 7, 2, 4, 5, 6}; s.f = {KK[k], 0}; H.push_back(s); }
    c.begin();
    for (auto& s : H) { callsOf(m, s.t, s.over); if (s.t == 0) callsOf(m, 1, s.over); }
    Obj o; IGES& g = o.g; load(g, m); string hist; string model = fine(g); if (mode == 1) setup(t0);
    bool exists = T[t0].exists; string before = exists && t0 != 8 ? slurp(path(t0)) : "";
    for (auto& s : H) {
        if (mode == 2) { setup(s.t); exists = T[s.t].exists; before = exists && s.t != 8 ? slurp(path(s.t)) : ""; }
        // map the abstract fault to a call
        const string& cs = callsOf(m, s.t == 0 && exists ? 1 : s.t, s.over); vector<Fault> f; size_t p; 
        switch (s.f.at) {
        case 1: if ((p = cs.find('o')) != string::npos) f.push_back({(int)p, 0}); break;
        case 2: if ((p = cs.rfind('o')) != string::npos) f.push_back({(int)p, 1}); break;
        case 3: if ((p = cs.find('w')) != string::npos) f.push_back({(int)p, 0}); break;
        case 4: if ((p = cs.find('w')) != string::npos) f.push_back({(int)p, 1}); break;
        case 5: if ((p = cs.find('w')) != string::npos) f.push_back({(int)p, 6}); break;
        case 6: if ((p = cs.rfind('w')) != string::npos) f.push_back({(int)p, 0}); break;
        case 7: if ((p = cs.rfind('c')) != string::npos) f.push_back({(int)p, 0}); break;
        }
        Try r = attempt(o, s.t, s.over, f, false); hist += fmt("[%s over %d%s -> %d] ", T[s.t].name, s.over, show(f).c_str(), r.ok); c.say(hist);
        // the state of the target is what it is; existence is observed
        judge(c, o, m, s.t, s.over, r, f, exists, before, model);
        exists = there(s.t); before = exists && s.t != 8 ? slurp(path(s.t)) : ""; c.state(mc::hstr(hist));
    }
    after(c, o, m, hist); c.nontrivial(mc::hstr(fmt("h%d %d ", mode, m) + hist)); c.outcome("history");
}
MC_MAIN(explore, 3, 20)
