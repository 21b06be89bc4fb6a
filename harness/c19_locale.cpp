// C19: every library operation gives the same result whatever the C locale, the C++ global locale and the locale of the thread, and leaves all three as they
// were.  The locales are compiled from the sources installed with the C library; punctuation that no locale has is added through std::numpunct.
#include "apibuild.hpp"
#include <idf_parser.h>
#include "idfboards.hpp"
#include <geom/iges_geom_pcb.h>
#include <geom/mcad_segment.h>
#include <locale>
#include <memory>
#include <sys/stat.h>
using namespace igs; using mc::Ctx;
extern "C" time_t time(time_t* t) { if (t) *t = 1700000000; return 1700000000; }
struct Quiet { std::streambuf* o; std::stringstream s; Quiet() { o = std::cerr.rdbuf(s.rdbuf()); } ~Quiet() { std::cerr.rdbuf(o); } };

// ---- locales -------------------------------------------------------------------------------------------------------------
struct Punct : std::numpunct<char> { string g; Punct(const string& g) : g(g) {} char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } string do_grouping() const override { return g; } string do_truename() const override { return "1"; } };
static bool ready = false, have = false; static string longName; static locale_t TH[3]; static std::locale CPP[6];
static const int NCL = 9, NCPP = 6, NTH = 3;
static void prepare(const string& dir) {
    if (ready) return; ready = true; ::mkdir(dir.c_str(), 0777);
    struct { const char *in, *cs, *name; } L[] = {{"de_DE", "UTF-8", "de_DE.UTF-8"}, {"fr_FR", "UTF-8", "fr_FR.UTF-8"}, {"hi_IN", "UTF-8", "hi_IN.UTF-8"}, {"tr_TR", "ISO-8859-9", "tr_TR.ISO-8859-9"}};
    for (auto& l : L) if (system(fmt("localedef --no-archive -c -i %s -f %s '%s/%s' >/dev/null 2>&1", l.in, l.cs, dir.c_str(), l.name).c_str())) {}
    longName = "de_DE@" + string(100, 'x'); if (system(("cp -r '" + dir + "/de_DE.UTF-8' '" + dir + "/" + longName + "'").c_str())) {}
    setenv("LOCPATH", dir.c_str(), 1); have = true;
    for (string n : {string("de_DE.UTF-8"), string("fr_FR.UTF-8"), string("hi_IN.UTF-8"), string("tr_TR.ISO-8859-9"), longName}) if (!setlocale(LC_ALL, n.c_str())) have = false;
    setlocale(LC_ALL, "C"); std::locale k = std::locale::classic(); CPP[0] = k; CPP[1] = std::locale(k, new Punct("\3")); CPP[2] = std::locale(k, new Punct("\1")); TH[0] = (locale_t)0;
    if (have) { CPP[3] = std::locale("de_DE.UTF-8"); CPP[4] = std::locale(k, std::locale("hi_IN.UTF-8"), std::locale::numeric); CPP[5] = std::locale("tr_TR.ISO-8859-9"); TH[1] = newlocale(LC_ALL_MASK, "de_DE.UTF-8", 0); TH[2] = newlocale(LC_ALL_MASK, "tr_TR.ISO-8859-9", 0); }
}
static void clocale(int i) {
    setlocale(LC_ALL, "C");
    switch (i) { case 0: break; case 1: setlocale(LC_ALL, "de_DE.UTF-8"); break; case 2: setlocale(LC_ALL, "fr_FR.UTF-8"); break; case 3: setlocale(LC_ALL, "hi_IN.UTF-8"); break; case 4: setlocale(LC_ALL, "tr_TR.ISO-8859-9"); break; case 5: setlocale(LC_NUMERIC, "de_DE.UTF-8"); break; case 6: setlocale(LC_CTYPE, "tr_TR.ISO-8859-9"); break; case 7: setlocale(LC_ALL, longName.c_str()); break; case 8: setlocale(LC_ALL, "tr_TR.ISO-8859-9"); setlocale(LC_NUMERIC, longName.c_str()); break; }
}
struct Env { int cl, cpp, th; };
static const char* CN[] = {"C", "German", "French", "Hindi", "Turkish", "German numbers", "Turkish characters", "long name", "Turkish with long-named numbers"};
static const char* PN[] = {"classic", "custom punctuation", "custom punctuation grouping every digit", "German", "Hindi numbers", "Turkish"}; static const char* TN[] = {"none", "German", "Turkish"};
static string show(const Env& e) { return string("C locale ") + CN[e.cl] + ", C++ global " + PN[e.cpp] + ", thread " + TN[e.th]; }
static Ctx* C = 0; static Env cur; static bool base; static string opName;
static void off() { std::locale::global(std::locale::classic()); setlocale(LC_ALL, "C"); uselocale(LC_GLOBAL_LOCALE); }
static void on() { if (base) { off(); return; } std::locale::global(CPP[cur.cpp]); clocale(cur.cl); if (TH[cur.th]) uselocale(TH[cur.th]); }
// every call of the library
template <class F> static void lib(F f) {
    bool threw = false; string was, now; locale_t wt, nt; std::locale wl, nl;
    { Quiet q; on(); was = setlocale(LC_ALL, NULL); wt = uselocale(0); wl = std::locale();
      try { f(); } catch (...) { threw = true; }
      now = setlocale(LC_ALL, NULL); nt = uselocale(0); nl = std::locale(); off(); }
    if (!C) return; C->transition();
    C->check(!threw, "threw/" + opName, opName + " throws under " + show(cur));
    if (was != now) C->fail("clocale/" + opName, opName + " under " + show(cur) + " leaves the C locale at " + now + " instead of " + was);
    if (wt != nt) C->fail("thread/" + opName, opName + " under " + show(cur) + " changes the locale of the thread");
    if (wl != nl) C->fail("global/" + opName, opName + " under " + show(cur) + " changes the C++ global locale to " + nl.name() + " from " + wl.name());
}
// ---- operations ------------------------------------------------------------------------------------------------------------
static string DIR_; // scratch
static string out(const string& n) { return slurp(DIR_ + "/" + n); }
static const int NDAM = 12;
static string famText(int f, bool big) {
    static std::map<int, string> M; int k = f * 2 + big; if (!M.count(k)) { Chooser z = [](int, const char*) { return 0; }; B b(z); b.mag = big ? 1234.5 : 1; family(b, f); Glob& g = b.m.g; g.res = 1.5e-5; g.lw = 2.5; g.lwg = 4; g.scale = 0.5; M[k] = synth(b.m); } return M[k];
}
static string damaged(int k) {
    static std::map<int, string> M; if (M.count(k)) return M[k]; string s = famText(4, true); auto lineAt = [&](char sec, int nth) { size_t p = 0; int n = 0; while (p < s.size()) { if (s[p + 72] == sec && n++ == nth) return p; p += 81; } return s.size(); };
    switch (k) { case 0: s.resize(lineAt('P', 0)); break; case 1: s.resize(lineAt('G', 1)); break; case 2: s.resize(lineAt('T', 0)); break; case 3: s.resize(lineAt('D', 1)); break; case 4: s.clear(); break; case 5: s = string(400, 'Z'); break; case 6: { size_t p = lineAt('D', 0); s.replace(p + 8, 8, "   99999"); break; }
    case 7: { size_t p = lineAt('D', 0); s.replace(p + 8, 8, "     1,0"); break; } case 8: { size_t p = lineAt('P', 0); size_t q = s.find('.', p); if (q < p + 64) s[q] = ','; break; } case 9: { size_t p = lineAt('P', 0); s.replace(p + 4, 3, "x.y"); break; } case 10: s.resize(lineAt('P', 0) + 30); break; case 11: { size_t p = lineAt('T', 0); s.replace(p + 1, 7, "1.00000"); break; } }
    return M[k] = s;
}
static idf::Board board(bool v2, int names) { idf::Board b = idf::rich(v2); b.drills.push_back({1234.5678, 10234.5, -98765.4, "PTH", "BOARD", "tooling", "UNOWNED"}); if (names) for (int i = 0; i < 1100; i++) { auto p = b.places[2]; p.x = i; b.places.push_back(p); } return b; }
static const int NIDF = 9;   // boards in several spellings
static void idfIn(int k) { static std::map<int, std::pair<string, string>> M; static const int FM[] = {0, 1, 2, 3, 4, 8, 12, 16, 0}; if (!M.count(k)) { idf::Form f = idf::form(FM[k]); idf::Board b = board(f.version == 2, k == 8); idf::Writer w(f), v(f); M[k].first = w.board(b); M[k].second = v.library(b); } spill(DIR_ + "/in.emn", M[k].first); spill(DIR_ + "/in.emp", M[k].second); }
// the model of C19 operation k; the string holds everything that can be observed
struct Op { string name; std::function<string()> run; };
static string glob(IGES& g) { IGES_GLOBAL& G = g.globalData; return fmt("%d %d %d %d %d|%.17g|%d|%d|%.17g|%.17g|%.17g|%d|%d|%.17g|", G.nIntegerBits, G.floatMaxExp, G.floatMaxSig, G.doubleMaxExp, G.doubleMaxSig, G.modelScale, G.unitsFlag, G.maxLinewidthGrad, G.maxLinewidth, G.minResolution, G.maxCoordinateValue, G.igesVersion, G.draftStandard, G.cf) + G.unitsName + "|" + G.creationDate + "|" + G.modificationDate + "|" + G.fileName; }
static string save(IGES& g, const string& o = "o.igs", bool over = true) { ::unlink((DIR_ + "/" + o).c_str()); bool ok = false; lib([&] { ok = g.Write((DIR_ + "/" + o).c_str(), over); }); return fmt("write %d\n", ok) + (ok ? out(o) : string()) + glob(g); }
static string load(IGES& g, const string& text) { spill(DIR_ + "/in.igs", text); bool ok = false; lib([&] { ok = g.Read((DIR_ + "/in.igs").c_str()); }); return fmt("read %d\n", ok) + glob(g); }
static string writeIdf(IDF3_BOARD& b, bool mm, bool force) { bool ok = false; lib([&] { ok = b.WriteFile(DIR_ + "/out.emn", mm, force); }); return fmt("idf write %d ", ok) + out("out.emn") + out("out.emp"); }
static string showIdf(IDF3_BOARD& b) { string s = b.GetBoardName() + "|" + b.GetBoardDate() + "|" + b.GetBoardSource() + fmt("|%d|%d", b.GetBoardVersion(), (int)b.GetUnit()); for (auto* d : b.GetBoardDrills()) s += fmt("\n%.17g %.17g %.17g ", d->GetDrillDia(), d->GetDrillXPos(), d->GetDrillYPos()) + d->GetDrillRefDes() + d->GetDrillHoleType(); for (auto& p : *b.GetComponents()) { double x = 0, y = 0, a = 0; IDF3::IDF_LAYER l = IDF3::LYR_INVALID; p.second->GetPosition(x, y, a, l); s += "\n" + p.first + fmt(" %.17g %.17g %.17g %d", x, y, a, (int)l); } for (auto& p : b.GetComponentOutlines()) s += "\n" + p.first + p.second->GetGeomName() + fmt(" %.17g", p.second->GetThickness()); return s; }
static string compText() { idf::Form f = idf::form(8); idf::Board b; b.comps = {idf::part("so8i", "lm 358 i", 5, "THOU")}; idf::Writer w(f); string t = w.library(b); size_t p = t.find(".END_HEADER"), q; if (p == string::npos) p = t.find(".end_header"); q = t.find("\n", p); return t.substr(q + 1); }
static vector<Op> all() {
    vector<Op> v;
    for (int f = 0; f < NFAM; f++) v.push_back({fmt("build and write %s", famName(f)), [f] { IGES* g = 0; Ents es; Chooser z = [](int, const char*) { return 0; }; B b(z); b.mag = 1234.5; family(b, f); Glob& q = b.m.g; q.res = 1.5e-5; q.lw = 2.5; q.lwg = 4; string r; lib([&] { g = new IGES; try { apibuild(*g, b.m, es); } catch (NoApi&) { r = "no interface"; } catch (Refused& e) { r = "refused " + e.what; } }); if (r.empty()) r = save(*g); lib([&] { delete g; }); return r; }});
    for (int big = 0; big < 2; big++) for (int f = 0; f < NFAM; f++) v.push_back({fmt("read and write %s%s", famName(f), big ? " (large)" : ""), [f, big] { string s; { IGES g; s = load(g, famText(f, big)); s += save(g); } return s; }});
    for (int k = 0; k < NDAM; k++) v.push_back({fmt("read damaged file %d", k), [k] { IGES g; string s = load(g, damaged(k)); s += save(g); return s; }});
    v.push_back({"read a missing file", [] { IGES g; bool a = true, b = true, d = true; lib([&] { a = g.Read((DIR_ + "/none.igs").c_str()); }); lib([&] { b = g.Read(NULL); }); lib([&] { d = g.Read(DIR_.c_str()); }); return fmt("%d%d%d", a, b, d); }});
    v.push_back({"write where it is refused", [] { IGES g; string s = load(g, famText(4, true)); spill(DIR_ + "/t.igs", "keep"); bool a = true, b = true, d = true; lib([&] { a = g.Write((DIR_ + "/none/x.igs").c_str(), true); }); lib([&] { b = g.Write(NULL, true); }); lib([&] { d = g.Write((DIR_ + "/t.igs").c_str(), false); }); return s + fmt("%d%d%d", a, b, d) + out("t.igs") + save(g); }});
    v.push_back({"write an incomplete entity", [] { IGES g; IGES_ENTITY* e = 0; lib([&] { g.NewEntity(100, &e); g.NewEntity(126, &e); g.NewEntity(144, &e); g.NewEntity(110, &e); }); return save(g); }});
    for (int u = 1; u <= 11; u += 2) v.push_back({fmt("convert to unit %d", u), [u] { IGES g; string s = load(g, famText(4, true)); bool a = false, b = false; lib([&] { a = g.ConvertUnits((IGES_UNIT)u); }); lib([&] { b = g.ChangeModelScale(0.125); }); s += fmt("%d%d", a, b) + save(g); return s; }});
    v.push_back({"export", [] { IGES g, h; string s = load(g, famText(11, true)); h.globalData.unitsFlag = UNIT_INCH; IGES_ENTITY_308* p = 0; bool ok = false; lib([&] { ok = g.Export(&h, &p); }); s += fmt("%d%d", ok, p != 0) + save(h, "h.igs") + save(g); return s; }});
    v.push_back({"names", [] { IGES g; string s; for (int i = 0; i < 12; i++) { string a, b; lib([&] { g.GetNewPartName(a); g.GetNewAssemblyName(b); }); for (auto* n : {&a, &b}) { string x = *n; for (size_t k = x.size() < 4 ? 0 : x.size() - 4; k < x.size(); k++) if (isdigit(x[k])) x[k] = 'n'; s += x; } }   /* the last digits count through the process */ return s; }});
    v.push_back({"headers and globals", [] { IGES g; lib([&] { const char* hl = "a line, with 1,234.5 in it"; g.AddToHeader(hl); g.globalData.author = "\xfe\xdd i I \xe9"; g.globalData.minResolution = 12345.678; g.globalData.fileName = "1.234,5"; }); string s = save(g); IGES h; s += load(h, out("o.igs")); size_t n = 0; const char** t = 0; if (h.GetHeaders(n, t)) for (size_t i = 0; i < n; i++) s += t[i]; return s + h.globalData.author; }});
    for (int k = 0; k < NIDF; k++) v.push_back({fmt("IDF board %d", k), [k] { idfIn(k); bool ok = false; string s; std::unique_ptr<IDF3_BOARD> b; lib([&] { b.reset(new IDF3_BOARD(k % 2 ? IDF3::CAD_MECH : IDF3::CAD_ELEC)); ok = b->ReadFile(DIR_ + "/in.emn", false); }); s = fmt("%d", ok) + showIdf(*b); s += writeIdf(*b, true, false) + writeIdf(*b, false, false) + writeIdf(*b, true, true); return s; }});
    v.push_back({"IDF board without library", [] { idfIn(0); ::unlink((DIR_ + "/in.emp").c_str()); bool ok = false; IDF3_BOARD b(IDF3::CAD_ELEC); lib([&] { ok = b.ReadFile(DIR_ + "/in.emn", false); }); return fmt("%d", ok) + showIdf(b) + writeIdf(b, true, false); }});
    for (int k = 0; k < 8; k++) v.push_back({fmt("damaged IDF file %d", k), [k] { idfIn(k % 4); string f = DIR_ + (k & 1 ? "/in.emp" : "/in.emn"), t = slurp(f); if (k < 4) t.resize(t.size() * (k + 2) / 7); else if (k < 6) { size_t p = t.rfind('.'); t[p] = ','; } else { size_t p = t.find(".0"); if (p != string::npos) t.replace(p, 2, ",0"); } spill(f, t); bool ok = true; IDF3_BOARD b(IDF3::CAD_ELEC); lib([&] { ok = b.ReadFile(DIR_ + "/in.emn", false); }); return fmt("%d", ok) + (ok ? showIdf(b) : string()); }});
    v.push_back({"IDF where it is refused", [] { idfIn(0); bool a = false, b = true, d = true; IDF3_BOARD x(IDF3::CAD_ELEC); lib([&] { a = x.ReadFile(DIR_ + "/in.emn", false); }); lib([&] { b = x.WriteFile(DIR_ + "/none/x.emn", true); }); lib([&] { IDF3_BOARD y(IDF3::CAD_ELEC); d = y.ReadFile(DIR_ + "/none.emn", false); }); return fmt("%d%d%d", a, b, d) + writeIdf(x, true, false); }});
    v.push_back({"IDF board built", [] { IDF3_BOARD b(IDF3::CAD_ELEC); string s; spill(DIR_ + "/part.idf", compText()); lib([&] { b.SetBoardName("titanic I i"); b.SetBoardThickness(1.6); b.AddSlot(2.5, 1007.25, 30, 12345.5, 54321.25); b.AddBoardDrill(0.8, 1234.5, 2.5, IDF3::PTH, "mounting i", IDF3::ECAD);
        IDF3_COMP_OUTLINE* o = NULL; for (int i = 0; i < 12; i++) { IDF3_COMPONENT* k = new IDF3_COMPONENT(&b); k->SetRefDes(i < 11 ? b.GetNewRefDes() : string("BOARDi")); if (!o) { o = b.GetComponentOutline(DIR_ + "/part.idf"); } auto* d = new IDF3_COMP_OUTLINE_DATA(k, o, 1234.5, i, 0.5, 45.5); if (o) k->AddOutlineData(d); else delete d; k->SetPosition(1000 * i, 2, 45, IDF3::LYR_TOP); b.AddComponent(k); } s += o ? "outline" : "no outline"; });
        for (int i = 0; i < 3; i++) lib([&] { s += b.GetNewRefDes(); }); s += showIdf(b) + writeIdf(b, true, false) + writeIdf(b, false, false); return s; }});
    for (int r = 0; r < 2; r++) v.push_back({r ? "extruded outline read back" : "extruded outline", [r] { IGES g; string s; lib([&] { IGES_GEOM_PCB o; bool err = false; double P[][2] = {{0, 0}, {1234.5, 0}, {1234.5, 2345.25}, {0, 2345.25}}; for (int i = 0; i < 4; i++) { MCAD_SEGMENT* q = new MCAD_SEGMENT; MCAD_POINT a, z; a.x = P[i][0]; a.y = P[i][1]; z.x = P[(i + 1) % 4][0]; z.y = P[(i + 1) % 4][1]; q->SetParams(a, z); if (!o.AddSegment(q, err)) s += "no segment"; } MCAD_SEGMENT* h = new MCAD_SEGMENT; MCAD_POINT c0, p0; c0.x = 500.5; c0.y = 700.25; p0.x = 600.5; p0.y = 700.25; h->SetParams(c0, p0, p0, false); s += fmt("cut %d", o.AddCutout(h, false, err)); vector<IGES_ENTITY_144*> f; s += fmt("%d", o.GetVerticalSurface(&g, err, f, 1.5, -1.5)); s += fmt("%d", o.GetTrimmedPlane(&g, err, f, 1.5, false)); s += fmt("%d %d", o.GetTrimmedPlane(&g, err, f, -1.5, true), (int)f.size()); const std::list<string>* e = o.GetErrors(); if (e) for (auto& x : *e) s += x; }); s += save(g); if (r) { IGES h; s += load(h, out("o.igs")) + save(h); } return s; }});
    return v;
}
static void explore(Ctx& c) {
    C = 0; off(); static vector<Op> O = all(); static std::map<int, string> want; DIR_ = c.scratch; static string was; if (was != DIR_) { was = DIR_; want.clear(); }
    prepare(DIR_ + "/loc"); int n = (int)O.size(); base = true; cur = {0, 0, 0};
    auto expected = [&](int k) -> const string& { if (!want.count(k)) { base = true; C = 0; want[k] = O[k].run(); base = false; } return want[k]; };
    int part = c.choose(3, "part"); Env e; e.cl = c.choose(have ? NCL : 1, "C locale"); e.cpp = c.choose(have ? NCPP : 3, "C++ locale"); e.th = c.choose(have ? NTH : 1, "thread locale");
    if (!have) c.outcome("no locale could be compiled");
    auto go = [&](int k, const Env& x, const string& hist) {
        string w = expected(k); c.site(O[k].name); cur = x; base = false; C = &c; opName = O[k].name; string g = O[k].run(); C = 0; off(); c.validated();
        if (g != w) { size_t i = 0; while (i < g.size() && i < w.size() && g[i] == w[i]) i++; size_t b = i > 120 ? i - 120 : 0; c.fail("differs/" + O[k].name, hist + O[k].name + " under " + show(x) + " gives\n..." + g.substr(b, 300) + "\n--- instead of\n..." + w.substr(b, 300)); }
    };
    if (part == 0) {            // every operation under every environment
        int k = c.choose(n, "operation"); c.begin(); string id = O[k].name + " | " + show(e); c.say(id); c.state(mc::hstr(id)); c.nontrivial(mc::hstr(id)); go(k, e, ""); c.outcome("single"); c.outcome(CN[e.cl]);
    } else if (part == 1) {     // one operation after another
        static const vector<int> R = [&] { vector<int> r; for (int i = 0; i < (int)O.size(); i++) { const string& s = O[i].name; if (s.find("build and") != 0 && s.find("read and") != 0 && s.find("damaged IDF") != 0) r.push_back(i); } r.push_back(4); r.push_back(15); r.push_back(NFAM + 4); return r; }();
        bool few = !c.thorough; if (few && !((e.cl == 0 || e.cl == 1 || e.cl == 8) && (e.cpp == 0 || e.cpp == 1) && e.th <= 1)) { c.skip(); return; }
        int a = R[c.choose((int)R.size(), "first")], b = R[c.choose((int)R.size(), "second")]; c.begin(); string id = O[a].name + ", " + O[b].name + " | " + show(e); c.say(id); c.state(mc::hstr(id)); c.nontrivial(mc::hstr(id)); go(a, e, ""); go(b, e, "after " + O[a].name + ": "); c.outcome("pairs");
    } else {                    // read under one environment, write under another
        int f = c.choose(NFAM + 1, "family"); Env x; x.cl = c.choose(have ? NCL : 1, "C locale of the writer"); x.cpp = c.choose(have ? NCPP : 3, "C++ locale of the writer"); x.th = e.th; if (!c.thorough && (e.th || (x.cl + x.cpp + e.cl + e.cpp + f) % 4)) { c.skip(); return; }
        c.begin(); string id = fmt("%d | ", f) + show(e) + " | " + show(x); c.say(id); c.state(mc::hstr(id)); c.nontrivial(mc::hstr(id)); c.site("switch"); string got, w; opName = f < NFAM ? string("read then write ") + famName(f) : "IDF read then write";
        auto run = [&](string& r) { if (f < NFAM) { IGES g; if (C) cur = e; r = load(g, famText(f, true)); if (C) cur = x; r += save(g); } else { idfIn(1); bool ok = false; IDF3_BOARD b(IDF3::CAD_ELEC); if (C) cur = e; lib([&] { ok = b.ReadFile(DIR_ + "/in.emn", false); }); r = fmt("%d", ok) + showIdf(b); if (C) cur = x; r += writeIdf(b, false, false); } };
        static std::map<int, string> sw; static string swd; if (swd != DIR_) { swd = DIR_; sw.clear(); } if (!sw.count(f)) { C = 0; base = true; run(sw[f]); base = false; } w = sw[f]; base = false; C = &c; run(got); C = 0; off(); c.validated();
        if (got != w) c.fail("switch/" + opName, opName + ": read under " + show(e) + ", written under " + show(x) + " gives\n" + got.substr(0, 2000) + "\n--- instead of\n" + w.substr(0, 2000)); c.outcome("read here, write there");
    }
}
MC_MAIN(explore, 3, 30)
