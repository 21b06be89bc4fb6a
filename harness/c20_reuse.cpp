// C20: after every history of reads (good, refused), edits, writes, conversions and transfers, clearing the object or
// reading into it gives exactly what a fresh object gives.
#include "apibuild.hpp"
using namespace igs;
extern "C" time_t time(time_t* t) { if (t) *t = 1700000000; return 1700000000; }
static string globals(IGES& g) {
    IGES_GLOBAL& G = g.globalData; string s = fmt("%c%c|%d %d %d %d %d|%.17g|%d|%d|%.17g|%.17g|%.17g|%d|%d|%.17g|%d|", G.pdelim, G.rdelim, G.nIntegerBits, G.floatMaxExp, G.floatMaxSig, G.doubleMaxExp, G.doubleMaxSig, G.modelScale, G.unitsFlag, G.maxLinewidthGrad, G.maxLinewidth, G.minResolution, G.maxCoordinateValue, G.igesVersion, G.draftStandard, G.cf, G.convert);
    for (const string* p : {&G.productIDSS, &G.fileName, &G.nativeSystemID, &G.preprocessorVersion, &G.productIDRS, &G.unitsName, &G.creationDate, &G.author, &G.organization, &G.modificationDate, &G.applicationNote}) s += *p + "|";
    size_t n = 0; const char** h = 0; bool ok = g.GetHeaders(n, h); s += fmt("H%d/%d/%d:", ok, (int)n, (int)g.GetNHeaderLines()); for (size_t i = 0; ok && i < n; i++) s += string(h[i]) + "/";
    const char* un = g.GetUnitName(); s += string("U") + (un ? un : "-"); return s;
}
static string observe(IGES& g, const string& o) { string s = globals(g); ::unlink(o.c_str()); bool w = g.Write(o.c_str(), true); s += fmt("\nW%d\n", w); s += w ? slurp(o) : string(); s += "\n" + globals(g); return s; }
// files
static const int NF = 12;
static string content(int k) {
    Chooser z = [](int, const char*) { return 0; }; B b(z); Model& m = b.m;
    int mn = family(b, k == 1 ? 4 : k == 2 ? 0 : k == 10 ? 15 : k == 11 ? 6 : 0); b.at(mn).comm.push_back(fmt("comment %d", k));
    if (k == 1 || k == 3 || k == 4 || k == 5 || k == 6) {   // everything set
        m.start = {"first header line", "second header line", string(90, 'x')}; Glob& g = m.g; g.pd = '/'; g.rd = '#'; g.ssid = "sender"; g.native = "native"; g.rsid = "receiver"; g.scale = 0.5; g.units = 1; g.uname = "INCH"; g.lwg = 7; g.lw = 0.25; g.created = "20200101.010101"; g.res = 1e-3; g.author = "author"; g.org = "organisation"; g.std = 4; g.note = "note";
    }
    if (k == 2) { m.g.units = 3; m.g.uname = "FURLONG"; }
    string s = synth(m); auto lineAt = [&](char sec, int nth) { size_t p = 0; int n = 0; while (p < s.size()) { if (s[p + 72] == sec && n++ == nth) return p; p += 81; } return s.size(); };
    switch (k) {
    case 3: s.resize(lineAt('P', 0)); break;                  // cut after the directory
    case 4: s.resize(lineAt('G', 1)); break;                  // cut in the global section
    case 5: s.resize(lineAt('T', 0)); break;                  // no terminate section
    case 6: s.resize(lineAt('D', 1)); break;                  // cut in the directory
    case 7: s.clear(); break;
    case 8: s = string(400, 'Z'); break;
    case 9: { size_t p = lineAt('D', 0); s.replace(p + 8, 8, "   99999"); break; }  // parameter pointer to nowhere
    }
    return s;
}
static void build(IGES& g, int k) {
    Chooser z = [](int, const char*) { return 0; }; B b(z); family(b, k ? 11 : 4); Ents es; Glob& q = b.m.g;
    if (k) { b.m.start = {"built header"}; q.pd = '|'; q.rd = '!'; q.author = "builder"; q.units = 9; q.uname = "CM"; q.scale = 2; q.std = 2; q.lwg = 3; q.lw = 1; q.res = 1e-5; }
    if (k) apibuild(g, b.m, es); else { // leaves the globals alone
        IGES_ENTITY* e = 0; if (!g.NewEntity(110, &e)) throw Refused{"110"}; as<IGES_ENTITY_110>(e)->X2 = 3.25; e->SetLabel("LIN"); }
}
static void explore(mc::Ctx& c) {
    int depth = c.thorough ? 4 : 3; vector<int> H;
    static const int NOP = NF + 13;
    for (int d = 0; d < depth; d++) { int op = c.choose(1 + NOP, "operation"); if (d >= 2 && !c.thorough && op > 12 && op != 17 && op != 21 && op != 0) c.skip(); if (op == 0) break; H.push_back(op - 1); }
    int fin = c.choose(8, "end");   // clear; clear+read 4 files; clear+build; read without clear; read without clear (2)
    c.begin();
    string o = c.scratch + "/o.igs", in = c.scratch + "/in.igs", w = c.scratch + "/w.igs";
    static vector<string> F; if (F.empty()) for (int k = 0; k < NF; k++) F.push_back(content(k));
    static std::map<int, string> fresh;   // what a fresh object shows
    auto end = [&](IGES& g) {
        switch (fin) {
        case 0: g.Clear(); break;
        case 1: case 2: case 3: case 4: { g.Clear(); static const int W[] = {0, 1, 2, 10}; spill(in, F[W[fin - 1]]); if (!g.Read(in.c_str())) return string("refused"); break; }
        case 5: g.Clear(); build(g, 0); break;
        case 6: case 7: spill(in, F[fin == 6 ? 0 : 2]); if (!g.Read(in.c_str())) return string("refused"); break;
        }
        return observe(g, o);
    };
    if (!fresh.count(fin)) { IGES g; fresh[fin] = end(g); }
    IGES other; { build(other, 1); }
    string hist; bool empty = true, unsure = false; int failed = 0;
    {
        IGES g;
        for (int op : H) {
            if (op < NF) { spill(in, F[op]); hist += fmt("read%d ", op); bool was = empty; bool r = g.Read(in.c_str()); static const char ok[] = "111000000011"; 
                if (unsure) { if (r) unsure = false; empty = r; if (ok[op] == '1') unsure = !r; if (!r) empty = false; }
                else c.check(r == (was && ok[op] == '1'), fmt("read-result%d", op), fmt("after [%s] reading %s", hist.c_str(), r ? "succeeds, though the file is damaged or the model is not empty" : "a good file into an empty model fails")); if (r) empty = false; failed += !r; }
            else switch (op - NF) {
            case 0: hist += "read-missing "; c.check(!g.Read((c.scratch + "/missing.igs").c_str()), "missing", "reading a missing file succeeds"); break;
            case 1: hist += "write "; g.Write(w.c_str(), true); break;
            case 2: hist += "write-refused "; spill(w, "x"); g.Write(w.c_str(), false); break;
            case 3: hist += "convert "; g.ConvertUnits(UNIT_INCH); break;
            case 4: hist += "rescale "; g.ChangeModelScale(4); break;
            case 5: hist += "build "; build(g, 0); empty = false; break;
            case 6: { hist += "globals "; build(g, 1); empty = false; break; }
            case 7: hist += "cull "; g.Cull(true); if (!empty) unsure = true; break;
            case 8: hist += "clear "; g.Clear(); empty = true; unsure = false; break;
            case 9: { hist += "export "; IGES h; h.globalData.unitsFlag = UNIT_INCH; IGES_ENTITY_308* p = 0; if (g.Export(&h, &p) && p) empty = true, unsure = false; break; }
            case 10: { hist += "import "; IGES_ENTITY_308* p = 0; if (other.Export(&g, &p)) empty = empty && !p; break; }
            case 11: { hist += "header "; string keep = "added header line"; const char* t = keep.c_str(); g.AddToHeader(t); globals(g); break; }
            case 12: { hist += "direct-globals "; IGES_GLOBAL& G = g.globalData; G.pdelim = '%'; G.rdelim = '?'; G.nIntegerBits = 16; G.floatMaxExp = 5; G.floatMaxSig = 4; G.doubleMaxExp = 99; G.doubleMaxSig = 9; G.modelScale = 8; G.unitsFlag = UNIT_EXTERN; G.unitsName = "ELL"; G.igesVersion = 11; G.maxCoordinateValue = 77; G.creationDate = "20000101.000000"; G.modificationDate = "20000102.000000"; G.fileName = "other"; G.preprocessorVersion = "p"; G.cf = 3; G.convert = true; break; }
            }
            c.transition(); c.state(mc::hstr(hist));
        }
        c.say("[" + hist + "]");
        if (fin >= 6 && !empty) { c.outcome("not empty"); c.skip(); }
        string got = end(g);
        c.check(got == fresh[fin], fmt("differs%d:", fin) + (H.empty() ? "fresh" : fmt("%d", H.back())), "after [" + hist + fmt("] ending %d shows\n", fin) + got + "\n--- instead of\n" + fresh[fin]);
        c.validated();
        // and once more: another object is not affected either
        IGES h; string again = end(h); c.check(again == fresh[fin], fmt("other-object%d", fin), "the history [" + hist + "] of one object shows in another:\n" + again + "\n--- instead of\n" + fresh[fin]);
    }
    c.nontrivial(mc::hstr(hist + fmt("#%d", fin))); c.outcome(fmt("end %d", fin)); if (failed) c.outcome("with failed reads");
}
MC_MAIN(explore, 2, 15)
