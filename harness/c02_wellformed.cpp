// C02: models made through the library's interface (and, where it has none, by reading) -> Write -> strict independent decoding.
#include "apibuild.hpp"
#include <memory>
using namespace igs;
extern "C" time_t time(time_t* t) { if (t) *t = 1700000000; return 1700000000; }
static string text(int len, int pat) { string s; static const char* P[] = {"abcdefghij", "1,2;3H4Hx, ", "x y  z", ";,"}; for (int i = 0; i < len; i++) s += P[pat][(i * 7 + len) % strlen(P[pat])]; if (len && s.back() == ' ') s.back() = 'q'; if (len && s[0] == ' ') s[0] = 'q'; return s; }
static void explore(mc::Ctx& c) {
    int kind = c.choose(7, "kind");
    Chooser ch = [&](int n, const char* l) { return c.choose(n, l); };
    B b(ch); Model& m = b.m; string what, key; bool viaFile = false; int nf = 0;
    switch (kind) {
    case 0: { // families x aspects
        int f = c.choose(NFAM, "family"), as = c.choose(NASPECT, "aspect"); if (as == 7 || as == 9) c.skip();
        if (as == 10) b.mag = MAGS[c.choose(7, "magnitude")];
        int main = family(b, f, c.thorough || as == 0 || as == 8 || as == 10); aspect(b, main, as, ch, c); what = fmt("%s aspect %d", famName(f), as); key = fmt("f%d:a%d", f, as); nf = f; break; }
    case 1: { // alignment of reals: widths of the six coordinates of a line
        static const double V[] = {0, 1, -2.5, 123.456, -1234567.125, 1e-5, 3.14159265358979, -1.5e10}; int n = c.thorough ? 8 : 5; Ent e(110);
        for (int i = 0; i < 6; i++) { double v = V[c.choose(n, "width")]; e.pd.push_back(L(v)); } b.add(e, false); what = "reals"; key = "reals"; break; }
    case 2: { // strings in parameter data: kind x length x pattern x preceding width
        int t = c.choose(3, "entity"), len = c.choose(c.thorough ? 300 : 150, "length"), pat = c.choose(4, "pattern"), lead = c.choose(c.thorough ? 12 : 6, "lead"); string s = text(len, pat);
        if (t == 0) { if (!len) c.skip(); int q = b.e406(s); int l = b.e110(false); b.at(l).props.push_back(q); if (lead) b.at(q).comm.push_back(text(lead * 9, pat)); }
        else if (t == 1) { int q = b.e314(s); { int l = b.e110(false); b.at(l).color = Attr::p(q); } for (int i = 0; i < 3; i++) b.at(q).pd[i] = R(((lead >> i) & 1) ? 12.3 : 50); if (lead & 8) { int p = b.e406("p"); b.at(q).props.push_back(p); } }
        else { if (!len) c.skip(); int l = b.e110(true); vector<int> k{l}; for (int i = 0; i < lead; i++) k.push_back(b.e110(true)); b.e308(false, 0, s, k); }
        what = fmt("string %d len %d", t, len); key = fmt("string%d", t); break; }
    case 3: { // global strings: which x length x offset
        string* s[] = {&m.g.ssid, &m.g.native, &m.g.rsid, &m.g.author, &m.g.org, &m.g.note}; int w = c.choose(6, "global"), len = c.choose(c.thorough ? 200 : 80, "length"), off = c.choose(c.thorough ? 72 : 15, "offset"), pat = c.choose(c.thorough ? 4 : 2, "pattern");
        if (len == 0 && (w == 0 || w == 1 || w == 2)) c.skip();
        m.g.ssid = text(1 + off * (c.thorough ? 1 : 5), 0); m.g.rsid = m.g.ssid; *s[w] = text(len, pat); if (w == 0) m.g.rsid = m.g.ssid; b.e110(false); what = fmt("global %d len %d off %d", w, len, off); key = fmt("global%d", w); break; }
    case 4: { // start lines
        int n = c.choose(4, "lines"); m.start.clear(); for (int i = 0; i <= n; i++) m.start.push_back(text(1 + c.choose(i == 0 ? 80 : i == 1 ? 40 : 1, "length") * (i == 1 ? 4 : 1), i ? 0 : c.choose(2, "pattern"))); b.e110(false); what = "start"; key = "start"; break; }
    case 5: { // comments: count x length
        int n = c.choose(4, "lines"), len = c.choose(c.thorough ? 140 : 70, "length"), pat = c.choose(4, "pattern"); int l = b.e110(false); for (int i = 0; i <= n; i++) b.at(l).comm.push_back(text(len + i, pat)); b.e110(false); what = fmt("comments %d", len); key = "comments"; break; }
    case 6: { // size
        static const int N[] = {1, 2, 9, 10, 49, 50, 51, 99, 100, 499, 500, 501, 999, 1000, 4999, 5000, 5001, 9999, 10000, 50000}; int n = N[c.choose(c.thorough ? 20 : 17, "entities")]; int t = c.choose(3, "type"); vector<int> k;
        if (t == 1 && n > 1000 && !c.thorough) c.skip();
        for (int i = 0; i < n; i++) k.push_back(b.e110(t == 2)); if (t == 1) b.e102(false, 1); if (t == 2) b.e308(false, 0, "all", k); c.limit(120); what = fmt("size %d", n); key = "size"; break; }
    }
    c.begin(); c.say(what);
    string file = c.scratch + "/x.igs", file2 = c.scratch + "/y.igs"; Ents es; Model want = m; Expect x; 
    std::unique_ptr<IGES> g(new IGES);
    c.site("build:" + key);
    try { apibuild(*g, want, es); }
    catch (NoApi&) { viaFile = true; }
    catch (Refused& r) { c.fail("refused:" + r.what, "the interface refuses a legal model: " + r.what + "\n" + synth(m)); }
    if (viaFile) { g.reset(new IGES); want = m; spill(file2, synth(m)); c.check(g->Read(file2.c_str()), "read:" + key, "legal file rejected\n" + synth(m)); x = normalised(m); }
    else { x.res = m.g.res; x.units = m.g.units; x.scale = m.g.scale; x.cf = 1; }
    if (!viaFile) { // header lines longer than a line continue on the next
        vector<string> st; for (auto& s : m.start) { if (s.empty()) continue; for (size_t i = 0; i < s.size(); i += 72) st.push_back(s.substr(i, 72)); } if (st.empty()) st.push_back("# Created via the free libIGES (https://github.com/cbernardo/libIGES)"); want.start = st;
        for (auto& e : want.e) { vector<string> cm; for (auto& s : e.comm) { if (s.empty()) { cm.push_back(s); continue; } for (size_t i = 0; i < s.size(); i += 64) cm.push_back(s.substr(i, 64)); } e.comm = cm; }
    }
    c.site("write:" + key);
    c.check(g->Write(file.c_str(), true), "write:" + key, "a legal model is not written\n" + synth(m));
    string out = slurp(file);
    try { File F = parse(out); cmpStart(want, F); cmpGlob(want, F, x, "x.igs"); cmpEnts(want, F, x); }
    catch (Bad& e) { c.fail(e.key + ":" + key, e.msg + "\n--- model\n" + synth(m).substr(0, 2000) + "--- output\n" + out.substr(0, 6000)); }
    c.site("again:" + key);
    c.check(g->Write(file.c_str(), true) && slurp(file) == out, "second-write:" + key, "writing twice gives different files");
    c.nontrivial(mc::hstr(out)); c.outcome(fmt("kind %d", kind));
}
MC_MAIN(explore, 3, 60)
