// C11: every family in every spelling must read as the same model: what the library then writes is compared item by
// item with the model (independent strict reader) and byte by byte with what it writes for the plain spelling.
#include "lib.hpp"
#include "aspects.hpp"
using namespace igs;
extern "C" time_t time(time_t* t) { if (t) *t = 1700000000; return 1700000000; }
static void prep(Model& m) { // a model whose globals differ from every default
    m.g.rsid = "receiver id"; m.g.author = "an author"; m.g.org = "an organisation"; m.g.std = 3; m.g.lwg = 4; m.g.lw = 0.8; m.g.note = "a note"; m.g.maxc = 0;
}
static void explore(mc::Ctx& c) {
    int kind = c.choose(7, "kind");
    int f = c.choose(kind == 2 ? 1 : NFAM, "family");
    Chooser ch = [&](int n, const char* l) { return c.choose(n, l); };
    bool full = kind == 4 || c.thorough;
    B b(ch); int main = family(b, f, full); Model& m = b.m; prep(m); Model keep = m; Spell sp; Model plainM; bool plain = true;
    string what;
    int reuse = 0;
    switch (kind) {
    case 0: sp.real = c.choose(6, "reals"); sp.wrap = c.choose(5, "wrap"); sp.ints = c.choose(3, "ints"); what = fmt("real%d.wrap%d.int%d", sp.real, sp.wrap, sp.ints); break;
    case 1: { static const char* EOL[] = {"\n", "\r\n"}; sp.eol = EOL[c.choose(2, "eol")]; sp.explicitDelim = c.flip("explicit delimiters"); sp.blankZero = c.flip("blank zeros"); sp.extras = c.flip("explicit counts"); sp.statBlank = c.flip("status blanks"); sp.seqZero = c.flip("zero filled"); sp.noLastEol = c.flip("no last eol");
        if (!c.thorough && sp.explicitDelim + sp.blankZero + sp.extras + sp.statBlank + sp.seqZero + sp.noLastEol > 2) c.skip();
        what = fmt("eol%d.ex%d.bz%d.xt%d.sb%d.sz%d.nl%d", (int)sp.eol.size(), sp.explicitDelim, sp.blankZero, sp.extras, sp.statBlank, sp.seqZero, sp.noLastEol); break; }
    case 2: { // defaulted globals: every pair, and everything; with and without cutting the record
        static const int BITS[] = {11, 12, 13, 14, 15, 19, 20, 21, 22, 23, 24, 25}; int i = c.choose(14, "first"), j = c.choose(13, "second"); unsigned long d = 0;
        auto setdef = [&](Model& q, int bit) { switch (bit) { case 11: q.g.rsid = q.g.ssid; break; case 12: q.g.scale = 1; break; case 13: q.g.units = 1; q.g.uname = "IN"; break; case 14: q.g.uname = unitName(q.g.units); break; case 15: q.g.lwg = 1; break; case 19: q.g.maxc = 0; break; case 20: q.g.author = ""; break; case 21: q.g.org = ""; break; case 22: q.g.ver = 3; break; case 23: q.g.std = 0; break; case 24: q.g.modified = ""; break; case 25: q.g.note = ""; break; } };
        if (i == 13 && j) c.skip();
        auto put = [&](int bit) { setdef(m, bit); d |= 1ul << bit; };
        if (i == 13) for (int x : BITS) put(x); else { if (i < 12) put(BITS[i]); if (j < 12) { if (i < 12 && j <= i) c.skip(); put(BITS[j]); } }
        int tail = c.choose(13, "trailing"); for (int k = 0; k < tail; k++) put(BITS[11 - k]); 
        sp.defG = d; sp.cutG = c.flip("cut"); sp.explicitDelim = c.flip("explicit delimiters"); sp.wrap = c.choose(3, "wrap"); keep = m; what = fmt("def%lx.cut%d", d, sp.cutG); break; }
    case 3: { int n = strlen(DELIMS), i = c.choose(n, "pd"), j = c.choose(n, "rd"); m.g.pd = DELIMS[i]; m.g.rd = DELIMS[j]; if (i == j || m.g.pd == ';' || m.g.rd == ',' ) c.skip(); if (!c.thorough && (i * 7 + j * 3 + f) % 6) c.skip(); sp.wrap = c.choose(3, "wrap"); keep = m; plain = false; what = "delims"; break; }
    case 4: { // documented default values of parameters
        int t = m.e[main].type; vector<std::pair<int, double>> dv;
        if (t == 154) dv = {{2, 0}, {3, 0}, {4, 0}, {5, 0}, {6, 0}, {7, 1}}; else if (t == 164) dv = {{2, 0}, {3, 0}, {4, 1}}; else if (t == 408) dv = {{4, 1}}; else c.skip();
        int mask = c.choose(1 << dv.size(), "defaulted"); if (!mask) c.skip(); int n = (int)dv.size(), allz = 1;
        bool ax0 = false; (void)ax0; (void)allz;
        for (int q = 0; q < n; q++) if ((mask >> q) & 1) { m.e[main].pd[dv[q].first].r = dv[q].second; }
        if (t != 408) { // keep the direction a unit vector
            auto& pd = m.e[main].pd; int o = t == 154 ? 5 : 2; int dI = (mask >> (o - 2)) & 1, dJ = (mask >> (o - 1)) & 1, dK = (mask >> o) & 1;
            double I = dI ? 0 : dJ ? (dK ? 0 : 1) : .6, J = dJ ? 0 : .6, K = 1; if (dK) { I = J = 0; } else { double s = 1 - I * I - J * J; if (!dI && !dJ) { I = .36; J = .48; K = .8; } else if (!dI) { I = .6; K = .8; } else if (!dJ) { J = .6; K = .8; } else { K = -1; } (void)s; }
            pd[o].r = I; pd[o + 1].r = J; pd[o + 2].r = K;
        }
        keep = m; bool prop = c.flip("property"); if (prop) { int p = b.e406("prop"); m.e[main].props.push_back(p); keep = m; }
        bool cut = !prop && c.flip("cut");
        for (int q = 0; q < n; q++) if ((mask >> q) & 1) m.e[main].pd[dv[q].first] = D();
        if (cut) while (m.e[main].pd.back().k == 'D') m.e[main].pd.pop_back();
        what = fmt("pd%d.m%d.c%d.p%d", t, mask, cut, prop); break; }
    case 5: { // one item of one record at every column
        int rec = c.choose((int)m.e.size() + 1, "record") - 1; if (!c.thorough && rec >= 0 && rec != main && rec != 0) c.skip();
        if (rec < 0 && f && !c.thorough) c.skip();
        int n = rec < 0 ? 26 : (int)m.e[rec].pd.size() + 1; int it = c.choose(c.thorough ? n : std::min(n, rec < 0 ? 26 : 9), "item"); if (rec >= 0 && !it) c.skip(); if (rec < 0 && it < 2) c.skip();
        int col = c.choose(rec < 0 ? 72 : 64, "column"); if (!c.thorough && rec >= 0 && f != 16 && f != 17 && f != 18 && col % 5 && col < 54) c.skip();
        sp.padRec = rec; sp.padItem = it; sp.padCol = col; if (rec < 0) sp.explicitDelim = true; what = rec < 0 ? fmt("gpad%d", it) : fmt("pad%d.%d", m.e[rec].type, std::min(it, 20)); break; }
    case 6: { reuse = 1 + c.choose(3, "earlier file"); what = fmt("reuse%d", reuse); break; }
    }
    c.begin();
    c.say(fmt("%s, %s", famName(f), what.c_str()));
    string file = c.scratch + "/x.igs", o1 = c.scratch + "/o/x.igs"; mkdir((c.scratch + "/o").c_str(), 0700);
    string in = synth(m, sp); string key = fmt("%d:", kind) + (kind == 0 ? what : kind == 1 ? what : kind == 3 ? string("delims") : kind == 4 || kind == 5 ? what : what);
    IGES g;
    if (reuse) {
        Model pm; { Chooser z = [](int, const char*) { return 0; }; B pb(z); family(pb, 4); pm = pb.m; }
        if (reuse == 1) { pm.g.pd = '/'; pm.g.rd = '#'; } else if (reuse == 2) { pm.g.units = 1; pm.g.uname = "IN"; pm.g.scale = 2; pm.g.lwg = 9; pm.g.note = "other"; pm.g.std = 7; pm.g.author = "x"; } else pm.e[0].pd.pop_back();
        spill(file, synth(pm)); bool r = g.Read(file.c_str()); c.check(r == (reuse != 3), "reuse-first", "unexpected result for the first file"); g.Clear();
    }
    spill(file, in);
    c.site("read:" + what);
    c.check(g.Read(file.c_str()), "rejected:" + key, "legal file rejected:\n" + in);
    c.check(g.Write(o1.c_str(), true), "write:" + key, "not written");
    string out = slurp(o1);
    Expect x = normalised(keep); 
    try { File F = parse(out); cmpStart(keep, F); cmpGlob(keep, F, x, "x.igs"); cmpEnts(keep, F, x); }
    catch (Bad& e) { c.fail(e.key + ":" + key, e.msg + "\n--- input\n" + in + "--- output\n" + out); }
    if (plain) {
        spill(file, synth(keep)); IGES h; c.check(h.Read(file.c_str()), "plain-rejected", "plain spelling rejected:\n" + synth(keep)); c.check(h.Write(o1.c_str(), true), "plain-write", "plain not written");
        string po = slurp(o1); c.check(po == out, "differs:" + key, "spelling changes the model\n--- input\n" + in + "--- plain gives\n" + po + "--- this gives\n" + out);
    }
    c.nontrivial(mc::hstr(in)); c.outcome(fmt("kind %d", kind));
}
MC_MAIN(explore, 3, 30)
