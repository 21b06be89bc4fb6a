// C03: every damaged version of a corpus file (truncations, line edits, field substitutions, pointer redirections,
// byte substitutions, type changes) must be read without undefined behaviour; what was accepted must be usable, what was
// refused must leave a reusable object.
#include "lib.hpp"
#include "aspects.hpp"
using namespace igs;
extern "C" time_t time(time_t* t) { if (t) *t = 1700000000; return 1700000000; }
static vector<string> split(const string& s) { vector<string> L; size_t a = 0; while (a < s.size()) { size_t b = s.find('\n', a); if (b == string::npos) b = s.size() - 1; L.push_back(s.substr(a, b - a + 1)); a = b + 1; } return L; }
static string join(const vector<string>& L) { string s; for (auto& l : L) s += l; return s; }
static const char* NUMS[] = {"", "0", "1", "-1", "2", "3", "-3", "7", "99", "100000", "9999999", "2147483647", "-2147483648", "4294967297", "99999999999999999999", "1E400", "-1E308", "1.5", "nan", "inf", "abc", "3Habc", "0H", "99Habc", "9999999999H", "-1Ha", "H", "1 2", " ", "'"};
static const char* DEF[] = {"", "0", "1", "-1", "2", "3", "-3", "7", "-7", "99", "100", "110", "124", "126", "308", "406", "502", "514", "10000000", "99999999", "-9999999", "abc", "1.5", "+3", "01010101", "00030601"};
static Model small(int f) { Chooser z = [](int, const char*) { return 0; }; B b(z); int mn = family(b, f); if (f != 18) { int p = b.e406("pr"); b.at(mn).props.push_back(p); } b.at(mn).comm.push_back("comment"); if (f == 4 || f == 11) { int t = b.e124(0); b.at(mn).trans = t; int q = b.e314("col"); b.at(mn).color = Attr::p(q); } b.m.g.note = "note"; return b.m; }
static void explore(mc::Ctx& c) {
    int kind = c.choose(8, "kind"), f = c.choose(NFAM, "family");
    Model m = small(f); string what;
    string in;
    switch (kind) {
    case 0: { in = synth(m); int n = (int)in.size(); int at = c.choose(n, "cut"); if (!c.thorough && (at % 80) > 8 && (at % 80) < 70 && at > 0 && (in[at] == ' ' || at % 3)) c.skip(); in.resize(at); what = fmt("cut"); break; }
    case 1: { vector<string> L = split(synth(m)); int n = (int)L.size(), i = c.choose(n, "line"), op = c.choose(c.thorough ? 4 : 4, "edit"); 
        if (op == 0) L.erase(L.begin() + i); else if (op == 1) L.insert(L.begin() + i, L[i]); else if (op == 2) { L[i] = "\n"; } else { int j = c.choose(n, "with"); if (j <= i || (!c.thorough && j > i + 1)) c.skip(); std::swap(L[i], L[j]); }
        in = join(L); what = fmt("line edit %d", op); break; }
    case 2: { // directory fields, on one or both lines of an entity
        vector<string> L = split(synth(m)); vector<int> D; for (size_t k = 0; k < L.size(); k++) if (L[k].size() > 72 && L[k][72] == 'D') D.push_back(k); int i = c.choose((int)D.size() / 2, "entity"), fl = c.choose(18, "field"), v = c.thorough ? c.choose(26, "value") : c.pick(vector<int>{0, 2, 3, 5, 7, 9, 12, 15, 18, 21, 22, 24}); string t = DEF[v]; t = t.size() < 8 ? string(8 - t.size(), ' ') + t : t.substr(0, 8);
        L[D[2 * i] + fl / 9].replace((fl % 9) * 8, 8, t); if (fl == 0 && c.thorough && c.flip("both")) L[D[2 * i] + 1].replace(0, 8, t); else if (fl == 0) {} in = join(L); what = fmt("DE field %d of %d", fl, m.e[i].type); break; }
    case 3: { // parameters
        int i = c.choose((int)m.e.size(), "entity"); Ent& e = m.e[i]; int np = (int)e.pd.size(); if (np == 0) c.skip(); int j = c.choose(np, "parameter"); if (!c.thorough && j > 16 && j < np - 6 && (j % 7)) c.skip(); int v = c.thorough ? c.choose(34, "value") : c.pick(vector<int>{0, 1, 3, 4, 6, 8, 10, 11, 15, 18, 20, 22, 24, 30, 31, 32, 33});
        if (v < 30) { e.pd[j].k = 'X'; e.pd[j].s = NUMS[v]; } else if (v == 30) e.pd.erase(e.pd.begin() + j); else if (v == 31) e.pd.insert(e.pd.begin() + j, e.pd[j]); else if (v == 32) { e.pd.resize(j); } else { if (e.pd[j].k != 'I') c.skip(); e.pd[j].i += 1; }
        if (e.pd.empty()) c.skip(); in = synth(m); what = fmt("parameter %d of %d", std::min(j, 20), e.type); break; }
    case 4: { // pointers
        vector<std::pair<int, int>> P; for (size_t k = 0; k < m.e.size(); k++) { for (size_t j = 0; j < m.e[k].pd.size(); j++) if (m.e[k].pd[j].k == 'P' || m.e[k].pd[j].k == 'N') P.push_back({(int)k, (int)j}); P.push_back({(int)k, -1}); P.push_back({(int)k, -2}); P.push_back({(int)k, -3}); P.push_back({(int)k, -4}); }
        auto p = P[c.choose((int)P.size(), "pointer")]; int to = c.choose((int)m.e.size() + 2, "target"); if (to == (int)m.e.size() + 1) to = 5000; Ent& e = m.e[p.first];
        if (p.second == -1) e.trans = to; else if (p.second == -2) { if (e.type == 406) c.skip(); e.color = Attr::p(to); } else if (p.second == -3) e.props.push_back(to); else if (p.second == -4) e.assoc.push_back(to);
        else { int sg = c.choose(3, "sign"); Tok& t = e.pd[p.second]; if (sg == 0) t.i = to; else if (sg == 1) { t.k = t.k == 'P' ? 'N' : 'P'; t.i = to; } else { t.k = 'X'; t.s = fmt("%d", de(to) + 1); } }
        // a second redirection (cycles)
        if (c.thorough && m.e.size() < 12 && c.flip("second")) { auto p2 = P[c.choose((int)P.size(), "pointer 2")]; int to2 = c.choose((int)m.e.size(), "target 2"); if (p2.second >= 0) m.e[p2.first].pd[p2.second].i = to2; else if (p2.second == -1) m.e[p2.first].trans = to2; else c.skip(); }
        in = synth(m); what = fmt("pointer %d of %d", p.second, e.type); break; }
    case 5: { // bytes
        in = synth(m); if (!c.thorough && f != 4 && f != 18) c.skip(); int at = c.choose((int)in.size(), "byte"); static const char V[] = {' ', '9', '-', ',', ';', 'H', '\0', '\n', (char)0xff, 'E', '0', 'P'}; if (!c.thorough && f == 15 && in[at] == ' ') c.skip(); char v = V[c.choose(c.thorough ? 12 : 6, "value")]; if (in[at] == v) c.skip(); in[at] = v; what = "byte"; break; }
    case 6: { // globals
        if (f > 1) c.skip(); vector<string> it; m = small(f ? 11 : 4); Spell sp; sp.explicitDelim = true; in = synth(m, sp); vector<string> L = split(in); string G; size_t a = 0, b = 0; for (size_t k = 0; k < L.size(); k++) if (L[k][72] == 'G') { if (!a) a = k; b = k + 1; G += L[k].substr(0, 72); }
        size_t q = 8; vector<std::pair<size_t, size_t>> pos; while (q < G.size()) { size_t s = q; size_t d = q; while (isdigit((unsigned char)G[d])) d++; if (d > q && G[d] == 'H') q = d + 1 + atoi(G.substr(s).c_str()); while (G[q] != ',' && G[q] != ';') q++; pos.push_back({s, q - s}); if (G[q] == ';') break; q++; }
        int i = c.choose((int)pos.size(), "item"), v = c.choose(33, "value"); string t; if (v < 30) { t = NUMS[v]; G.replace(pos[i].first, pos[i].second, t); } else if (v == 30) G.erase(pos[i].first, pos[i].second + 1); else if (v == 31) G.resize(pos[i].first); else G.insert(pos[i].first, G.substr(pos[i].first, pos[i].second + 1));
        vector<string> N(L.begin(), L.begin() + a); G = G.substr(0, G.find_last_not_of(' ') + 1); for (size_t k = 0, n = 1; k < G.size(); k += 72, n++) { string l = G.substr(k, 72); l.resize(72, ' '); N.push_back(sec(l, 'G', n) + "\n"); } N.insert(N.end(), L.begin() + b, L.end()); in = join(N); what = fmt("global %d", i + 3); break; }
    case 7: { // an entity declared as another type (directory and data)
        int i = c.choose((int)m.e.size(), "entity"); static const int T[] = {0, 100, 102, 104, 110, 120, 122, 124, 126, 128, 142, 144, 154, 164, 180, 186, 308, 314, 406, 408, 502, 504, 508, 510, 514, 116, 402, 9999}; int t = T[c.choose(28, "type")]; if (t == m.e[i].type) c.skip(); m.e[i].type = t; static const int FM[] = {0, 1, 2, 15}; m.e[i].form = FM[c.choose(4, "form")]; in = synth(m); what = fmt("type %d", t); break; }
    }
    c.begin(); c.say(fmt("%s: %s", famName(f), what.c_str()));
    string file = c.scratch + "/x.igs", o = c.scratch + "/y.igs", o2 = c.scratch + "/z.igs"; spill(file, in);
    int nafter = kind >= 2 && kind != 5 ? 3 : 2, after = c.thorough ? c.choose(nafter, "afterwards") : (int)(mc::hstr(in) % nafter);
    {
        IGES g; c.site("read:" + what);
        bool ok = g.Read(file.c_str());
        if (ok) {
            c.outcome("accepted");
            c.site("use:" + what);
            if (after == 1) { g.Cull(); g.ConvertUnits(UNIT_INCH); g.ChangeModelScale(2.0); }
            else if (after == 2) { g.ConvertUnits(UNIT_KILOMETER); g.Cull(true); }
            c.site("write:" + what);
            bool w = g.Write(o.c_str(), true);
            if (w) {
                string out = slurp(o);
                try { parse(out); } catch (Bad& e) { if (e.key == "line-chars" && kind == 5) { c.outcome("control character kept in text"); c.skip(); } c.fail("ill-formed:" + e.key + ":" + what, "after reading a damaged file an ill-formed file is written: " + e.msg + "\n--- input\n" + in + "--- output\n" + out); }
                IGES h; c.site("reread:" + what);
                bool r = h.Read(o.c_str()); if (!r) c.fail("unreadable:" + what, "what is written after reading a damaged file cannot be read:\n" + in + "--- output\n" + out);
                c.site("destroy:" + what);
                c.outcome("written");
            }
            g.Write(o2.c_str(), true); g.Clear();
        } else {
            c.outcome("refused");
            if (after == 0) { // reuse
                c.site("reuse:" + what); g.Clear(); Model gm = small(4); string good = synth(gm); spill(file, good);
                bool r = g.Read(file.c_str()); c.check(r, "reuse:" + what, "after refusing a damaged file and Clear() a good file is refused");
                c.check(g.Write(o.c_str(), true), "reuse-write:" + what, "after refusing a damaged file a good file read is not written");
                static string ref; if (ref.empty()) { IGES h; h.Read(file.c_str()); h.Write(o2.c_str(), true); string t = slurp(o2); size_t p; while ((p = t.find("z.igs")) != string::npos) t.replace(p, 5, "y.igs"); ref = t; }
                c.check(slurp(o) == ref, "reuse-differs:" + what, "the refused file shows in what is written later:\n" + slurp(o) + "---\n" + ref);
            } else if (after == 1) { c.site("refused-write:" + what); g.Cull(); g.ConvertUnits(UNIT_INCH); g.Write(o.c_str(), true); }
        }
        c.site("destroy:" + what);
    }
    c.nontrivial(mc::hstr(in)); c.outcome(fmt("kind %d", kind));
}
MC_MAIN(explore, 3, 5)
