// C05: every sequence of link, relink, unlink and delete operations over a small population of each entity family, compared
// after every step (all accessors of all entities, and which entities exist) with a reference model of the links.
#include "refmodel.hpp"
using namespace ref;
static string fmt(const char* f, ...) { char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static const int FAM[] = {102, 120, 122, 142, 144, 164, 180, 308, 408, 504, 508, 510, 124, 406};
enum { NF = 14 };
// builds the population; returns the operations of the family
static vector<Op> populate(World& w, int T, bool) {
    vector<Op> o; vector<int> P, kids; auto N = [&](int t) { return w.add(t); };
    int np = T == 308 || T == 124 || T == 180 ? 3 : 2; for (int i = 0; i < np; i++) P.push_back(N(T));
    auto line = [&](double a, double b, double c, double d) { int k = N(110); auto* l = (IGES_ENTITY_110*)w.e[k]; l->X1 = a; l->Y1 = b; l->X2 = c; l->Y2 = d; return k; };
    auto arc = [&](bool closed) { int k = N(100); auto* a = (IGES_ENTITY_100*)w.e[k]; a->X2 = 1; a->X3 = closed ? 1 : 0; a->Y3 = closed ? 0 : 1; return k; };
    auto surf = [&]() { int k = N(128); double kn[] = {0, 0, 1, 1}, c[] = {0, 0, 0, 1, 0, 0, 0, 1, 0, 1, 1, 0}; ((IGES_ENTITY_128*)w.e[k])->SetNURBSData(2, 2, 2, 2, kn, kn, c, false, false, false, 0, 1, 0, 1); return k; };
    auto all = [&](char k, std::initializer_list<int> a, int b = 0) { for (int p : P) for (int x : a) if (x != -3) o.push_back({k, p, x, b, 0, 0, ""}); };
    int l1 = -3, l2 = -3;
    switch (T) {
    case 102: { l1 = line(0, 0, 1, 0); l2 = line(1, 0, 1, 1); int l3 = line(1, 1, 0, 0); all('s', {l1, l2, l3, -1}); o.push_back({'s', P[0], P[1], 0, 0, 0, ""}); o.push_back({'s', P[0], P[0], 0, 0, 0, ""}); kids = {l1, l2, l3}; break; }
    case 120: { l1 = line(0, 0, 1, 0); l2 = line(1, 0, 1, 1); int a = arc(false); all('L', {l1, l2, a, -1}); all('C', {l1, l2, a, -1}); kids = {l1, l2, a}; break; }
    case 122: { l1 = line(0, 0, 1, 0); int a = arc(false); all('D', {l1, a, -1}); kids = {l1, a}; break; }
    case 142: { l1 = line(0, 0, 1, 0); l2 = line(1, 0, 1, 1); int s = surf(), u = N(122); all('S', {s, u, -1}); all('B', {l1, l2, -1}); all('K', {l1, l2, -1}); o.push_back({'S', P[0], P[1], 0, 0, 0, ""}); o.push_back({'S', P[0], P[0], 0, 0, 0, ""}); o.push_back({'B', P[1], P[0], 0, 0, 0, ""}); kids = {l1, l2, s, u}; break; }
    case 144: { int s = surf(), u = N(122), a = N(142), b = N(142); all('U', {s, u, -1}); all('O', {a, b, -1}); all('I', {a, b, -1}); all('J', {a, b, -1}); o.push_back({'U', P[0], P[0], 0, 0, 0, ""}); kids = {s, u, a, b}; break; }
    case 164: { int a = arc(true), b = arc(true); l1 = line(0, 0, 1, 0); all('R', {a, b}, 1); all('R', {l1, -1}, 0); kids = {a, b, l1}; break; }
    case 180: { int a = N(154), b = N(164); l1 = line(0, 0, 1, 0); all('a', {a, b, P[0], P[1], P[2], l1, -1}); all('o', {0, 1, 3, 4}); all('z', {0}); kids = {a, b, l1}; break; }
    case 308: { l1 = line(0, 0, 1, 0); int a = N(408), b = N(144); all('d', {l1, a, b, P[0], P[1], P[2], -1}); all('q', {l1, a, P[0], P[1], P[2], -1}); for (int p : P) o.push_back({'D', a, p, 0, 0, 0, ""}); o.push_back({'D', a, -1, 0, 0, 0, ""}); kids = {l1, a, b}; break; }
    case 408: { int a = N(308), b = N(308); l1 = line(0, 0, 1, 0); all('D', {a, b, l1, -1}); for (int d : {a, b}) for (int p : P) { o.push_back({'d', d, p, 0, 0, 0, ""}); o.push_back({'q', d, p, 0, 0, 0, ""}); } o.push_back({'d', a, b, 0, 0, 0, ""}); o.push_back({'d', b, a, 0, 0, 0, ""}); kids = {a, b, l1}; break; }
    case 504: { l1 = line(0, 0, 1, 0); l2 = line(1, 0, 1, 1); int a = N(502), b = N(502), bad = N(128); for (int v : {a, b}) ((IGES_ENTITY_502*)w.e[v])->AddVertex(MCAD_POINT(1, 2, 3));
        for (int p : P) { for (int c : {l1, l2}) for (int s : {a, b}) for (int t : {a, b}) o.push_back({'E', p, c, s, t, 1, ""}); for (auto q : vector<Ints>{{-1, a, a, 1}, {bad, a, a, 1}, {l1, -1, a, 1}, {l1, a, -1, 1}, {l1, a, a, 2}, {l2, a, b, 0}}) o.push_back({'E', p, q[0], q[1], q[2], q[3], ""}); } kids = {l1, l2, a, b}; break; }
    case 508: { l1 = line(0, 0, 1, 0); l2 = line(1, 0, 1, 1); int a = N(504), b = N(504), v = N(502); for (int p : P) { for (int e : {a, b}) for (auto q : vector<Ints>{{-2, -2}, {l1, -2}, {l2, -2}, {l1, l2}}) o.push_back({'P', p, e, q[0], q[1], e == b, ""}); for (auto q : vector<Ints>{{-1, -2, -2}, {a, l1, l1}, {a, -1, -2}, {a, l1, -1}, {l1, -2, -2}, {v, -2, -2}}) o.push_back({'P', p, q[0], q[1], q[2], 0, ""}); } kids = {l1, l2, a, b, v}; break; }
    case 510: { int s = surf(), u = N(122), a = N(508), b = N(508); l1 = line(0, 0, 1, 0); all('F', {s, u, l1, -1}); all('f', {a, b, -1}); kids = {s, u, a, b}; break; }
    case 124: for (int p : P) for (int q : P) o.push_back({'t', p, q, 0, 0, 0, ""}); all('t', {-1}); l1 = line(0, 0, 1, 0); for (int p : P) o.push_back({'t', l1, p, 0, 0, 0, ""}); o.push_back({'t', l1, -1, 0, 0, 0, ""}); kids = {l1}; break;
    case 406: { l1 = line(0, 0, 1, 0); l2 = line(1, 0, 1, 1); for (int l : {l1, l2}) { for (int p : P) { o.push_back({'+', l, p, 0, 0, 0, ""}); o.push_back({'-', l, p, 0, 0, 0, ""}); } o.push_back({'+', l, -1, 0, 0, 0, ""}); o.push_back({'+', l, l1, 0, 0, 0, ""}); } o.push_back({'+', P[0], P[1], 0, 0, 0, ""}); o.push_back({'+', P[1], P[0], 0, 0, 0, ""}); o.push_back({'+', P[0], P[0], 0, 0, 0, ""}); kids = {l1, l2}; break; }
    }
    int col = N(314), x1 = N(124), pr = N(406); ((IGES_ENTITY_406*)w.e[pr])->SetEntityForm(15); ((IGES_ENTITY_406*)w.e[pr])->SetData("n");
    for (int i = 0; i < 2; i++) { int p = P[i]; if (T != 124 && T != 406) { o.push_back({'c', p, col, 0, 0, 0, ""}); o.push_back({'c', p, -1, 0, 0, 0, ""}); o.push_back({'t', p, x1, 0, 0, 0, ""}); } o.push_back({'+', p, pr, 0, 0, 0, ""}); if (i == 0) { o.push_back({'-', p, pr, 0, 0, 0, ""}); if (T != 124 && T != 406) { o.push_back({'t', p, -1, 0, 0, 0, ""}); o.push_back({'c', p, kids[0], 0, 0, 0, ""}); } } }
    for (int p : P) o.push_back({'x', p, -1, 0, 0, 0, ""}); for (int k : kids) o.push_back({'x', k, -1, 0, 0, 0, ""}); o.push_back({'x', col, -1, 0, 0, 0, ""}); o.push_back({'x', x1, -1, 0, 0, 0, ""}); o.push_back({'x', pr, -1, 0, 0, 0, ""});
    for (auto& q : o) { q.n = string(1, q.k) + " " + w.what(q.p); if (q.k != 'x' && q.k != 'z') q.n += q.k == 'o' ? fmt(" operator %d", q.a) : " " + w.what(q.a); if (q.k == 'E' || q.k == 'P') q.n += fmt(" (%d %d %d)", q.b, q.c, q.d); }
    return o;
}
// attributes which a type ignores by documentation: the model takes no transform or colour there
static bool takes(int T, char k) { if (k == 't') return T != 308 && T != 504 && T != 508 && T != 510 && T != 502 && T != 406 && T != 314; if (k == 'c') return T != 308 && T != 504 && T != 508 && T != 510 && T != 502 && T != 406 && T != 124; return true; }
static void explore(mc::Ctx& c) {
    int fi = c.choose(NF, "family"), T = FAM[fi]; static vector<Op> O[NF]; if (O[fi].empty()) { IGES g; World w(&g); O[fi] = populate(w, T, true); }
    const vector<Op>& ops = O[fi]; int n = (int)ops.size(), depth = c.thorough ? 4 : 3; vector<int> seq;
    for (int d = 0; d < depth; d++) { int j = c.choose(n + (d > 0), "operation"); if (j == n) break; seq.push_back(j); }
    // the last step of a longest sequence only matters when it touches what the earlier ones set up
    if ((int)seq.size() == depth && depth > 2) { std::set<int> t; auto put = [&](const Op& q) { t.insert(q.p); if (q.a >= 0 && q.k != 'o') t.insert(q.a); }; for (int i = 0; i + 1 < depth; i++) put(ops[seq[i]]); const Op& z = ops[seq.back()]; if (!t.count(z.p) && !(z.a >= 0 && t.count(z.a))) c.skip(); }
    int end = (int)seq.size() == depth && !c.thorough ? (seq[0] + 3 * seq[1] + 7 * seq[2]) % 6 : c.choose(6, "ending");
    IGES g; { World w(&g); populate(w, T, true); string hist = fmt("%d:", T); uint64_t sh = 0;
    auto verify = [&](const char* op) { string s = w.compare(); if (!s.empty()) c.fail(fmt("links:%d:%s", T, op), hist + ": " + s); };
    verify("start");
    for (int j : seq) {
        const Op& o = ops[j]; if (!takes(w.type[o.p], o.k)) { w.alive[o.p] ? (void)0 : (void)0; if (!w.alive[o.p]) continue; Links before = w.L[o.p]; Did r = apply(w, o); w.L[o.p] = w.get(o.p); hist += "; " + o.n + fmt(" =%d", r.got); (void)before; verify(string(1, o.k).c_str()); continue; }
        string site = fmt("%d:%c", T, o.k); c.site(site); Did r = apply(w, o); if (r.skip) continue; hist += "; " + o.n + fmt(" =%d", r.got); c.say(hist); c.transition();
        c.check(r.want < 0 || r.got == (r.want == 1), "result:" + site, hist + fmt(": should have been %s", r.want == 1 ? "accepted" : "refused"));
        verify(string(1, o.k).c_str()); c.outcome(r.got ? "accepted" : "refused");
        sh = 0; for (size_t i = 0; i < w.e.size(); i++) sh = sh * 1000003 + (w.alive[i] ? mc::hstr(ref::show(w.L[i])) : 7); c.state(sh + T); c.validated();
    }
    c.site(fmt("%d:ending%d", T, end));
    switch (end) {
    case 0: break;
    case 1: for (size_t i = 0; i < w.e.size(); i++) if (w.alive[i]) { w.kill((int)i); g.DelEntity(w.e[i]); hist += "; x " + w.what((int)i); c.say(hist); verify("teardown"); } break;
    case 2: for (size_t i = w.e.size(); i-- > 0;) if (w.alive[i]) { w.kill((int)i); g.DelEntity(w.e[i]); hist += "; x " + w.what((int)i); c.say(hist); verify("teardown"); } break;
    case 3: { hist += "; cull of all without parents"; c.say(hist); w.cull(true); g.Cull(true); verify("cull"); break; }   // who is known to have a parent
    case 4: { hist += "; first parent taken out of the model, model cleared"; c.say(hist); if (!w.alive[0]) break; g.UnlinkEntity(w.e[0]); for (size_t i = 1; i < w.e.size(); i++) if (w.alive[i]) w.kill((int)i); g.Clear(); verify("clear"); delete w.e[0]; w.kill(0); verify("clear"); break; }
    }
    if (end == 5) { hist += "; write"; c.say(hist); w.cull(false); string f = c.scratch + "/o.igs"; bool ok = g.Write(f.c_str(), true); verify("write"); if (ok) { IGES r; c.check(r.Read(f.c_str()), fmt("unreadable:%d", T), hist + ": the file written cannot be read"); } c.outcome(ok ? "written" : "not written"); }
    c.nontrivial(mc::hstr(hist)); c.outcome(fmt("family %d", T)); }
    c.site(fmt("%d:destruction", T));
}
MC_MAIN(explore, 2, 10)
