// Builders of legal IGES models for every supported entity type, driven by a choice function.
#pragma once
#include "igs.hpp"
namespace igs {
typedef std::function<int(int, const char*)> Chooser;
struct B {
    Model m; Chooser ch; double mag = 1; int k = 0;
    B(Chooser c) : ch(c) {}
    double v() { ++k; double x = mag * (0.25 + 0.375 * k) * (k % 3 == 0 ? -1 : 1); return x; }
    double pv() { return fabs(v()); }
    int add(Ent e, bool child) { e.dep = child ? 1 : 0; m.e.push_back(e); return (int)m.e.size() - 1; }
    Ent& at(int i) { return m.e[i]; }
    // ---- leaves (child = physically dependent)
    int e100(bool c) { Ent e(100); double x = v(), y = v(), r = 3 * mag; e.pd = {L(v()), L(x), L(y), L(x + r), L(y), L(x), L(y - r)}; return add(e, c); }
    int circle(bool c) { Ent e(100); double x = v(), y = v(), r = 3 * mag; e.pd = {L(v()), L(x), L(y), L(x + r), L(y), L(x + r), L(y)}; return add(e, c); }
    int e110(bool c) { Ent e(110); for (int i = 0; i < 6; i++) e.pd.push_back(L(v())); return add(e, c); }
    int line(bool c, double x, double y, double z, double x2, double y2, double z2) { Ent e(110); e.pd = {L(x), L(y), L(z), L(x2), L(y2), L(z2)}; return add(e, c); }
    int e104(bool c, int form) {
        Ent e(104, form); double a = 2 * mag, b = 1 * mag;
        // canonical conics with their pre-scaled coefficients; kinds chosen so that a change of length unit is visible
        if (form == 1) e.pd = {R(1 / (a * a)), R(0), R(1 / (b * b)), R(0), R(0), Q(-1), L(v()), L(a), L(0), L(0), L(b)};
        else if (form == 2) e.pd = {R(1 / (a * a)), R(0), R(-1 / (b * b)), R(0), R(0), Q(-1), L(v()), L(a), L(0), L(a * 1.25), L(b * .75)};
        else e.pd = {R(1), R(0), R(0), R(0), L(-4 * b), Q(0), L(v()), L(0), L(0), L(2 * b), L(b)};
        return add(e, c);
    }
    int e124(int form, int parent = -1) {
        static const double M[][9] = {{1,0,0,0,1,0,0,0,1}, {0,-1,0,1,0,0,0,0,1}, {.6,-.8,0,.8,.6,0,0,0,1}, {1,0,0,0,0,-1,0,1,0}, {1,0,0,0,1,0,0,0,-1}};
        const double* r = M[form == 1 ? 4 : ch(4, "rotation")];
        Ent e(124, form); for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) e.pd.push_back(R(r[i * 3 + j])); e.pd.push_back(L(v())); }
        e.trans = parent; return add(e, true);
    }
    int e126(bool c, int deg, int n, bool rational, bool planar, bool param2d = false) {   // n+1 points
        Ent e(126, 0); int K = n, M = deg; auto LL = [&](double x) { return param2d ? R(x) : L(x); };
        e.pd = {I(K), I(M), I(planar), I(0), I(rational ? 0 : 1), I(0)};
        for (int i = 0; i <= K + M + 1; i++) e.pd.push_back(R(i <= M ? 0 : i > K ? 1 : (double)(i - M) / (K - M + 1)));
        for (int i = 0; i <= K; i++) e.pd.push_back(R(rational ? 1 + .5 * i : 1));
        for (int i = 0; i <= K; i++) { e.pd.push_back(LL(v())); e.pd.push_back(LL(v())); e.pd.push_back(param2d || planar ? L(0) : L(v())); }
        e.pd.push_back(R(0)); e.pd.push_back(R(1)); e.pd.push_back(R(0)); e.pd.push_back(R(0)); e.pd.push_back(R(1));
        return add(e, c);
    }
    int e128(bool c, int d1, int n1, int d2, int n2, bool rational) {
        Ent e(128, 0); e.pd = {I(n1), I(n2), I(d1), I(d2), I(0), I(0), I(rational ? 0 : 1), I(0), I(0)};
        auto kn = [&](int K, int M) { for (int i = 0; i <= K + M + 1; i++) e.pd.push_back(R(i <= M ? 0 : i > K ? 1 : (double)(i - M) / (K - M + 1))); };
        kn(n1, d1); kn(n2, d2); int C = (n1 + 1) * (n2 + 1);
        for (int i = 0; i < C; i++) e.pd.push_back(R(rational ? 1 + .25 * i : 1));
        for (int i = 0; i < 3 * C; i++) e.pd.push_back(L(v()));
        e.pd.push_back(R(0)); e.pd.push_back(R(1)); e.pd.push_back(R(0)); e.pd.push_back(R(1));
        return add(e, c);
    }
    int e102(bool c, int n) {
        vector<int> q; double x = v(), y = v(), z = v();
        for (int i = 0; i < n; i++) { double X = x + mag * (i + 1), Y = y + mag * (i % 2); q.push_back(line(true, x, y, z, X, Y, z)); x = X; y = Y; }
        Ent e(102); e.pd.push_back(I(n)); for (int i : q) e.pd.push_back(P(i)); return add(e, c);
    }
    Tok rl(Tok t) { if (t.k == 'L' || t.k == 'Q') t.k = 'R'; return t; }
    int dimensionless(int i) { at(i).use = 5; for (auto& t : at(i).pd) { t = rl(t); if (t.k == 'P') dimensionless((int)t.i); } return i; }
    int curve2d(int kind, int n = 0) {   // a curve in the parameter space of a surface
        switch (kind) {
        case 0: { int i = e126(true, 1, 2, false, false, true); at(i).use = 5; return i; }
        case 1: return dimensionless(line(true, 0, 0, 0, 1, .5, 0));
        case 2: { int l1 = line(true, 0, 0, 0, 1, .5, 0), l2 = line(true, 1, .5, 0, 2, 1, 0); Ent e(102); e.pd = {I(2), P(l1), P(l2)}; return dimensionless(add(e, true)); }
        case 3: { Ent e(100); e.pd = {L(0), L(1), L(2), L(4), L(2), L(1), L(5)}; return dimensionless(add(e, true)); }
        case 4: return dimensionless(e104(true, 1));
        case 5: { int a = line(true, 0, 0, 0, 1, 0, 0), b = line(true, 1, 0, 0, 1, 1, 0); Ent e(126, 0); e.pd = {I(1), I(1), I(1), I(0), I(1), I(0), R(0), R(0), R(1), R(1), R(1), R(1), R(1), R(1), R(0), R(2), R(2), R(0), R(0), R(1), R(0), R(0), R(1)}; int q = add(e, true); Ent f(102); f.pd = {I(3), P(a), P(b), P(q)}; return dimensionless(add(f, true)); }
        }
        return -1;
    }
    int e142(bool c, int surf, int kind, int crtn, int ck = 0) {   // kind 0 both, 1 B only, 2 C only
        int b = kind != 2 ? curve2d(ck) : -1;
        int cc = kind != 1 ? e126(true, 1, 2, false, false) : -1;
        Ent e(142); e.pd = {I(crtn), P(surf), P(b), P(cc), I(kind == 0 ? 3 : kind == 1 ? 1 : 2)}; return add(e, c);
    }
    int e144(bool c, int holes, int kind = 0) {
        int s = e128(true, 1, 1, 1, 1, false); vector<int> h; bool outer = kind != 3; if (!outer) kind = 0; int o = outer ? e142(true, s, kind, 1) : -1;   // 3: bounded by the surface itself
        for (int i = 0; i < holes; i++) h.push_back(e142(true, s, kind, 1));
        Ent e(144); e.pd = {P(s), I(outer), I(holes), P(o)}; for (int i : h) e.pd.push_back(P(i)); return add(e, c);
    }
    int e154(bool c) { Ent e(154); e.pd = {L(pv()), L(pv()), L(v()), L(v()), L(v()), R(0), R(.6), R(.8)}; return add(e, c); }
    int e164(bool c) { int p = circle(true); Ent e(164); e.pd = {P(p), L(pv()), R(.6), R(0), R(.8)}; return add(e, c); }
    int e308(bool c, int depth, const string& name, vector<int> kids) { Ent e(308); e.use = 2; e.pd = {I(depth), S(name), I(kids.size())}; for (int i : kids) e.pd.push_back(P(i)); return add(e, c); }
    int e314(const string& n) { Ent e(314); e.use = 2; e.pd = {R(12.5), R(50), R(100)}; e.pd.push_back(n.empty() ? D() : S(n)); return add(e, false); }
    int e406(const string& n) { Ent e(406, 15); e.pd = {I(1), S(n)}; return add(e, true); }
    int e408(bool c, int d, double s) { Ent e(408); e.pd = {P(d), L(v()), L(v()), L(v()), R(s)}; return add(e, c); }
    int e120(bool c) { int l = e110(true), g = e110(true); Ent e(120); e.pd = {P(l), P(g), R(.5), R(2.5)}; return add(e, c); }
    int e122(bool c) { int l = e110(true); Ent e(122); e.pd = {P(l), L(v()), L(v()), L(v())}; return add(e, c); }
    int e502(int n) { Ent e(502, 1); e.pd = {I(n)}; for (int i = 0; i < 3 * n; i++) e.pd.push_back(L(v())); return add(e, true); }
    int face(int surf, int nEdges, int nLoops, bool pcurves, bool outer) {
        vector<int> loops;
        for (int q = 0; q < nLoops; q++) {
            int vx = e502(nEdges); Ent E(504, 1); E.hier = 1; vector<int> cs;
            for (int i = 0; i < nEdges; i++) cs.push_back(e110(true));
            E.pd = {I(nEdges)}; for (int i = 0; i < nEdges; i++) { E.pd.push_back(P(cs[i])); E.pd.push_back(P(vx)); E.pd.push_back(I(i + 1)); E.pd.push_back(P(vx)); E.pd.push_back(I((i + 1) % nEdges + 1)); }
            int ed = add(E, true);
            vector<int> pc; if (pcurves) for (int i = 0; i < nEdges; i++) { pc.push_back(e126(true, 1, 1, false, false, true)); at(pc.back()).use = 5; }
            Ent Lp(508, 1); Lp.pd = {I(nEdges)};
            for (int i = 0; i < nEdges; i++) { Lp.pd.push_back(I(0)); Lp.pd.push_back(P(ed)); Lp.pd.push_back(I(i + 1)); Lp.pd.push_back(I(i % 2 == 0)); Lp.pd.push_back(I(pcurves)); if (pcurves) { Lp.pd.push_back(I(i % 2)); Lp.pd.push_back(P(pc[i])); } }
            loops.push_back(add(Lp, true));
        }
        Ent F(510, 1); F.pd = {P(surf), I(nLoops), I(outer)}; for (int i : loops) F.pd.push_back(P(i)); return add(F, true);
    }
    int e186(bool c, int nf, int ne, int nl, bool pc, int voids) {
        auto shell = [&]() { vector<int> f; for (int i = 0; i < nf; i++) { int s = e128(true, 1, 1, 1, 1, false); f.push_back(face(s, ne, nl, pc, i % 2 == 0)); } Ent e(514, 1); e.pd = {I(nf)}; for (int i = 0; i < nf; i++) { e.pd.push_back(P(f[i])); e.pd.push_back(I(i % 2)); } return add(e, true); };
        int s = shell(); vector<int> vs; for (int i = 0; i < voids; i++) vs.push_back(shell());
        Ent e(186); e.pd = {P(s), I(1), I(voids)}; for (int i = 0; i < voids; i++) { e.pd.push_back(P(vs[i])); e.pd.push_back(I(i % 2)); } return add(e, c);
    }
    int e180(bool c, int form) { // A op B (op C)
        int a = e154(true), b = e154(true), d = ch(2, "third operand") ? e154(true) : -1; Ent e(180, form); e.pd = {I(d < 0 ? 3 : 5), N(a), N(b), I(ch(3, "op") + 1)}; if (d >= 0) { e.pd.push_back(N(d)); e.pd.push_back(I(2)); } return add(e, c);
    }
};
// families: every supported entity type, with its options chosen by ch; returns index of the main entity
static const int NFAM = 25;
inline const char* famName(int f) { static const char* n[NFAM] = {"100 arc", "102 composite", "104 conic", "102 of mixed curves", "110 line", "120 revolution", "122 tabulated cylinder", "124 transform", "126 curve", "128 surface", "142 curve on surface", "144 trimmed surface", "154 cylinder", "164 extrusion", "180 boolean tree", "186 solid brep", "308 subfigure", "314 colour", "406 name", "408 instance", "504 edge list (brep)", "mixed", "nested subfigures", "shared colour", "142 of other curves"}; return n[f]; }
inline int family(B& b, int f, bool full = true) {
    auto ch = [&](int n, const char* l) { return full ? b.ch(n, l) : 0; };
    switch (f) {
    case 0: return ch(2, "closed") ? b.circle(false) : b.e100(false);
    case 1: return b.e102(false, ch(4, "curves") + 1);
    case 2: return b.e104(false, ch(3, "conic") + 1);
    case 3: { double x = b.v(), y = b.v(), z = b.v(), r = 2 * b.mag; vector<int> q; q.push_back(b.line(true, x - r, y - r, z, x + r, y, z));
        { Ent e(100); e.pd = {L(z), L(x), L(y), L(x + r), L(y), L(x), L(y + r)}; q.push_back(b.add(e, true)); }
        if (ch(2, "third curve")) { Ent e(126); e.pd = {I(1), I(1), I(0), I(0), I(1), I(0), R(0), R(0), R(1), R(1), R(1), R(1), L(x), L(y + r), L(z), L(x + 2 * r), L(y), L(z), R(0), R(1), R(0), R(0), R(1)}; q.push_back(b.add(e, true)); }
        Ent e(102); e.pd.push_back(I(q.size())); for (int i : q) e.pd.push_back(P(i)); return b.add(e, false); }
    case 4: return b.e110(false);
    case 5: return b.e120(false);
    case 6: return b.e122(false);
    case 7: { static const int F[] = {0, 1, 10, 11, 12}; int t = b.e124(F[ch(5, "form")]); if (ch(2, "chain")) t = b.e124(0, t); int l = b.e110(false); b.at(l).trans = t; return t; }
    case 8: { int d = ch(3, "degree") + 1; return b.e126(false, d, d + ch(3, "extra points"), ch(2, "rational"), ch(2, "planar")); }
    case 9: { int d1 = ch(2, "degree u") + 1, d2 = ch(2, "degree v") + 1; return b.e128(false, d1, d1 + ch(2, "extra u"), d2, d2 + ch(2, "extra v"), ch(2, "rational")); }
    case 10: { int s = b.e128(true, 1, 1, 1, 1, false); return b.e142(false, s, ch(3, "curves"), ch(4, "crtn")); }
    case 11: return b.e144(false, ch(3, "holes"), ch(4, "curves"));
    case 12: return b.e154(false);
    case 13: return b.e164(false);
    case 14: return b.e180(false, 0);
    case 15: { int nf = ch(2, "faces") + 1, ne = ch(3, "edges") + 1, nl = ch(2, "loops") + 1, pc = ch(2, "pcurves"), vo = ch(2, "voids"); return b.e186(false, nf, ne, nl, pc, vo); }
    case 16: { vector<int> k; int n = ch(3, "members"); for (int i = 0; i <= n; i++) k.push_back(i == 1 ? b.e100(true) : b.e110(true)); static const char* N[] = {"part", "x", "a name, with; delimiters and 3Hnum and long enough to need two lines of parameter data"}; int d = b.e308(true, 0, N[ch(3, "name")], k); b.e408(false, d, 1); return d; }
    case 17: { static const char* N[] = {"", "deep sky blue", "1,2;3H", "a colour name that is far too long to fit into the sixty-four columns of one line"}; int c = b.e314(N[ch(4, "name")]); int l = b.e110(false); b.at(l).color = Attr::p(c); return c; }
    case 18: { static const char* N[] = {"nm", "a property name that is longer than one whole line of parameter data (64)", "q,r;s"}; int p = b.e406(N[ch(3, "text")]); int l = b.e110(false); b.at(l).props.push_back(p); if (ch(2, "second")) { int p2 = b.e406("other"); b.at(l).props.push_back(p2); } return p; }
    case 19: { int l = b.e110(true); int d = b.e308(true, 0, "sub", {l}); static const double SC[] = {1, 2.5, .001}; int r = b.e408(false, d, SC[ch(3, "scale")]); if (ch(2, "two instances")) b.e408(false, d, 1); return r; }
    case 20: return b.e186(false, 1, 3, 1, true, 0) - 2;
    case 21: { int t = b.e144(false, 1); b.e100(false); b.e102(false, 3); int l = b.e110(true); int d = b.e308(true, 0, "mix", {l}); b.e408(false, d, 1); return t; }
    case 22: { int l = b.e110(true); int d = b.e308(true, 0, "inner", {l}); int i1 = b.e408(true, d, 1); int i2 = ch(2, "twice") ? b.e408(true, d, 1) : -1; int d2 = b.e308(true, 1, "outer", i2 < 0 ? vector<int>{i1} : vector<int>{i1, i2}); return b.e408(false, d2, 1); }
    case 24: { int s = b.e128(true, 1, 1, 1, 1, false); return b.e142(false, s, ch(2, "curves"), 1, ch(5, "curve in parameter space") + 1); }
    case 23: { int c = b.e314("shared"); int t = b.e124(0); int r = -1; for (int i = 0; i < 3; i++) { r = b.e110(false); b.at(r).color = Attr::p(c); if (i) b.at(r).trans = t; } return r; }
    }
    return -1;
}
}
