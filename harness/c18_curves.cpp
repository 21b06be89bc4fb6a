// C18: affine maps, chains of transformation entities, end points and definitions of every curve kind against independent arithmetic.
#include "lib.hpp"
#include <api/all_api_entities.h>
#include <api/dll_iges.h>
#include <geom/mcad_helpers.h>
#include <array>
#include <memory>
using std::string; using std::vector; using mc::fmt; typedef long double ld;
typedef std::array<ld, 3> V;
struct Aff { ld r[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, t[3] = {0, 0, 0}; };
static V app(const Aff& a, V p) { V q; for (int i = 0; i < 3; i++) { q[i] = a.t[i]; for (int j = 0; j < 3; j++) q[i] += a.r[i][j] * p[j]; } return q; }
static Aff mul(const Aff& a, const Aff& b) { Aff c; for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { c.r[i][j] = 0; for (int k = 0; k < 3; k++) c.r[i][j] += a.r[i][k] * b.r[k][j]; } c.t[i] = a.t[i]; for (int k = 0; k < 3; k++) c.t[i] += a.r[i][k] * b.t[k]; } return c; }
static MCAD_TRANSFORM lib(const Aff& a) { MCAD_MATRIX m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m.v[i][j] = (double)a.r[i][j]; return MCAD_TRANSFORM(m, MCAD_POINT((double)a.t[0], (double)a.t[1], (double)a.t[2])); }
static const ld EPS = 1e-11L;
static bool eq(ld a, double b, ld e = EPS) { return fabsl(a - b) <= e * std::max((ld)1, fabsl(a)); }
static bool eq(const V& a, const MCAD_POINT& p, ld e = EPS) { return eq(a[0], p.x, e) && eq(a[1], p.y, e) && eq(a[2], p.z, e); }
static bool eq(const Aff& a, const MCAD_MATRIX& m) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (!eq(a.r[i][j], m.v[i][j])) return false; return true; }
static bool eq(const Aff& a, const MCAD_TRANSFORM& t) { return eq(a, t.R) && eq(V{a.t[0], a.t[1], a.t[2]}, t.T); }
static string str(const V& v) { return fmt("(%Lg,%Lg,%Lg)", v[0], v[1], v[2]); }
static string str(const MCAD_POINT& v) { return fmt("(%.12g,%.12g,%.12g)", v.x, v.y, v.z); }
static MCAD_POINT mp(const V& v) { return MCAD_POINT((double)v[0], (double)v[1], (double)v[2]); }
static const int NG = 14;
static Aff gen(int k) {
    Aff a; auto R = [&](std::array<ld, 9> m) { for (int i = 0; i < 9; i++) a.r[i / 3][i % 3] = m[i]; };
    switch (k) { case 0: break; case 1: R({0, -1, 0, 1, 0, 0, 0, 0, 1}); break; case 2: R({1, 0, 0, 0, 0, -1, 0, 1, 0}); break; case 3: R({0, 0, 1, 1, 0, 0, 0, 1, 0}); break; case 4: R({-1, 0, 0, 0, 1, 0, 0, 0, 1}); break;
    case 5: R({2, 0, 0, 0, 2, 0, 0, 0, 2}); break; case 6: R({0.5L, 0, 0, 0, 3, 0, 0, 0, -1}); break; case 7: R({1, 0.25L, 0, 0, 1, -2, 0, 0, 1}); break; case 8: a.t[0] = 1; a.t[1] = -2; a.t[2] = 0.5L; break; case 9: a.t[2] = 1000.25L; break;
    case 10: R({0.6L, -0.8L, 0, 0.8L, 0.6L, 0, 0, 0, 1}); a.t[0] = 0.1L; break; case 11: R({0, 1, 0, 1, 0, 0, 0, 0, -1}); a.t[1] = 7; break; case 12: R({1, 2, 3, 4, 5, 6, 7, 8, 10}); a.t[0] = -1; a.t[1] = 2; a.t[2] = -3; break; case 13: R({0, 0, 0, 0, 0, 0, 0, 0, 0}); a.t[0] = 5; break; }
    for (auto& x : a.r) for (auto& y : x) y = (double)y; for (auto& y : a.t) y = (double)y; return a;
}
static const V PTS[] = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1.5L, -2, 3}, {-1000, 0.125L, 7}};
// ---- algebra
static void products(mc::Ctx& c) {
    int n = c.thorough ? 4 : 3; vector<Aff> g; string d; for (int i = 0; i < n; i++) { int k = c.choose(NG, "map"); g.push_back(gen(k)); d += fmt(" g%d", k); } c.begin(); c.site("products");
    Aff w; for (auto& a : g) w = mul(w, a); MCAD_TRANSFORM l, r, s; for (auto& a : g) { l = l * lib(a); s *= lib(a); } r = lib(g.back()); for (int i = n - 2; i >= 0; i--) r = lib(g[i]) * r;
    c.check(eq(w, l), "product of maps", d); c.check(eq(w, s), "product of maps in place", d); c.check(eq(w, r), "product of maps grouped the other way", d);
    MCAD_MATRIX m, m2; for (auto& a : g) { m = m * lib(a).R; m2 *= lib(a).R; } c.check(eq(w, m) && eq(w, m2), "product of matrices", d);
    MCAD_TRANSFORM dbl = lib(w); dbl *= dbl; c.check(eq(mul(w, w), dbl), "a map multiplied by itself in place", d); MCAD_MATRIX md = lib(w).R; md *= md; c.check(eq(mul(w, w), md), "a matrix multiplied by itself in place", d);
    for (auto& p : PTS) { V q = app(w, p); MCAD_POINT a = l * mp(p), b = mp(p), e = l.R * mp(p); for (int i = n - 1; i >= 0; i--) b = lib(g[i]) * b; c.check(eq(q, a, 1e-10L), "composed map of a point", d + " of " + str(p) + " is " + str(a) + " not " + str(q)); c.check(eq(q, b, 1e-10L), "maps of a point in turn", d + " of " + str(p)); Aff z = w; z.t[0] = z.t[1] = z.t[2] = 0; c.check(eq(app(z, p), e, 1e-10L), "matrix times point", d); }
    c.outcome("product"); c.transition(); c.nontrivial(mc::hstr(d));
}
static void sums(mc::Ctx& c) {
    static const ld S[] = {0, 1, -1, 2, 0.5L, 1000}; int i = c.choose(NG, "first"), j = c.choose(NG, "second"), k = c.choose(6, "scalar"); c.begin(); c.site("sums"); Aff a = gen(i), b = gen(j), p, q, u; string d = fmt("g%d g%d scalar %Lg", i, j, S[k]); double s = (double)S[k];
    for (int x = 0; x < 3; x++) { for (int y = 0; y < 3; y++) { p.r[x][y] = a.r[x][y] + b.r[x][y]; q.r[x][y] = a.r[x][y] - b.r[x][y]; u.r[x][y] = a.r[x][y] * S[k]; } p.t[x] = a.t[x] + b.t[x]; q.t[x] = a.t[x] - b.t[x]; u.t[x] = a.t[x] * S[k]; }
    MCAD_MATRIX A = lib(a).R, B = lib(b).R, M; c.check(eq(p, A + B), "matrix sum", d); c.check(eq(q, A - B), "matrix difference", d); M = A; M += B; c.check(eq(p, M), "matrix sum in place", d); M = A; M -= B; c.check(eq(q, M), "matrix difference in place", d);
    c.check(eq(u, A * s) && eq(u, s * A), "matrix times scalar", d); M = A; M *= s; c.check(eq(u, M), "matrix times scalar in place", d); M = A; M -= M; c.check(eq(M.v[0][0] * M.v[0][0], 0) && eq(M.v[2][1], 0), "matrix minus itself", d); c.check(eq(a, A) && eq(b, B), "an operand changes", d);
    MCAD_TRANSFORM T = lib(a), X = s * T; c.check(eq(u, X), "scalar times map", d); X = T; X *= s; c.check(eq(u, X), "map times scalar in place", d); c.check(eq(a, T), "an operand changes", d);
    MCAD_POINT P = lib(a).T, Q = lib(b).T, R; auto v = [](const Aff& f) { return V{f.t[0], f.t[1], f.t[2]}; }; c.check(eq(v(p), P + Q), "point sum", d); c.check(eq(v(q), P - Q), "point difference", d); c.check(eq(v(u), P * s) && eq(v(u), s * P), "point times scalar", d); R = P; R += Q; c.check(eq(v(p), R), "point sum in place", d); R = P; R -= Q; c.check(eq(v(q), R), "point difference in place", d); R = P; R *= s; c.check(eq(v(u), R), "point times scalar in place", d); R = P; R += R; c.check(eq(2 * a.t[0], R.x) && eq(2 * a.t[1], R.y) && eq(2 * a.t[2], R.z), "point added to itself", d); c.check(eq(v(a), P) && eq(v(b), Q), "an operand changes", d);
    c.outcome("sum"); c.transition(); c.nontrivial(mc::hstr(d));
}
// ---- curves with chains of transforms
static const char* KIND[] = {"arc", "conic", "line", "B-spline", "composite"};
struct Curve { IGES_CURVE* e; V a, b; };
static IGES_ENTITY* make(IGES& g, int type) { IGES_ENTITY* e = NULL; if (!g.NewEntity(type, &e)) return NULL; return e; }
static Curve curve(mc::Ctx& c, IGES& g, int kind) {
    Curve r{}; switch (kind) {
    case 0: { auto* e = (IGES_ENTITY_100*)make(g, 100); e->zOffset = 2; e->xCenter = 1; e->yCenter = -1; e->xStart = 4; e->yStart = 3; e->xEnd = -3; e->yEnd = 2; r = {e, {4, 3, 2}, {-3, 2, 2}}; break; }
    case 1: { auto* e = (IGES_ENTITY_104*)make(g, 104); e->A = 1; e->C = 4; e->F = -4; e->X1 = 2; e->Y1 = 0; e->X2 = 0; e->Y2 = 1; e->ZT = -3; r = {e, {2, 0, -3}, {0, 1, -3}}; break; }
    case 2: { auto* e = (IGES_ENTITY_110*)make(g, 110); e->X1 = 1; e->Y1 = 2; e->Z1 = 3; e->X2 = -4; e->Y2 = 5; e->Z2 = 6.5; r = {e, {1, 2, 3}, {-4, 5, 6.5L}}; break; }
    case 3: { auto* e = (IGES_ENTITY_126*)make(g, 126); double k[] = {0, 0, 0, 1, 1, 1}, w = sqrt(0.5), q[] = {1, 0, 5, 1, 1, 1, 5, w, 0, 1, 5, 1}; if (!e->SetNURBSData(3, 3, k, q, true, 0, 1)) c.fail("B-spline refused", "quarter circle"); r = {e, {1, 0, 5}, {0, 1, 5}}; break; }
    case 4: { Curve p = curve(c, g, 2), q = curve(c, g, 0); auto* e = (IGES_ENTITY_102*)make(g, 102); auto* t = (IGES_ENTITY_124*)make(g, 124); t->T = lib(gen(1)); if (!q.e->SetTransform(t)) c.fail("transform refused", "member"); if (!e->AddSegment(p.e) || !e->AddSegment(q.e)) c.fail("segment refused", "line and arc"); r = {e, p.a, q.b}; break; }
    } return r;
}
static bool points(mc::Ctx& c, IGES_CURVE* e, int kind, V a, V b, const Aff& t, const string& d, ld tol = 1e-10L) {
    bool ok = true; auto bad = [&](const string& k, const string& m) { ok = false; c.fail(string(KIND[kind]) + ": " + k, d + ": " + m); };
    static IGES* const NOG = NULL; std::unique_ptr<DLL_IGES_CURVE> w; switch (kind) { case 0: w.reset(new DLL_IGES_ENTITY_100(NOG, false)); break; case 1: w.reset(new DLL_IGES_ENTITY_104(NOG, false)); break; case 2: w.reset(new DLL_IGES_ENTITY_110(NOG, false)); break; case 3: w.reset(new DLL_IGES_ENTITY_126(NOG, false)); break; default: w.reset(new DLL_IGES_ENTITY_102(NOG, false)); } if (!w->Attach(e)) bad("handle", "cannot attach");
    for (int xf = 0; xf < 2; xf++) {
        V wa = a, wb = b; if (kind == 4 && xf) wb = app(gen(1), b); if (xf) { wa = app(t, wa); wb = app(t, wb); } MCAD_POINT p(9, 9, 9), q(9, 9, 9); const char* n = xf ? "transformed" : "plain";
        if (!e->GetStartPoint(p, xf) || !eq(wa, p, tol)) bad(fmt("%s start point", n), str(p) + " instead of " + str(wa)); if (!e->GetEndPoint(q, xf) || !eq(wb, q, tol)) bad(fmt("%s end point", n), str(q) + " instead of " + str(wb)); MCAD_POINT hp(9, 9, 9), hq(9, 9, 9);
        if (!w->GetStartPoint(hp, xf) || !w->GetEndPoint(hq, xf) || hp.x != p.x || hp.y != p.y || hp.z != p.z || hq.x != q.x || hq.y != q.y || hq.z != q.z) bad(fmt("%s points through the handle", n), str(hp) + str(hq));
    } w->Detach(); return ok;
}
static void chain(mc::Ctx& c) {
    int kind = c.choose(5, "kind"), n = c.choose(c.thorough ? 5 : 4, "depth"); bool file = c.flip("through a file"); vector<int> k; for (int i = 0; i < n; i++) k.push_back(i > 1 ? 1 + 3 * c.choose(4, "map") : c.choose(NG - 1, "map")); c.begin(); c.site("chain");
    IGES g; g.globalData.minResolution = 1e-9; Curve u = curve(c, g, kind); IGES_ENTITY* last = u.e; Aff t; string d = fmt("%s with chain", KIND[kind]);
    for (int i : k) { auto* x = (IGES_ENTITY_124*)make(g, 124); if (file && i > 3 && i != 11) x->SetEntityForm(0); DLL_IGES_ENTITY_124 h((IGES*)NULL, false); h.Attach(x); MCAD_TRANSFORM m = lib(gen(i)); if (!h.SetRootTransform(m)) c.fail("transform refused", d); h.Detach(); if (!last->SetTransform(x)) c.fail("transform refused", d); last = x; t = mul(gen(i), t); d += fmt(" g%d", i); }
    points(c, u.e, kind, u.a, u.b, t, d);
    IGES_ENTITY* p = NULL; Aff q; bool has = u.e->GetTransform(&p); if (has != (n > 0)) c.fail("whether there is a transform", d); if (p) { MCAD_TRANSFORM o; DLL_IGES_ENTITY_124 h((IGES*)NULL, false); h.Attach(p); if (!h.GetOverallTransform(o) || !eq(t, o)) c.fail("overall transform of a chain", d); MCAD_TRANSFORM r; if (!h.GetRootTransform(r) || !eq(gen(k[0]), r)) c.fail("own transform of a chain", d); h.Detach(); }
    c.transition(); if (file) { string f = c.scratch + "/a.igs"; if (!g.Write(f.c_str(), true)) { c.fail("not written", d); return; } IGES h; if (!h.Read(f.c_str())) { c.fail("not read back", d); return; }
        static const int T[] = {100, 104, 110, 126, 102}; IGES_CURVE* e = NULL; for (auto* i : h.entities) if (i->GetEntityType() == T[kind]) e = (IGES_CURVE*)i; if (!e) c.fail("the curve is missing from the file", d); else points(c, e, kind, u.a, u.b, t, d + " read back", 1e-6L); c.validated(); c.transition(); }
    c.outcome(fmt("%s, chain of %d", KIND[kind], n)); c.nontrivial(mc::hstr(d)); c.state(mc::hstr(d));
}
// histories of attaching and detaching transforms
static void rechain(mc::Ctx& c) {
    int n = c.thorough ? 4 : 3; static const int G[] = {1, 8, 6}; IGES g; Curve u = curve(c, g, 2); IGES_ENTITY* e[4] = {u.e}; int par[4] = {-1, -1, -1, -1}; Aff m[4]; for (int i = 1; i < 4; i++) { auto* x = (IGES_ENTITY_124*)make(g, 124); m[i] = gen(G[i - 1]); x->T = lib(m[i]); e[i] = x; } string d;
    for (int s = 0; s < n; s++) {
        int op = c.choose(20, "operation"); if (s == n - 1) c.begin(); c.site("rechain"); int a = op / 5, b = op % 5 - 1; 
        if (b == 3) { /* change the map */ if (a == 0) { m[1] = mul(m[1], gen(8)); } else m[a] = mul(gen(3), m[a]); int x = a ? a : 1; ((IGES_ENTITY_124*)e[x])->T = lib(m[x]); d += fmt(" map%d", x); }
        else { int t = b < 0 ? -1 : b + 1; bool cyc = false; for (int x = t; x >= 0; x = par[x]) if (x == a) cyc = true; bool r = e[a]->SetTransform(t < 0 ? NULL : e[t]); d += fmt(" %d->%d", a, t); if (r == cyc) c.fail(cyc ? "a circular chain is accepted" : "a transform is refused", d); if (!cyc) par[a] = t; }
        Aff w; for (int x = par[0]; x >= 0; x = par[x]) w = mul(m[x], w); points(c, u.e, 2, u.a, u.b, w, d);
        for (int x = 0; x < 4; x++) { IGES_ENTITY* p = (IGES_ENTITY*)1; bool r = e[x]->GetTransform(&p); IGES_ENTITY* want = par[x] < 0 ? NULL : e[par[x]]; if (r != (want != NULL) || (r && p != want)) c.fail("the transform of an entity", d + fmt(" entity %d", x)); } c.transition();
    }
    c.outcome("rechained"); c.state(mc::hstr(d)); c.nontrivial(mc::hstr(d));
}
// ---- definitions
static void simple(mc::Ctx& c) {
    int kind = c.choose(3, "kind"), i = c.choose(9, "p"), j = c.choose(9, "q"), k = kind == 0 ? c.choose(9, "centre") : 0, z = c.choose(3, "z"), via = c.choose(2, "interface"); c.begin(); c.site("simple"); auto L = [](int i) { return V{(ld)(i % 3) - 1, (ld)(i / 3) - 1, 0}; };
    V a = L(i), b = L(j), e = L(k); ld Z = z * 1.5L - 1.5L; a[2] = b[2] = e[2] = Z; if (kind == 2) b[2] = -Z + 1; string d = fmt("%s from ", KIND[kind]) + str(a) + " to " + str(b) + " centre " + str(e); IGES g; IGES_CURVE* x = NULL; MCAD_POINT p, q, r;
    IGES* dg = &g;
    if (kind == 0) { DLL_IGES_ENTITY_100 h(dg, true); bool ok = via ? h.SetCircleCenter(mp(e)) && h.SetCircleStart(mp(a)) && h.SetCircleEnd(mp(b)) : h.SetCircleCenter((double)e[0], (double)e[1], (double)e[2]) && h.SetCircleStart((double)a[0], (double)a[1]) && h.SetCircleEnd((double)b[0], (double)b[1]); double f[9]; if (!ok || !h.GetCircleCenter(r) || !h.GetCircleStart(p) || !h.GetCircleEnd(q) || !h.GetCircleCenter(f[0], f[1], f[2]) || !h.GetCircleStart(f[3], f[4], f[5]) || !h.GetCircleEnd(f[6], f[7], f[8])) c.fail("arc: interface refuses", d); else if (!eq(e, r) || !eq(a, p) || !eq(b, q) || !eq(e, MCAD_POINT(f[0], f[1], f[2])) || !eq(a, MCAD_POINT(f[3], f[4], f[5])) || !eq(b, MCAD_POINT(f[6], f[7], f[8]))) c.fail("arc: parameters read back", d);
        x = (IGES_CURVE*)h.GetRawPtr(); if (h.IsClosed() != (i == j && i != k)) c.fail("arc: closed", d); h.Detach(); }
    if (kind == 1) { DLL_IGES_ENTITY_104 h(dg, true); bool ok = via ? h.SetConicStart(mp(a)) && h.SetConicEnd(mp(b)) : h.SetConicStart((double)a[0], (double)a[1], (double)a[2]) && h.SetConicEnd((double)b[0], (double)b[1]); double f[6]; ok = ok && h.SetConicParams(1, 0, 2, 0, 0, -2); if (!ok || !h.GetConicStart(p) || !h.GetConicEnd(q) || !h.GetConicStart(f[0], f[1], f[2]) || !h.GetConicEnd(f[3], f[4], f[5])) c.fail("conic: interface refuses", d); else if (!eq(a, p) || !eq(b, q) || !eq(a, MCAD_POINT(f[0], f[1], f[2])) || !eq(b, MCAD_POINT(f[3], f[4], f[5]))) c.fail("conic: parameters read back", d); x = (IGES_CURVE*)h.GetRawPtr(); if (h.IsClosed() != (i == j)) c.fail("conic: closed", d); h.Detach(); }
    if (kind == 2) { DLL_IGES_ENTITY_110 h(dg, true); bool ok = via ? h.SetLineStart(mp(a)) && h.SetLineEnd(mp(b)) : h.SetLineStart((double)a[0], (double)a[1], (double)a[2]) && h.SetLineEnd((double)b[0], (double)b[1], (double)b[2]); double f[6]; if (!ok || !h.GetLineStart(p) || !h.GetLineEnd(q) || !h.GetLineStart(f[0], f[1], f[2]) || !h.GetLineEnd(f[3], f[4], f[5])) c.fail("line: interface refuses", d); else if (!eq(a, p) || !eq(b, q) || !eq(a, MCAD_POINT(f[0], f[1], f[2])) || !eq(b, MCAD_POINT(f[3], f[4], f[5]))) c.fail("line: parameters read back", d); x = (IGES_CURVE*)h.GetRawPtr(); if (h.IsClosed()) c.fail("line: closed", d); h.Detach(); }
    if (x) points(c, x, kind, a, b, Aff(), d); c.outcome(KIND[kind]); c.transition(); c.nontrivial(mc::hstr(d));
}
// conics: kind from the coefficients, by exact integer determinants
static void conic(mc::Ctx& c) {
    static const int W[] = {0, 1, -1, 2}; int f[6]; for (int i = 0; i < 6; i++) f[i] = W[c.choose(4, "coefficient")]; bool closed = c.flip("same ends"); c.begin(); c.site("conic"); string d = fmt("%d %d %d %d %d %d", f[0], f[1], f[2], f[3], f[4], f[5]);
    long A = f[0], B = f[1], C = f[2], D = f[3], E = f[4], F = f[5], q2 = 4 * A * C - B * B, q1 = 8 * A * C * F + 2 * B * D * E - 2 * A * E * E - 2 * C * D * D - 2 * F * B * B, q3 = A + C; int want = q2 > 0 && q1 * q3 < 0 ? 1 : q2 < 0 && q1 ? 2 : !q2 && q1 ? 3 : 0;
    IGES g; auto* e = (IGES_ENTITY_104*)make(g, 104); e->A = A; e->B = B; e->C = C; e->D = D; e->E = E; e->F = F; e->X1 = 1; e->Y1 = 2; e->X2 = closed ? 1 : 3; e->Y2 = 2; c.check(e->IsClosed() == (want == 1 && closed), "conic: closed", d); c.outcome(fmt("form %d", want)); c.transition();
    int idx = 1; if (want) { bool r = e->format(idx); c.check(r && e->GetEntityForm() == want, "conic: form", fmt("%s is %d not %d", d.c_str(), e->GetEntityForm(), want)); } c.nontrivial(mc::hstr(d));
}
// ---- B-splines
struct N { int n, o; vector<double> k; vector<V> p; vector<ld> w; bool rat; double v0, v1; string d; vector<double> co() const { vector<double> r; for (int i = 0; i < n; i++) { for (ld x : p[i]) r.push_back((double)x); if (rat) r.push_back((double)w[i]); } return r; } };
static V deboor(const N& s, ld t) {
    int p = s.o - 1, k = p; while (k < s.n - 1 && !(t < s.k[k + 1])) k++; while (k > p && s.k[k] == s.k[k + 1]) k--; typedef std::array<ld, 4> H; vector<H> h; for (int i = 0; i <= p; i++) { int q = k - p + i; ld w = s.rat ? s.w[q] : 1; h.push_back({s.p[q][0] * w, s.p[q][1] * w, s.p[q][2] * w, w}); }
    for (int r = 1; r <= p; r++) for (int j = p; j >= r; j--) { ld den = (ld)s.k[j + 1 + k - r] - s.k[j + k - p], al = den == 0 ? 0 : (t - s.k[j + k - p]) / den; for (int x = 0; x < 4; x++) h[j][x] = (1 - al) * h[j - 1][x] + al * h[j][x]; } return {h[p][0] / h[p][3], h[p][1] / h[p][3], h[p][2] / h[p][3]};
}
static const int NPT = 9;
static V cpoint(int cfg, int i) { switch (cfg) {
    case 0: return {(ld)i, (ld)(i * i), 0}; case 1: return {(ld)i, 0, 2 * (ld)i}; case 2: return {3, (ld)i, (ld)(i * i % 5)}; case 3: return {(ld)i, (ld)(i * i), (ld)(i * i * i)}; case 4: return {i < 3 ? (ld)i : 2, i < 3 ? 0 : (ld)i - 2, i < 3 ? 0 : 2 * (ld)i - 4};
    case 5: return {(ld)(i / 2), (ld)(i / 2), (ld)(i & 1 ? 0 : i / 2 * 3)}; case 6: return {1e-4L * i, 0, 1e-4L * (i * i)}; case 7: return {1e4L + i, (ld)(i & 1), 1e4L}; default: return {(ld)(i > 1), (ld)(i > 2), (ld)(i > 3)}; } }
static N spline(mc::Ctx& c, bool brief) {
    N s; s.o = brief ? 2 + c.choose(2, "order") : 2 + c.choose(c.thorough ? 5 : 3, "order"); s.n = s.o + c.choose(brief ? 2 : c.thorough ? 4 : 3, "more points"); int kk = c.choose(brief ? 2 : 4, "knots"), pc = brief ? c.choose(3, "points") : c.choose(NPT, "points"), wc = c.choose(brief ? 2 : 4, "weights"), vr = brief ? 0 : c.choose(4, "range"); if (brief && wc) wc = 2; if (kk == 2 && s.n < s.o + 2) kk = 3; int p = s.o - 1;
    int inner = s.n - s.o; for (int i = 0; i < s.n + s.o; i++) { double v = i <= p ? 0 : i >= s.n ? inner + 1 : i - p; if (kk == 1) v = i; if (kk == 2 && i == p + 2 && i < s.n) v = s.k.back(); if (kk == 3) v = -1 + v * 0.37; s.k.push_back(v); }
    s.rat = wc > 0; for (int i = 0; i < s.n; i++) { s.p.push_back(cpoint(pc, i)); for (auto& x : s.p.back()) x = (double)x; s.w.push_back(wc < 2 ? 1 : wc == 2 ? (i % 3 == 0 ? 1 : i % 3 == 1 ? 0.5L : 3) : 2); }
    double a = s.k[p], b = s.k[s.n]; s.v0 = vr & 1 ? a + (b - a) * 0.25 : a; s.v1 = vr & 2 ? a + (b - a) * 0.625 : b; s.d = fmt("order %d, %d points, knots %d, points %d, weights %d, range %d", s.o, s.n, kk, pc, wc, vr); return s;
}
static int planeRank(const N& s, V& n) { // exact enough: the lattices are far from degenerate unless exactly so
    ld best = 0, len = 0; V b{}; for (auto& p : s.p) for (auto& q : s.p) for (auto& r : s.p) { V u, v; for (int i = 0; i < 3; i++) { u[i] = q[i] - p[i]; v[i] = r[i] - p[i]; len = std::max(len, fabsl(u[i])); } V x{u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]}; ld l = sqrtl(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]); if (l > best) { best = l; b = {x[0] / l, x[1] / l, x[2] / l}; } }
    if (best <= 1e-6L * len * len) return 1; n = b; for (auto& p : s.p) { ld h = 0; for (int i = 0; i < 3; i++) h += b[i] * (p[i] - s.p[0][i]); if (fabsl(h) > 1e-6L * len) return 3; } return 2;
}
static void holds(mc::Ctx& c, IGES_ENTITY_126* e, const N& s, const string& when) {
    DLL_IGES_ENTITY_126 h((IGES*)NULL, false); h.Attach(e); int n = 7, o = 7; double *k = NULL, *q = NULL, v0 = 9, v1 = 9; bool rat = !s.rat, cl, per; if (!h.GetNURBSData(n, o, &k, &q, rat, cl, per, v0, v1)) { c.fail("B-spline: data cannot be retrieved" + when, s.d); h.Detach(); return; }
    vector<double> co = s.co(); if (n != s.n || o != s.o || rat != s.rat || v0 != s.v0 || v1 != s.v1 || !k || !q) c.fail("B-spline: data differ" + when, s.d); else { if (vector<double>(k, k + n + o) != s.k) c.fail("B-spline: knots differ" + when, s.d); if (vector<double>(q, q + co.size()) != co) c.fail("B-spline: control points differ" + when, s.d); }
    points(c, e, 3, deboor(s, s.v0), deboor(s, s.v1), Aff(), s.d + when, 1e-9L); bool pl, ra; if (!h.IsRational(ra) || ra != s.rat) c.fail("B-spline: rational" + when, s.d); V nn{}; int r = planeRank(s, nn); if (!h.IsPlanar(pl) || pl != (r == 2)) c.fail("B-spline: planar" + when, s.d + fmt(": %d, rank %d", pl, r));
    MCAD_POINT m; bool gn = h.GetNormal(m); if (r == 2) { ld dt = fabsl(m.x * nn[0] + m.y * nn[1] + m.z * nn[2]), l = (ld)m.x * m.x + (ld)m.y * m.y + (ld)m.z * m.z; if (!gn || fabsl(dt - 1) > 1e-6L || fabsl(l - 1) > 1e-6L) c.fail("B-spline: normal of its plane" + when, s.d + " " + str(m)); } h.Detach();
}
static void nurbs(mc::Ctx& c) {
    N s = spline(c, false); c.begin(); c.site("nurbs"); IGES g; auto* e = (IGES_ENTITY_126*)make(g, 126); vector<double> co = s.co(); if (!e->SetNURBSData(s.n, s.o, s.k.data(), co.data(), s.rat, s.v0, s.v1)) c.fail("B-spline: refused", s.d); else { holds(c, e, s, ""); c.transition(); }
    c.outcome(s.rat ? "rational" : "polynomial"); c.nontrivial(mc::hstr(s.d)); c.state(mc::hstr(s.d));
}
// histories of definitions: valid, invalid, with questions in between
static void redefine(mc::Ctx& c) {
    N a; bool has = c.flip("defined before"); if (has) a = spline(c, true); bool ask = c.flip("asked in between"); N b = spline(c, true); int bad = c.choose(18, "flaw"); int again = c.choose(2, "once more"); c.begin(); c.site("redefine");
    IGES g; auto* e = (IGES_ENTITY_126*)make(g, 126); DLL_IGES_ENTITY_126 h((IGES*)NULL, false); h.Attach(e); auto set = [&](const N& s) { vector<double> co = s.co(); return h.SetNURBSData(s.n, s.o, s.k.data(), co.data(), s.rat, s.v0, s.v1); };
    if (has && !set(a)) { c.fail("B-spline: refused", a.d); h.Detach(); return; } if (has && ask) holds(c, e, a, " at first"); vector<double> co = b.co(), k = b.k; int n = b.n, o = b.o; bool rat = b.rat; double v0 = b.v0, v1 = b.v1; const double *kp = k.data(), *cp = co.data(); bool ok = false;
    switch (bad) { case 0: ok = true; break; case 1: kp = NULL; break; case 2: cp = NULL; break; case 3: o = 1; break; case 4: o = 0; break; case 5: n = o - 1; break; case 6: v0 = k[0] - 1; break; case 7: v0 = k.back(); v1 = k.back() + 1; break; case 8: v1 = v0; break; case 9: v1 = v0 - 0.5; break; case 10: v1 = k.back() + 0.001; break; case 11: k[o] = k[o - 1] - 0.5; break; case 12: std::swap(k[0], k.back()); v0 = k.back(); v1 = k[0]; break;
    case 13: if (rat) co[3] = 0; else ok = true; break; case 14: if (rat) co.back() = -1; else ok = true; break; case 15: k[o] = NAN; break; case 16: o = -1; break; case 17: n = -3; break; }
    if (bad == 13 || bad == 14) cp = co.data(); string d = (has ? a.d : string("undefined")) + " then " + b.d + fmt(" flaw %d", bad); bool r = h.SetNURBSData(n, o, kp, cp, rat, v0, v1); if (r != ok) { c.fail(ok ? "B-spline: refused" : "B-spline: an inconsistent definition is accepted", d); h.Detach(); return; }
    for (int i = 0; i <= again; i++) { if (ok) { b.d = d; holds(c, e, b, " after another definition"); } else if (has) { a.d = d; holds(c, e, a, " after a refused definition"); } else { int x, y; double *p = (double*)1, *q = (double*)1, u, v; bool f1, f2, f3; if (h.GetNURBSData(x, y, &p, &q, f1, f2, f3, u, v) || p || q) c.fail("B-spline: data of an undefined curve", d); MCAD_POINT pt; if (e->GetStartPoint(pt, true) || e->GetEndPoint(pt, true)) c.fail("B-spline: end points of an undefined curve", d); } if (again && has) { if (!set(a)) c.fail("B-spline: refused", a.d); ok = false; } else break; }
    h.Detach(); c.outcome(ok ? "redefined" : "refused"); c.transition(); c.nontrivial(mc::hstr(d)); c.state(mc::hstr(d));
}
// surfaces keep what they are given
static void surface(mc::Ctx& c) {
    int o1 = 2 + c.choose(2, "order 1"), n1 = o1 + c.choose(2, "more 1"), o2 = 2 + c.choose(3, "order 2"), n2 = o2 + c.choose(2, "more 2"); bool rat = c.flip("rational"), p1 = c.flip("periodic 1"), p2 = c.flip("periodic 2"), pre = c.flip("defined before"); int bad = c.choose(22, "flaw"); c.begin(); c.site("surface"); IGES g; auto* e = (IGES_ENTITY_128*)make(g, 128); DLL_IGES_ENTITY_128 h((IGES*)NULL, false); h.Attach(e); string d = fmt("orders %d %d, points %d %d, rational %d, periodic %d %d, before %d, flaw %d", o1, o2, n1, n2, rat, p1, p2, pre, bad);
    struct D { int n1, n2, o1, o2; vector<double> k1, k2, co; bool rat, p1, p2; double u0, u1, v0, v1; }; auto def = [](int n1, int n2, int o1, int o2, bool rat, bool p1, bool p2, double s) { D d{n1, n2, o1, o2, {}, {}, {}, rat, p1, p2, s, s + n1 - o1 + 1, 0, n2 - o2 + 0.5}; for (int i = 0; i < n1 + o1; i++) d.k1.push_back(s + (i < o1 ? 0 : i >= n1 ? n1 - o1 + 1 : i - o1 + 1)); for (int i = 0; i < n2 + o2; i++) d.k2.push_back(i < o2 ? 0 : i >= n2 ? n2 - o2 + 1 : i - o2 + 1); for (int i = 0; i < n1 * n2; i++) { d.co.push_back(i % n1 + s); d.co.push_back(i / n1); d.co.push_back(i * 0.5); if (rat) d.co.push_back(1 + i % 3); } return d; };
    auto set = [&](const D& q, const double* k1, const double* k2, const double* co) { return h.SetNURBSData(q.n1, q.n2, q.o1, q.o2, k1, k2, co, q.rat, q.p1, q.p2, q.u0, q.u1, q.v0, q.v1); };
    D a = def(3, 2, 2, 2, !rat, true, false, 5), b = def(n1, n2, o1, o2, rat, p1, p2, 0), w = b; if (pre && !set(a, a.k1.data(), a.k2.data(), a.co.data())) c.fail("B-spline surface: refused", d); bool ok = false; const double *k1 = w.k1.data(), *k2 = w.k2.data(), *co = w.co.data();
    switch (bad) { case 0: ok = true; break; case 1: k1 = NULL; break; case 2: k2 = NULL; break; case 3: co = NULL; break; case 4: w.o1 = 1; break; case 5: w.o2 = 1; break; case 6: w.n1 = w.o1 - 1; break; case 7: w.n2 = w.o2 - 1; break; case 8: w.u0 = -1; break; case 9: w.u0 = w.u1 = w.k1.back(); break; case 10: w.u1 = w.u0; break; case 11: w.u1 = w.k1.back() + 1; break; case 12: w.v0 = -1; break; case 13: w.v0 = w.v1 = w.k2.back(); break; case 14: w.v1 = w.v0; break; case 15: w.v1 = w.k2.back() + 1; break;
    case 16: w.k1[o1] = -1; break; case 17: w.k2[o2] = -1; break; case 18: if (rat) w.co[3] = 0; else ok = true; break; case 19: if (rat) w.co.back() = -2; else ok = true; break; case 20: w.o1 = -2; break; case 21: w.n2 = 0; break; }
    bool r = set(w, k1, k2, co); if (r != ok) { c.fail(ok ? "B-spline surface: refused" : "B-spline surface: an inconsistent definition is accepted", d); h.Detach(); return; }
    D q{}; double *x = (double*)1, *y = (double*)1, *z = (double*)1; bool c1, c2; bool got = h.GetNURBSData(q.n1, q.n2, q.o1, q.o2, &x, &y, &z, q.rat, c1, c2, q.p1, q.p2, q.u0, q.u1, q.v0, q.v1); if (got != (ok || pre)) c.fail("B-spline surface: whether there is data", d);
    if (got && x && y && z) { const D& s = ok ? b : a; if (q.n1 != s.n1 || q.n2 != s.n2 || q.o1 != s.o1 || q.o2 != s.o2 || q.rat != s.rat || q.p1 != s.p1 || q.p2 != s.p2 || q.u0 != s.u0 || q.u1 != s.u1 || q.v0 != s.v0 || q.v1 != s.v1) c.fail("B-spline surface: data differ", d); else if (vector<double>(x, x + s.k1.size()) != s.k1 || vector<double>(y, y + s.k2.size()) != s.k2) c.fail("B-spline surface: knots differ", d); else if (vector<double>(z, z + s.co.size()) != s.co) c.fail("B-spline surface: control points differ", d); }
    h.Detach(); c.outcome(ok ? "surface" : "surface refused"); c.transition(); c.nontrivial(mc::hstr(d));
}
// ---- composite curves
static void composite(mc::Ctx& c) {
    int n = c.thorough ? 5 : 4; vector<int> k; for (int i = 0; i < n; i++) k.push_back(c.choose(9, "segment")); int own = c.choose(c.thorough ? 8 : 4, "members with a transform of their own"); c.begin(); c.site("composite"); IGES g; auto line = [&](V a, V b) { auto* e = (IGES_ENTITY_110*)make(g, 110); e->X1 = (double)a[0]; e->Y1 = (double)a[1]; e->Z1 = (double)a[2]; e->X2 = (double)b[0]; e->Y2 = (double)b[1]; e->Z2 = (double)b[2]; return e; };
    V A{0, 0, 0}, B{2, 0, 0}, C{0, 2, 1}; struct It { IGES_CURVE* e; V a, b; int kind; }; vector<It> pool; pool.push_back({line(A, B), A, B, 0}); pool.push_back({line(B, C), B, C, 0}); pool.push_back({line(C, A), C, A, 0}); { auto* e = (IGES_ENTITY_100*)make(g, 100); e->xCenter = 1; e->xStart = 2; e->xEnd = 0; pool.push_back({e, B, A, 0}); } { auto* e = (IGES_ENTITY_100*)make(g, 100); e->xCenter = 1; e->xStart = 2; e->xEnd = 2; pool.push_back({e, B, B, 0}); }
    { auto* e = line(V{-2, 0, 0}, V{0, 1, 3}); auto* t = (IGES_ENTITY_124*)make(g, 124); t->T = lib(gen(4)); e->SetTransform(t); pool.push_back({e, V{2, 0, 0}, V{0, 1, 3}, 0}); } { auto* e = (IGES_ENTITY_126*)make(g, 126); double kn[] = {0, 0, 1, 2, 2}, q[] = {0, 0, 0, 5, 5, 5, 2, 0, 0}; e->SetNURBSData(3, 2, kn, q, false, 0, 2); pool.push_back({e, A, B, 0}); } { auto* e = (IGES_ENTITY_102*)make(g, 102); e->AddSegment(line(A, C)); pool.push_back({e, A, C, 1}); } pool.push_back({NULL, A, A, 2});
    { Aff inv; inv.t[0] = -3; inv.t[1] = 1; inv.t[2] = -2; Aff fwd; fwd.t[0] = 3; fwd.t[1] = -1; fwd.t[2] = 2; for (int i = 0; i < 3; i++) if (own >> (c.thorough ? i : i == 0 ? 7 : i - 1) & 1) { auto* e = (IGES_ENTITY_110*)pool[i].e; V p = app(inv, pool[i].a), q = app(inv, pool[i].b); e->X1 = (double)p[0]; e->Y1 = (double)p[1]; e->Z1 = (double)p[2]; e->X2 = (double)q[0]; e->Y2 = (double)q[1]; e->Z2 = (double)q[2]; auto* t = (IGES_ENTITY_124*)make(g, 124); t->T = lib(fwd); e->SetTransform(t); } }
    auto* u = (IGES_ENTITY_102*)make(g, 102); DLL_IGES_ENTITY_102 h((IGES*)NULL, false); h.Attach(u); vector<int> in; string d = fmt("own %d:", own); auto same = [](const V& a, const V& b) { return a == b; }; auto closed = [&]() { if (in.empty() || (in.size() == 1 && in[0] != 3 && in[0] != 4)) return false; return same(pool[in[0]].a, pool[in.back()].b); };
    for (int i = 0; i < n; i++) { It& t = pool[k[i]]; d += fmt(" %d", k[i]); bool want = t.kind == 0 && !closed(), has = std::count(in.begin(), in.end(), k[i]); bool r = i & 1 ? u->AddSegment(t.e) : h.AddSegment(t.e); if (r != want) { c.fail(want ? "composite: a segment is refused" : "composite: an invalid segment is accepted", d); break; } if (r && !has) in.push_back(k[i]);
        MCAD_POINT p(9, 9, 9), q(9, 9, 9); bool sp = u->GetStartPoint(p, true), ep = u->GetEndPoint(q, true); if (sp != !in.empty() || ep != !in.empty()) c.fail("composite: whether there are end points", d); else if (sp && (!eq(pool[in[0]].a, p) || !eq(pool[in.back()].b, q))) c.fail("composite: end points", d); if (h.IsClosed() != closed() || u->IsClosed() != closed()) c.fail("composite: closed", d); if (u->GetNCurves() != (int)in.size() || u->GetNSegments() != (int)in.size()) c.fail("composite: number of segments", d); else for (size_t x = 0; x < in.size(); x++) if (u->GetCurve((int)x) != pool[in[x]].e) c.fail("composite: order of the segments", d); if (u->GetCurve((int)in.size()) || u->GetCurve(-1)) c.fail("composite: a segment out of range", d); c.transition(); }
    h.Detach(); c.outcome(fmt("%d segments", (int)in.size())); c.state(mc::hstr(d)); c.nontrivial(mc::hstr(d));
}
static void explore(mc::Ctx& c) {
    switch (c.choose(10, "part")) { case 0: return products(c); case 1: return sums(c); case 2: return chain(c); case 3: return rechain(c); case 4: return simple(c); case 5: return conic(c); case 6: return nurbs(c); case 7: return redefine(c); case 8: return surface(c); default: return composite(c); }
}
MC_MAIN(explore, 3, 30)
