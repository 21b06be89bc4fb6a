// C15: definitions, measurements and splitting of line, arc and circle segments against exact plane geometry. Compiled with
// -fno-access-control so that reverse(), which the outline operations use, can be applied between the steps.
#include "seg.hpp"
#include <api/dll_mcad_segment.h>
using namespace geo; using std::string; using std::vector; using mc::fmt;
static const double TOL = 1e-7;
static bool near(P a, const MCAD_POINT& b) { return fabsl(a.x - b.x) < TOL && fabsl(a.y - b.y) < TOL && b.z == 0; }
static string pt(const MCAD_POINT& p) { return fmt("(%.9g,%.9g,%.9g)", p.x, p.y, p.z); }
// "" or how the segment differs from the curve; circles are drawn from the point to the right of the centre
static string differs(MCAD_SEGMENT& m, const S& s) {
    DLL_MCAD_SEGMENT w(false); if (!w.Attach(&m)) return "cannot be attached to a handle"; struct Off { DLL_MCAD_SEGMENT& w; ~Off() { w.Detach(); } } off{w};
    MCAD_SEGTYPE t, wt; int want = s.k == LINE ? MCAD_SEGTYPE_LINE : s.k == ARC ? MCAD_SEGTYPE_ARC : MCAD_SEGTYPE_CIRCLE; t = m.GetSegType(); if (t != want || !w.GetSegType(wt) || wt != t) return fmt("type %d", t);
    if (s.k != LINE) { double r; if (fabsl(m.GetRadius() - s.r()) > TOL) return fmt("radius %.12g", m.GetRadius()); if (!w.GetRadius(r) || r != m.GetRadius()) return "radius through the handle"; MCAD_POINT p; if (!near(s.c, m.GetCenter())) return "centre " + pt(m.GetCenter()); if (!w.GetCenter(p) || !near(s.c, p)) return "centre through the handle"; }
    P a = s.a, b = s.b; if (s.k == CIRCLE) a = b = s.c + P{s.r(), 0}; P ca = s.k == CIRCLE ? a : ccwStart(s), cb = s.k == CIRCLE ? b : ccwEnd(s);
    MCAD_POINT p, q; if (!near(ca, m.GetStart())) return "start " + pt(m.GetStart()); if (!near(cb, m.GetEnd())) return "end " + pt(m.GetEnd()); if (!near(a, m.GetMStart())) return "first point " + pt(m.GetMStart()); if (!near(b, m.GetMEnd())) return "last point " + pt(m.GetMEnd());
    if (!w.GetStart(p) || !near(ca, p) || !w.GetEnd(p) || !near(cb, p) || !w.GetFirstPoint(p) || !near(a, p) || !w.GetLastPoint(p) || !near(b, p)) return "end points through the handle";
    bool cw; if (m.IsCW() != s.cw || !w.IsCW(cw) || cw != s.cw) return "direction";
    if (s.k != LINE) { double x = m.GetStartAngle(), y = m.GetEndAngle(), u, v; if (!same(s.c + P{cosl(x), sinl(x)} * s.r(), ca)) return fmt("start angle %.9g", x); if (fabsl(y - x - sweep(s)) > TOL) return fmt("angles %.9g to %.9g", x, y); if (x <= -PI - 1e-6 || x > 3 * PI + 1e-6) return fmt("start angle %.9g out of range", x);
        if (!w.GetStartAngle(u) || !w.GetEndAngle(v) || u != x || v != y) return "angles through the handle"; if (m.GetMSAngle() != (s.cw ? y : x) || m.GetMEAngle() != (s.cw ? x : y)) return "angles of the first and last point"; if (!w.GetFirstAngle(u) || !w.GetLastAngle(v) || u != m.GetMSAngle() || v != m.GetMEAngle()) return "angles of the first and last point through the handle"; }
    double l = m.GetLength(), wl; if (fabsl(l - length(s)) > TOL) return fmt("length %.9g instead of %.9Lg", l, length(s)); if (!w.GetLength(wl) || wl != l) return "length through the handle";
    P mid = s.k == CIRCLE ? a : at(s, 0.5L); p = MCAD_POINT(9, 9, 9); if (!m.GetMidpoint(p) || !near(mid, p)) return "midpoint " + pt(p); q = MCAD_POINT(9, 9, 9); if (!w.GetMidpoint(q) || !near(mid, q)) return "midpoint through the handle";
    P lo{std::min(s.a.x, s.b.x), std::min(s.a.y, s.b.y)}, hi{std::max(s.a.x, s.b.x), std::max(s.a.y, s.b.y)};
    if (s.k != LINE) for (int k = 0; k < 4; k++) { static const P U[] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}}; P e = s.c + U[k] * s.r(); if (on(s, e)) { lo.x = std::min(lo.x, e.x); lo.y = std::min(lo.y, e.y); hi.x = std::max(hi.x, e.x); hi.y = std::max(hi.y, e.y); } }
    p = q = MCAD_POINT(9, 9, 9); if (!m.GetBoundingBox(p, q) || !near(lo, p) || !near(hi, q)) return "bounding box " + pt(p) + " " + pt(q); p = q = MCAD_POINT(9, 9, 9); if (!w.GetBoundingBox(p, q) || !near(lo, p) || !near(hi, q)) return "bounding box through the handle";
    return "";
}
static string undefined(MCAD_SEGMENT& m) {
    if (m.GetSegType() != MCAD_SEGTYPE_NONE) return "type"; if (m.GetLength() != 0) return "length"; MCAD_POINT p, q; if (m.GetMidpoint(p)) return "midpoint"; if (m.GetBoundingBox(p, q)) return "bounding box";
    MCAD_SEGMENT o; o.SetParams(MCAD_POINT(0, 0, 0), MCAD_POINT(1, 1, 0)); MCAD_INTERSECT_FLAG f; std::list<MCAD_POINT> l; if (m.GetIntersections(o, l, f) || o.GetIntersections(m, l, f) || !l.empty()) return "intersections"; l.push_back(MCAD_POINT(0, 0, 0)); std::list<MCAD_SEGMENT*> n; if (m.Split(l, n) || !n.empty()) return "split"; return "";
}
static P T(P p, int t) { switch (t) { case 1: return p * 0.1L + P{1000.5L, -333.25L}; case 2: return P{p.x * 0.6L - p.y * 0.8L, p.x * 0.8L + p.y * 0.6L}; case 3: return p * 100 + P{-0.1L, 7.3L}; case 4: return p * 25.4L + P{-3, -3}; case 5: return P{-0.0L - p.x, -0.0L - p.y}; } return p; }
static S T(S s, int t) { s.a = T(s.a, t); s.b = T(s.b, t); s.c = T(s.c, t); return s; }
static const char* KN[] = {"line", "arc", "circle"};
static void define(mc::Ctx& c) {
    int n = 4; auto lp = [&](int i) { return P{(ld)(i % n) - 1, (ld)(i / n) - 1}; };
    bool isArc = c.flip("arc"); int var = c.choose(isArc ? 8 : 3, "variant"), prior = c.choose(4, "prior"), i = isArc ? c.choose(n * n, "centre") : 0, j = c.choose(n * n, "start"), k = c.choose(n * n, "end"); bool cw = isArc && c.flip("cw"); c.begin(); c.site("define");
    MCAD_SEGMENT m; switch (prior) { case 1: m.SetParams(MCAD_POINT(5, 5, 0), MCAD_POINT(6, 7, 0)); break; case 2: m.SetParams(MCAD_POINT(5, 5, 0), MCAD_POINT(6, 5, 0), MCAD_POINT(5, 6, 0), true); break; case 3: m.SetParams(MCAD_POINT(5, 5, 0), MCAD_POINT(6, 5, 0), MCAD_POINT(6, 5, 0), true); break; }
    P a = lp(j), b = lp(k), ce = lp(i); ld dz[3] = {0, 0, 0}; bool ok = true, r; S s;
    if (!isArc) { if (var) dz[var - 1] = 0.5L; ok = !var && j != k; s = line(a, b); MCAD_POINT pa = mp(a), pb = mp(b); pa.z = (double)dz[0]; pb.z = (double)dz[1]; r = m.SetParams(pa, pb); }
    else {
        if (var >= 1 && var <= 3) { dz[var - 1] = -1; ok = false; } ld stretch = var == 4 ? 1e-10L : var == 5 ? -1e-10L : var == 6 ? 1e-6L : var == 7 ? -1e-6L : 0; P be = b; if (stretch != 0 && j != k && k != i) { P d = b - ce; be = b + d * (stretch / len(d)); if (var >= 6) ok = false; }
        if (i == j || i == k || fabsl(len(a - ce) - len(b - ce)) > 1e-6L) ok = false; s = j == k ? circle(ce, a) : arc(ce, a, be, cw); MCAD_POINT pc = mp(ce), pa = mp(a), pb = mp(be); pc.z = (double)dz[0]; pa.z = (double)dz[1]; pb.z = (double)dz[2]; r = m.SetParams(pc, pa, pb, cw);
    }
    string d = (isArc ? fmt("centre (%Lg,%Lg) ", ce.x, ce.y) : string()) + fmt("from (%Lg,%Lg) to (%Lg,%Lg) %s, variant %d over prior %d", a.x, a.y, b.x, b.y, cw ? "cw" : "", var, prior);
    if (r != ok) { c.fail(ok ? "a valid definition is refused" : "an invalid definition is accepted", d); return; }
    if (r) { string x = differs(m, s); if (!x.empty()) c.fail(fmt("defined %s: %s", KN[s.k], x.substr(0, x.find_first_of("(-0123456789")).c_str()), d + ": " + x); }
    else { string x = undefined(m); if (!x.empty()) c.fail("refused definition leaves: " + x, d); }
    c.outcome(r ? KN[s.k] : "refused"); c.nontrivial(mc::hstr(d)); c.transition();
}
static void split(mc::Ctx& c) {
    static vector<S> seg = segments(3), big = segments(4); const vector<S>& v = c.thorough ? big : seg;
    int t = c.choose(6, "transform"), i = c.choose((int)v.size(), "segment"); bool rev = c.flip("reversed"); S s = T(v[i], t); if (t == 5 && s.k == CIRCLE) { }
    static const ld U[] = {0, 0.25L, 0.5L, 0.75L, 1}; enum { NP = 7 }; auto point = [&](const S& s, int k) -> P { if (k < 5) return at(s, U[k]); P m = at(s, 0.5L); if (s.k == LINE) { P d = s.b - s.a; return k == 5 ? m + P{-d.y, d.x} * 1e-3L : s.b + d * 0.5L; } return k == 5 ? s.c + (m - s.c) * 1.001L : s.k == CIRCLE ? s.c : s.c + (s.c - m); };
    int n = c.choose(4, "points"); vector<int> ks; vector<P> ps; for (int k = 0; k < std::min(n, 2); k++) { ks.push_back(c.choose(NP, "point")); } if (n == 3) ks.push_back(2); int more = c.choose(4, "more"); bool rev2 = more && c.flip("reversed piece");
    c.begin(); c.site(fmt("split %s", KN[s.k])); MCAD_SEGMENT m; if (!set(m, s)) { c.fail("definition refused", str(s)); return; } string d = str(s);
    S cur = s; if (rev) { m.reverse(); cur = flip(s); d += " reversed"; } if (cur.k == CIRCLE) cur.a = cur.b = cur.c + P{cur.r(), 0}; for (int k : ks) ps.push_back(point(cur, k));
    for (auto& p : ps) d += fmt(" at (%.6Lg,%.6Lg)", p.x, p.y);
    // expectation
    bool off = false; vector<ld> us; vector<P> cut; for (size_t q = 0; q < ps.size(); q++) { if (isEnd(cur, ps[q])) continue; if (!on(cur, ps[q])) off = true; cut.push_back(ps[q]); us.push_back(ks[q] < 5 ? U[ks[q]] : 2); }
    bool dup = cut.size() == 2 && same(cut[0], cut[1]); bool ok = ps.size() <= 2 && !off && !cut.empty() && !(cur.k == CIRCLE && (cut.size() != 2 || dup)); bool either = dup && ok;   // the same point twice: refused or taken once
    std::list<MCAD_POINT> l; for (auto& p : ps) l.push_back(mp(p)); std::list<MCAD_SEGMENT*> nl; bool r = m.Split(l, nl); struct Del { std::list<MCAD_SEGMENT*>& l; ~Del() { for (auto* p : l) delete p; } } del{nl};
    if (!r) { if (ok && !either) c.fail(fmt("split %s: refused", KN[s.k]), d); string x = differs(m, cur); if (!x.empty() || !nl.empty()) c.fail(fmt("split %s: a refused split changes something", KN[s.k]), d + ": " + x); c.outcome("refused"); return; }
    if (!ok) { c.fail(fmt("split %s: accepted", KN[s.k]), d); return; }
    if (dup) { cut.pop_back(); us.pop_back(); } vector<S> want;
    if (cur.k == CIRCLE) want = {arc(cur.c, cut[1], cut[0], false), arc(cur.c, cut[0], cut[1], false)};
    else { if (cut.size() == 2 && us[0] > us[1]) std::swap(cut[0], cut[1]); vector<P> e = {cur.a}; for (auto& p : cut) e.push_back(p); e.push_back(cur.b); for (size_t q = 0; q + 1 < e.size(); q++) want.push_back(cur.k == LINE ? line(e[q], e[q + 1]) : arc(cur.c, e[q], e[q + 1], cur.cw)); }
    vector<MCAD_SEGMENT*> got = {&m}; for (auto* p : nl) got.push_back(p); if (got.size() != want.size()) { c.fail(fmt("split %s: number of pieces", KN[s.k]), d + fmt(": %zu", got.size())); return; }
    for (size_t q = 0; q < got.size(); q++) { string x = differs(*got[q], want[q]); if (!x.empty()) c.fail(fmt("split %s: piece %zu of %zu: %s", KN[s.k], q + 1, got.size(), x.substr(0, x.find_first_of("(-0123456789")).c_str()), d + " piece " + str(want[q]) + ": " + x); }
    c.transition();
    // a further step on one of the pieces
    if (more && more - 1 < (int)got.size()) {
        MCAD_SEGMENT& g = *got[more - 1]; S w = want[more - 1]; if (rev2) { g.reverse(); w = flip(w); string x = differs(g, w); if (!x.empty()) c.fail(fmt("reversed piece of a %s: %s", KN[s.k], x.substr(0, x.find_first_of("(-0123456789")).c_str()), d + ": " + x); }
        P p = at(w, 0.375L); std::list<MCAD_POINT> l2; l2.push_back(mp(p)); std::list<MCAD_SEGMENT*> n2; Del d2{n2}; d += fmt(", then piece %d%s at (%.6Lg,%.6Lg)", more, rev2 ? " reversed" : "", p.x, p.y); if (!g.Split(l2, n2) || n2.size() != 1) { c.fail(fmt("second split of a %s: refused", KN[s.k]), d); return; }
        S w1 = w.k == LINE ? line(w.a, p) : arc(w.c, w.a, p, w.cw), w2 = w.k == LINE ? line(p, w.b) : arc(w.c, p, w.b, w.cw); string x = differs(g, w1); if (x.empty()) x = differs(*n2.front(), w2); if (!x.empty()) c.fail(fmt("second split of a %s: %s", KN[s.k], x.substr(0, x.find_first_of("(-0123456789")).c_str()), d + ": " + x); c.transition();
    }
    c.outcome("split"); c.nontrivial(mc::hstr(d));
}
// through the handle, and measurements of all segments of the larger lattice
static void measure(mc::Ctx& c) {
    static vector<S> v = segments(c.thorough ? 6 : 5); int t = c.choose(6, "transform"), i = c.choose((int)v.size(), "segment"); bool rev = c.flip("reversed"); S s = T(v[i], t); c.begin(); c.site("measure");
    DLL_MCAD_SEGMENT h(true); bool ok = s.k == LINE ? h.SetParams(mp(s.a), mp(s.b)) : h.SetParams(mp(s.c), mp(s.a), mp(s.b), s.cw); string d = str(s); if (!ok) { c.fail("definition refused", d); return; } MCAD_SEGMENT* m = h.GetRawPtr(); h.Detach(); struct Del { MCAD_SEGMENT* p; ~Del() { delete p; } } del{m};
    if (rev) { m->reverse(); s = flip(s); d += " reversed"; } string x = differs(*m, s); if (!x.empty()) c.fail(fmt("%s: %s", KN[s.k], x.substr(0, x.find_first_of("(-0123456789")).c_str()), d + ": " + x);
    if (s.k == ARC) { h.Attach(m); P p = at(s, 0.3L); MCAD_POINT a = mp(p); MCAD_POINT* ip[1] = {&a}; MCAD_SEGMENT** out = NULL; int no = 0; bool r = h.Split(ip, 1, out, no); if (!r || no != 1 || !out) c.fail("split through the handle", d); else { string y = differs(*m, arc(s.c, s.a, p, s.cw)); if (y.empty()) y = differs(*out[0], arc(s.c, p, s.b, s.cw)); if (!y.empty()) c.fail("split through the handle", d + ": " + y); } for (int k = 0; out && k < no; k++) delete out[k]; delete[] out; h.Detach(); }
    c.outcome(KN[s.k]); c.nontrivial(mc::hstr(d)); c.transition();
}
static void explore(mc::Ctx& c) { switch (c.choose(3, "part")) { case 0: define(c); break; case 1: measure(c); break; default: split(c); } }
MC_MAIN(explore, 3, 20)
