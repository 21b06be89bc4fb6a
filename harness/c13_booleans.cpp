// C13: union and difference of closed outlines. Every result is read back as a chain of segments and compared with the exact regions;
// chains of operations use the (verified) result of the first as an operand of the second.
#include "outline.hpp"
using namespace geo; using std::string; using std::vector; using mc::fmt;
static Chain read(MCAD_OUTLINE& o) { Chain ch; for (auto* s : *o.GetSegments()) { P a = pm(s->GetMStart()), b = pm(s->GetMEnd()), c = pm(s->GetCenter()); ch.push_back(s->GetSegType() == MCAD_SEGTYPE_LINE ? line(a, b) : s->GetSegType() == MCAD_SEGTYPE_ARC ? arc(c, a, b, s->IsCW()) : circle(c, a)); } return ch; }
static MCAD_OUTLINE* made(const Chain& ch) { MCAD_OUTLINE* o = new MCAD_OUTLINE; bool e; for (auto& s : ch) { MCAD_SEGMENT* m = new MCAD_SEGMENT; if (!set(*m, s) || !o->AddSegment(m, e)) { delete m; break; } } return o; }
// "" or why the chain is not a simple counter-clockwise boundary
static string improper(const Chain& ch) {
    if (ch.empty()) return "no segments"; if (ch.size() == 1) return ch[0].k == CIRCLE ? "" : "one segment"; size_t n = ch.size();
    for (size_t i = 0; i < n; i++) { if (ch[i].k == CIRCLE) return "a circle among others"; if (!same(ch[i].b, ch[(i + 1) % n].a)) return "gap"; }
    for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) { Truth t = meet(ch[i], ch[j]); if (!t.edges.empty() || t.ident) return "overlapping segments"; for (auto& p : t.pts) { bool ok = (j == i + 1 && same(p, ch[i].b, 1e-6L)) || (i == 0 && j == n - 1 && same(p, ch[0].a, 1e-6L)); if (!ok) return "crosses or touches itself"; } }
    return area2(ch) > 0 ? "" : "clockwise";
}
struct Box { ld x0, y0, x1, y1; };
static Box box(const Chain& ch) { Box b{1e9L, 1e9L, -1e9L, -1e9L}; for (auto& s : ch) { ld r = s.k == LINE ? 0 : s.r(); for (P p : {s.a, s.b}) { b.x0 = std::min(b.x0, p.x); b.x1 = std::max(b.x1, p.x); b.y0 = std::min(b.y0, p.y); b.y1 = std::max(b.y1, p.y); } if (s.k != LINE) { b.x0 = std::min(b.x0, s.c.x - r); b.x1 = std::max(b.x1, s.c.x + r); b.y0 = std::min(b.y0, s.c.y - r); b.y1 = std::max(b.y1, s.c.y + r); } } return b; }
static bool onChain(const Chain& ch, P p) { return distance(ch, p) < 1e-6L; }
// "" or a point where the region of R is not that of A op B; op 0: R == A, 1: union, 2: difference
static string compare(const Chain& R, const Chain& A, const Chain& B, int op) {
    Box a = box(A), b = op ? box(B) : a; ld x0 = std::min(a.x0, b.x0) - 0.1L, x1 = std::max(a.x1, b.x1) + 0.1L, y0 = std::min(a.y0, b.y0) - 0.1L, y1 = std::max(a.y1, b.y1) + 0.1L; const int G = op ? 13 : 9;
    for (int i = 0; i <= G; i++) for (int j = 0; j <= G; j++) { P p{x0 + (x1 - x0) * (i + 0.013L) / G, y0 + (y1 - y0) * (j + 0.029L) / G}; if (distance(A, p) < 1e-4L || (op && distance(B, p) < 1e-4L)) continue; bool w = inside(A, p); if (op == 1) w = w || inside(B, p); if (op == 2) w = w && !inside(B, p); if (inside(R, p) != w) return fmt("at (%.5Lg,%.5Lg)", p.x, p.y); }
    for (auto& s : R) for (int k = 0; k < 4; k++) { P p = at(s, (k + 0.37L) / 4); if (!onChain(A, p) && !(op && onChain(B, p))) return fmt("boundary at (%.5Lg,%.5Lg)", p.x, p.y); if (op == 1 && ((onChain(A, p) && distance(B, p) > 1e-6L && inside(B, p)) || (onChain(B, p) && distance(A, p) > 1e-6L && inside(A, p)))) return fmt("inner boundary at (%.5Lg,%.5Lg)", p.x, p.y); }
    return "";
}
struct Kind { int n = 0; bool overlap = false, tangent = false, crossing = false; const char* name() const { return overlap ? "overlap" : tangent ? "tangent" : n == 0 ? "apart" : n == 2 ? crossing ? "crossing" : "touching twice" : n == 1 ? "touching" : "many"; } };
static Kind classify(const Chain& A, const Chain& B) {
    Kind k; vector<P> pts; for (auto& a : A) for (auto& b : B) { Truth t = meet(a, b); if (!t.edges.empty() || t.ident) k.overlap = true; if (t.tangent) k.tangent = true; for (auto& p : t.pts) { bool f = false; for (auto& q : pts) if (same(p, q, 1e-7L)) f = true; if (!f) pts.push_back(p); } }
    k.n = (int)pts.size(); if (k.overlap || k.n != 2) return k;
    // walk along B and see on which side of A it runs between the two points
    bool in = false, out = false; for (S s : B) { if (s.k == CIRCLE) s.a = s.b = s.c + P{s.r(), 0}; vector<ld> u = {0, 1}; for (auto& p : pts) { ld x = along(s.cw ? flip(s) : s, p); if (x >= 0) { x /= s.k == LINE ? 1 : sweep(s); u.push_back(x); } } std::sort(u.begin(), u.end()); for (size_t i = 0; i + 1 < u.size(); i++) if (u[i + 1] - u[i] > 1e-6L) { P p = at(s.cw ? flip(s) : s, (u[i] + u[i + 1]) / 2); (inside(A, p) ? in : out) = true; } }
    k.crossing = in && out; return k;
}
static string counters(const Chain& A, const Chain& B) { int f = 0; for (auto& s : A) f |= s.k == LINE ? 1 : s.k == ARC ? 2 : 4; for (auto& s : B) f |= s.k == LINE ? 8 : s.k == ARC ? 16 : 32; static const char* N[] = {"", "lines", "arcs", "lines+arcs", "circle"}; return string(N[f & 7]) + "/" + N[f >> 3]; }
// one operation on a live outline o with the region A; true if it succeeded (A is then the new region)
static bool operate(mc::Ctx& c, MCAD_OUTLINE& o, Chain& A, const Chain& B, int op, bool asCircle, string d) {
    Kind k = classify(A, B); string kind = string(op == 1 ? "union, " : "difference, ") + k.name(); c.site(kind); d += (op == 1 ? " + " : " - ") + str(B); bool err = true, r;
    MCAD_OUTLINE* b = NULL; MCAD_SEGMENT* s = NULL; if (asCircle) { s = new MCAD_SEGMENT; set(*s, B[0]); r = op == 1 ? o.AddOutline(s, err) : o.SubOutline(s, err); } else { b = made(B); r = op == 1 ? o.AddOutline(b, err) : o.SubOutline(b, err); }
    c.transition(); Chain R = read(o); string bad = improper(R); c.outcome((string(k.name()) + (r ? " done" : err ? " refused" : " no contact")).c_str());
    if (r && err) c.fail(kind + ": error flag after success", d);
    if (r && (k.overlap || k.n == 0 || k.n == 1 || k.n > 2) && !k.tangent) { c.fail(kind + ": performed", d + " -> " + str(R)); return false; }
    c.state(mc::hstr(str(R))); if (r) { if (!o.IsClosed() || !o.IsContiguous()) bad = "not closed"; if (bad.empty()) bad = compare(R, A, B, op); if (!bad.empty()) { c.fail(kind + ": wrong result: " + bad.substr(0, bad.find("at (")), d + " -> " + str(R) + ": " + bad); return false; } A = R; return true; }
    if (k.crossing && !k.overlap && !k.tangent) { c.fail(kind + ": refused", d + " " + counters(A, B)); delete b; delete s; return false; }
    if (bad.empty()) bad = compare(R, A, A, 0); if (!bad.empty()) c.fail(kind + ": a refusal changes the outline " + bad.substr(0, bad.find("at (")), d + " -> " + str(R) + ": " + bad);
    if (b) { Chain Q = read(*b); string x = improper(Q); if (x.empty()) x = compare(Q, B, B, 0); if (!x.empty()) c.fail(kind + ": a refusal changes the operand", d + " -> " + str(Q) + ": " + x); delete b; } delete s; return false;
}
static Chain scaled(Chain ch, ld k, P d) { for (auto& s : ch) for (P* p : {&s.a, &s.b, &s.c}) *p = *p * k + d; return ch; }
static vector<Chain> family() { vector<Chain> f = cycles(segments(2), 4); for (auto& s : segments(2)) if (s.k == CIRCLE) { bool d = false; for (auto& ch : f) if (ch[0].k == CIRCLE && same(ch[0].c, s.c) && fabsl(ch[0].r() - s.r()) < EPS) d = true; if (!d) f.push_back({s}); } return f; }
static vector<Chain> few3(const vector<Chain>& f) { vector<Chain> r; for (auto& ch : f) if (ch.size() <= 3) r.push_back(ch); return r; }     // the second operand in the quick tier
static Chain poly(const vector<P>& p) { Chain ch; for (size_t i = 0; i < p.size(); i++) ch.push_back(line(p[i], p[(i + 1) % p.size()])); return ch; }
static void pairs(mc::Ctx& c) {
    static vector<Chain> F = family(), Q = few3(F); const vector<Chain>& G = c.thorough ? F : Q; int size = c.choose(c.thorough ? 3 : 2, "size"), i = c.choose((int)F.size(), "first"), j = c.choose((int)G.size(), "second"); int q = c.thorough ? 9 : 3; ld step = c.thorough ? 0.25L : 0.5L; int off = c.choose(q * q + 2, "offset"); int op = 1 + c.choose(2, "op"); bool circ = G[j].size() == 1 && c.flip("as circle"); int rot = c.thorough ? c.choose(2, "start") : (i + j + off) % 2; c.begin();
    P d = off < q * q ? P{(off % q - q / 2) * step, (off / q - q / 2) * step} : off == q * q ? P{0.31L, 0.17L} : P{-0.23L, 0.59L}; Chain A = F[i], B = scaled(G[j], size == 0 ? 1 : size == 1 ? 0.5L : 1.75L, d); if (rot) { std::rotate(A.begin(), A.begin() + (A.size() > 1), A.end()); }
    std::unique_ptr<MCAD_OUTLINE> o(made(A)); Chain R = read(*o); if (!o->IsClosed()) { c.fail("family member not closed", str(A)); return; } operate(c, *o, A, B, op, circ, str(A)); c.nontrivial(mc::hstr(fmt("%d %d %d %d %d %d %d", size, i, j, off, op, circ, rot)));
}
static const vector<Chain>& few() {
    static vector<Chain> f; if (f.empty()) { f.push_back(poly({{0, 0}, {2, 0}, {2, 2}, {0, 2}})); f.push_back(poly({{0, 0}, {0, 1}, {3, 1}, {3, 0}})); f.push_back(poly({{0, 0}, {2, 0}, {2, 1}, {1, 1}, {1, 2}, {0, 2}})); f.push_back(poly({{0, 0}, {2, 1}, {0, 2}})); f.push_back({circle({1, 1}, {2, 1})}); f.push_back({arc({1, 1}, {1, 0}, {1, 2}, false), line({1, 2}, {1, 0})});
        f.push_back({line({0, 0}, {2, 0}), arc({2, 0.5L}, {2, 0}, {2, 1}, false), line({2, 1}, {0, 1}), arc({0, 0.5L}, {0, 1}, {0, 0}, false)}); f.push_back({line({0, 0}, {2, 0}), line({2, 0}, {2, 2}), arc({1, 2}, {2, 2}, {0, 2}, true), line({0, 2}, {0, 0})}); f.push_back({arc({0, 0}, {2, 0}, {0, 2}, false), arc({0, 0.75L}, {0, 2}, {1, 0}, true), line({1, 0}, {2, 0})}); f.back() = {arc({0, 0}, {2, 0}, {0, 2}, false), line({0, 2}, {0, 1}), arc({0, 0}, {0, 1}, {1, 0}, true), line({1, 0}, {2, 0})}; }
    return f;
}
static void chains(mc::Ctx& c) {
    auto& f = few(); int n = (int)f.size(); int i = c.choose(n, "first"); Chain A = f[i]; std::unique_ptr<MCAD_OUTLINE> o(made(A)); string d = str(A); string key = fmt("%d", i); int depth = c.thorough ? 3 : 2;
    static const P OFF[] = {{1.3L, 0.4L}, {-0.7L, 1.1L}, {0.45L, -1.2L}, {-1.15L, -0.35L}, {0.5L, 1.5L}, {1.5L, 1.5L}, {0.25L, 0.35L}, {1, 0}};
    for (int k = 0; k < depth; k++) { int j = c.choose(n, "next"), off = c.choose(k && !c.thorough ? 4 : 8, "offset"), op = 1 + c.choose(2, "op"); bool rev = f[j].size() > 1 && (k == 0 || c.thorough ? c.flip("reversed") : off % 2 == 1); Chain B = scaled(f[j], k ? 0.8L : 1, OFF[off] + P{k * 0.07L, k * -0.11L}); if (rev) B = flip(B); if (k == 0) c.begin(); string dd = d; d += (op == 1 ? " + " : " - ") + str(B); key += fmt(" %d %d %d %d", j, off, op, rev); if (!operate(c, *o, A, B, op, j == 4 && off % 2 == 0, dd) && k + 1 < depth) { return; } }
    c.nontrivial(mc::hstr(key));
}
static void explore(mc::Ctx& c) { if (c.flip("chains")) chains(c); else pairs(c); }
MC_MAIN(explore, 3, 30)
