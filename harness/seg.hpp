// Plane geometry of line, arc and circle segments on a lattice, decided independently of the library (long double; the distances
// between different algebraic values of these small heights are far above the tolerance used).
#pragma once
#include "lib.hpp"
#include <geom/mcad_segment.h>
#include <geom/mcad_outline.h>
#include <geom/mcad_helpers.h>
#include <map>
#include <algorithm>
#include <set>
#include <memory>
#include <functional>
namespace geo {
typedef long double ld; static const ld EPS = 1e-9L, PI = acosl(-1.0L);
struct P { ld x, y; };
inline P operator+(P a, P b) { return {a.x + b.x, a.y + b.y}; } inline P operator-(P a, P b) { return {a.x - b.x, a.y - b.y}; } inline P operator*(P a, ld k) { return {a.x * k, a.y * k}; }
inline ld dot(P a, P b) { return a.x * b.x + a.y * b.y; } inline ld cross(P a, P b) { return a.x * b.y - a.y * b.x; } inline ld len(P a) { return sqrtl(dot(a, a)); }
inline bool same(P a, P b, ld e = 1e-7L) { return fabsl(a.x - b.x) < e && fabsl(a.y - b.y) < e; }
inline MCAD_POINT mp(P p) { return MCAD_POINT((double)p.x, (double)p.y, 0); } inline P pm(const MCAD_POINT& p) { return {p.x, p.y}; }
enum { LINE, ARC, CIRCLE };
struct S { int k; P a, b, c; bool cw; ld r() const { return len(a - c); } };     // from a to b, as drawn
inline S line(P a, P b) { return {LINE, a, b, {0, 0}, false}; } inline S arc(P c, P a, P b, bool cw) { return {ARC, a, b, c, cw}; } inline S circle(P c, P a) { return {CIRCLE, a, a, c, false}; }
inline std::string str(const S& s) { if (s.k == LINE) return mc::fmt("line (%.4Lg,%.4Lg)-(%.4Lg,%.4Lg)", s.a.x, s.a.y, s.b.x, s.b.y); if (s.k == CIRCLE) return mc::fmt("circle (%.4Lg,%.4Lg) r %.6Lg", s.c.x, s.c.y, s.r()); return mc::fmt("arc about (%.4Lg,%.4Lg) from (%.4Lg,%.4Lg) %s to (%.4Lg,%.4Lg)", s.c.x, s.c.y, s.a.x, s.a.y, s.cw ? "cw" : "ccw", s.b.x, s.b.y); }
inline S shift(S s, P d) { s.a = s.a + d; s.b = s.b + d; s.c = s.c + d; return s; }
inline S flip(S s) { if (s.k == CIRCLE) return s; std::swap(s.a, s.b); s.cw = s.k == ARC && !s.cw; return s; }
inline bool set(MCAD_SEGMENT& m, const S& s) { return s.k == LINE ? m.SetParams(mp(s.a), mp(s.b)) : m.SetParams(mp(s.c), mp(s.a), mp(s.b), s.cw); }
inline ld ang(P v) { return atan2l(v.y, v.x); }
inline ld turn(ld a) { while (a < 0) a += 2 * PI; while (a >= 2 * PI) a -= 2 * PI; return a; }        // into [0, 2 pi)
inline P ccwStart(const S& s) { return s.cw ? s.b : s.a; } inline P ccwEnd(const S& s) { return s.cw ? s.a : s.b; }
inline ld sweep(const S& s) { if (s.k == CIRCLE) return 2 * PI; return turn(ang(ccwEnd(s) - s.c) - ang(ccwStart(s) - s.c)); }
// position of a point of the support along the curve, counter-clockwise, in [0, sweep]; < 0 if it is not on it
inline ld along(const S& s, P p) {
    if (s.k == LINE) { P d = s.b - s.a; ld t = dot(p - s.a, d) / dot(d, d); if (fabsl(cross(d, p - s.a)) / len(d) > EPS || t < -EPS || t > 1 + EPS) return -1; return std::min((ld)1, std::max((ld)0, t)); }
    if (fabsl(len(p - s.c) - s.r()) > EPS) return -1; if (s.k == CIRCLE) return turn(ang(p - s.c));
    ld t = turn(ang(p - s.c) - ang(ccwStart(s) - s.c)); if (t > 2 * PI - EPS) t = 0; return t <= sweep(s) + EPS ? std::min(t, sweep(s)) : -1;
}
inline bool on(const S& s, P p) { return along(s, p) >= 0; }
inline bool isEnd(const S& s, P p) { return s.k != CIRCLE && (same(s.a, p) || same(s.b, p)); }
inline ld length(const S& s) { return s.k == LINE ? len(s.b - s.a) : s.r() * sweep(s); }
inline P at(const S& s, ld u) {      // u in [0,1], as drawn
    if (s.k == LINE) return s.a + (s.b - s.a) * u; ld a0 = ang(s.a - s.c), w = sweep(s) * u; if (s.cw) w = -w; return s.c + P{cosl(a0 + w), sinl(a0 + w)} * s.r();
}
struct Truth { std::vector<P> pts; std::vector<std::pair<P, P>> edges; bool tangent = false, ident = false; int nest = 0; };    // nest: 1 the first surrounds the second, -1 is inside it
inline void addPoint(Truth& t, P p) { for (auto& q : t.pts) if (same(p, q)) return; t.pts.push_back(p); }
inline Truth meet(const S& s, const S& o) {
    Truth t; auto both = [&](P p) { return on(s, p) && on(o, p); };
    if (s.k == LINE && o.k == LINE) {
        P d = s.b - s.a, e = o.b - o.a; ld den = cross(d, e);
        if (fabsl(den) > EPS) { P p = s.a + d * (cross(o.a - s.a, e) / den); if (both(p)) addPoint(t, p); return t; }
        if (fabsl(cross(d, o.a - s.a)) > EPS) return t;
        ld u = dot(o.a - s.a, d) / dot(d, d), v = dot(o.b - s.a, d) / dot(d, d); if (u > v) std::swap(u, v); u = std::max(u, (ld)0); v = std::min(v, (ld)1);
        if (v - u > EPS) t.edges.push_back({s.a + d * u, s.a + d * v}); else if (v - u > -EPS) addPoint(t, s.a + d * u);
        return t;
    }
    if (s.k == LINE || o.k == LINE) {
        const S &l = s.k == LINE ? s : o, &c = s.k == LINE ? o : s; P d = l.b - l.a, f = l.a + d * (dot(c.c - l.a, d) / dot(d, d)); ld h = len(f - c.c), r = c.r();
        if (h > r + EPS) return t; if (h > r - EPS) { if (both(f)) { addPoint(t, f); t.tangent = true; } return t; }
        P w = d * (sqrtl(r * r - h * h) / len(d)); if (both(f + w)) addPoint(t, f + w); if (both(f - w)) addPoint(t, f - w); return t;
    }
    P d = o.c - s.c; ld D = len(d), r = s.r(), q = o.r();
    if (D < EPS && fabsl(r - q) < EPS) {
        if (s.k == CIRCLE && o.k == CIRCLE) { t.ident = true; return t; }
        if (s.k == CIRCLE || o.k == CIRCLE) { const S& a = s.k == CIRCLE ? o : s; t.edges.push_back({ccwStart(a), ccwEnd(a)}); return t; }
        // arcs of one circle: cut the first at the ends of the second
        std::vector<ld> cut = {0, sweep(s)}; for (P p : {ccwStart(o), ccwEnd(o)}) { ld u = along(s, p); if (u >= 0) cut.push_back(u); } std::sort(cut.begin(), cut.end());
        auto P_ = [&](ld u) { return at(s.cw ? flip(s) : s, u / sweep(s)); };
        for (size_t i = 0; i + 1 < cut.size(); i++) if (cut[i + 1] - cut[i] > 1e-7L && on(o, P_((cut[i] + cut[i + 1]) / 2))) { P x = P_(cut[i]), y = P_(cut[i + 1]); if (!t.edges.empty() && same(t.edges.back().second, x)) t.edges.back().second = y; else t.edges.push_back({x, y}); }
        for (ld u : cut) { P p = P_(u); if (on(o, p)) { bool in = false; for (auto& e : t.edges) if (same(e.first, p) || same(e.second, p)) in = true; if (!in) addPoint(t, p); } }
        return t;
    }
    bool circles = s.k == CIRCLE && o.k == CIRCLE;
    if (D > r + q + EPS) return t; if (D < fabsl(r - q) - EPS) { if (circles) t.nest = r > q ? 1 : -1; return t; }
    if (fabsl(D - r - q) < EPS) { P p = s.c + d * (r / D); if (both(p)) { addPoint(t, p); t.tangent = true; } return t; }
    if (fabsl(D - fabsl(r - q)) < EPS) { P p = r > q ? s.c + d * (r / D) : o.c - d * (q / D); if (both(p)) { addPoint(t, p); t.tangent = true; if (circles) t.nest = r > q ? 1 : -1; } return t; }
    ld x = (D * D - q * q + r * r) / (2 * D), h = sqrtl(r * r - x * x); P m = s.c + d * (x / D), n = P{-d.y, d.x} * (h / D); if (both(m + n)) addPoint(t, m + n); if (both(m - n)) addPoint(t, m - n); return t;
}
// all segments on an n x n lattice
inline std::vector<S> segments(int n) {
    std::vector<S> v; auto pt = [&](int i) { return P{(ld)(i % n), (ld)(i / n)}; }; int N = n * n;
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (i != j) v.push_back(line(pt(i), pt(j)));
    for (int c = 0; c < N; c++) { std::map<int, std::vector<int>> by; for (int i = 0; i < N; i++) if (i != c) { P d = pt(i) - pt(c); by[(int)dot(d, d)].push_back(i); }
        for (auto& g : by) { v.push_back(circle(pt(c), pt(g.second[0]))); for (int i : g.second) for (int j : g.second) if (i != j) for (int cw = 0; cw < 2; cw++) v.push_back(arc(pt(c), pt(i), pt(j), cw)); } }
    return v;
}
}
