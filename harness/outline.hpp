// Closed chains of lattice segments: enumeration of all simple ones, exact insideness, area.
#pragma once
#include "seg.hpp"
namespace geo {
typedef std::vector<S> Chain;
inline std::string str(const Chain& ch) { std::string s; for (auto& x : ch) s += (s.empty() ? "[" : "; ") + str(x); return s + "]"; }
inline Chain flip(const Chain& ch) { Chain r; for (size_t i = ch.size(); i--;) r.push_back(flip(ch[i])); return r; }
inline Chain shift(Chain ch, P d) { for (auto& s : ch) s = shift(s, d); return ch; }
inline ld area2(const Chain& ch) { ld a = 0; for (auto& s : ch) { if (s.k == CIRCLE) { a += 2 * PI * s.r() * s.r(); continue; } a += cross(s.a, s.b); if (s.k == ARC) { ld w = sweep(s), k = s.r() * s.r() * (w - sinl(w)); a += s.cw ? -k : k; } } return a; }     // > 0 counter-clockwise
inline ld distance(const S& s, P p) {        // from a point to the curve
    if (s.k == LINE) { P d = s.b - s.a; ld t = dot(p - s.a, d) / dot(d, d); t = std::min((ld)1, std::max((ld)0, t)); return len(p - (s.a + d * t)); }
    ld e = s.k == CIRCLE ? 1e30L : std::min(len(p - s.a), len(p - s.b)); ld d = len(p - s.c); if (d < 1e-15L) return std::min(e, s.r()); P q = s.c + (p - s.c) * (s.r() / d); return s.k == CIRCLE || on(s, q) ? std::min(e, fabsl(d - s.r())) : e;
}
inline ld distance(const Chain& ch, P p) { ld d = 1e30L; for (auto& s : ch) d = std::min(d, distance(s, p)); return d; }
// winding number of the chain about a point off the chain, by the angle each segment subtends
inline bool inside(const Chain& ch, P p) {
    ld w = 0; for (auto& s : ch) {
        if (s.k == CIRCLE) { if (len(p - s.c) < s.r()) w += 2 * PI; continue; }
        P u = s.a - p, v = s.b - p; if (s.k == LINE) { w += atan2l(cross(u, v), dot(u, v)); continue; }
        // arc: the chord's angle, and a full turn if the point lies between arc and chord
        ld d = atan2l(cross(u, v), dot(u, v)); P t = s.b - s.a; bool disc = len(p - s.c) < s.r(); ld side = cross(t, p - s.a), bulge = s.cw ? 1 : -1;     // the arc runs on the left (+) or right (-) of its chord
        bool between = disc && side * bulge > 0; if (fabsl(side) < 1e-13L) { // on the line of the chord: count the angle along the arc directly
            ld a = 0; P q = s.a; int n = 64; for (int i = 1; i <= n; i++) { P r = at(s, (ld)i / n); a += atan2l(cross(q - p, r - p), dot(q - p, r - p)); q = r; } w += a; continue; }
        w += d; if (between) w += s.cw ? -2 * PI : 2 * PI;
    }
    return fabsl(w) > PI;
}
// all simple closed chains of 2..maxLen of the given segments; each cyclic sequence once (drawn both ways)
inline std::vector<Chain> cycles(const std::vector<S>& segs, int maxLen) {
    std::vector<S> v; for (auto& s : segs) if (s.k != CIRCLE) v.push_back(s); size_t n = v.size(); auto key = [](P p) { return std::make_pair((long)llroundl(p.x * 1e6L), (long)llroundl(p.y * 1e6L)); };
    std::map<std::pair<long, long>, std::vector<int>> from; for (size_t i = 0; i < n; i++) from[key(v[i].a)].push_back((int)i);
    std::vector<std::vector<std::vector<P>>*> dummy; std::vector<signed char> touch(n * n, -1);   // number of common points, 9 = overlap
    std::map<long, std::vector<P>> pts; auto common = [&](int i, int j) -> const std::vector<P>& { long k = (long)i * (long)n + j; auto it = pts.find(k); if (it != pts.end()) return it->second; Truth t = meet(v[i], v[j]); auto& r = pts[k]; if (!t.edges.empty() || t.ident) { r.assign(9, P{0, 0}); } else r = t.pts; return r; };
    std::vector<Chain> out; std::vector<int> path;
    std::function<void()> dfs = [&]() {
        int first = path[0], last = path.back(); P end = v[last].b, start = v[first].a;
        for (int j : from[key(end)]) {
            bool closes = same(v[j].b, start); if (closes ? path.size() + 1 < 2 : (int)path.size() + 1 >= maxLen) continue; if (!closes && key(v[j].b) < key(start)) continue;
            bool ok = true; for (size_t q = 0; ok && q < path.size(); q++) { const auto& c = common(std::min(path[q], j), std::max(path[q], j)); if (c.size() > 2) { ok = false; break; } for (auto& p : c) { bool shared = (q + 1 == path.size() && same(p, end)) || (closes && q == 0 && same(p, start)); if (!shared) ok = false; } }
            if (!ok) continue; path.push_back(j);
            if (closes) { Chain ch; for (int q : path) ch.push_back(v[q]); bool minimal = true; for (size_t q = 1; q < path.size(); q++) if (key(v[path[q]].a) < key(start)) minimal = false; if (minimal) out.push_back(ch); } else dfs();
            path.pop_back();
        }
    };
    for (size_t i = 0; i < n; i++) { if (key(v[i].b) < key(v[i].a)) continue; path = {(int)i}; dfs(); }
    return out;
}
}
