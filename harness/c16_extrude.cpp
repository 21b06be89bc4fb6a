// C16: the shells the board generator makes of outlines.  The written file is evaluated by independent surface and curve evaluators: every trimmed surface's two
// boundary representations trace the expected edge of the solid at the expected heights, and together the surfaces cover the solid's boundary exactly once.
#include "igs.hpp"
#include "outline.hpp"
#include <geom/iges_geom_pcb.h>
#include <array>
using namespace geo; using std::string; using std::vector; using mc::Ctx; using mc::fmt;
extern "C" time_t time(time_t* t) { if (t) *t = 1700000000; return 1700000000; }
struct V3 { double x, y, z; }; static V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; } static V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; } static V3 operator*(V3 a, double k) { return {a.x * k, a.y * k, a.z * k}; }
static double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; } static double len(V3 a) { return sqrt(dot(a, a)); } static V3 cross(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
typedef std::function<V3(double)> Curve;      // over [0, 1]
struct Odd { string key, msg; };
struct Reader {
    igs::File F; Reader(const string& b) : F(igs::parse(b)) {}
    double num(int e, int k) { auto& t = F.e.at(e).pd; if (k >= (int)t.size() || t[k].empty) throw Odd{"short", fmt("entity %d of type %d has no parameter %d", 2 * e + 1, F.e[e].de[0], k + 1)}; return igs::realVal(t[k].raw); }
    int cnt(int e, int k) { double v = num(e, k); if (v < 0 || v > 1000 || v != floor(v)) throw Odd{"count", fmt("entity %d: parameter %d is %g", 2 * e + 1, k + 1, v)}; return (int)v; }
    int ptr(int e, int k) { double v = num(e, k); int n = (int)v; if (n < 1 || n % 2 == 0 || n / 2 >= (int)F.e.size()) throw Odd{"pointer", fmt("entity %d: parameter %d is %g", 2 * e + 1, k + 1, v)}; return n / 2; }
    int type(int e) { return F.e[e].de[0]; }
    void want(int e, int t, const char* what) { if (type(e) != t) throw Odd{"type", fmt("%s is an entity of type %d", what, type(e))}; }
    typedef std::array<double, 12> Mx; static V3 mul(const Mx& m, V3 p) { return {m[0] * p.x + m[1] * p.y + m[2] * p.z + m[3], m[4] * p.x + m[5] * p.y + m[6] * p.z + m[7], m[8] * p.x + m[9] * p.y + m[10] * p.z + m[11]}; }
    std::function<V3(V3)> place(int e) { int t = F.e[e].de[6]; if (!t) return [](V3 p) { return p; }; t /= 2; want(t, 124, "a transform"); if (F.e[t].de[6]) throw Odd{"transform", "a transform has a transform"}; Mx m; for (int i = 0; i < 12; i++) m[i] = num(t, i);
        double d = m[0] * (m[5] * m[10] - m[6] * m[9]) - m[1] * (m[4] * m[10] - m[6] * m[8]) + m[2] * (m[4] * m[9] - m[5] * m[8]); int form = F.e[t].de[14]; if (fabs(d - (form == 1 ? -1 : 1)) > 1e-6) throw Odd{"transform", fmt("a transform of form %d has determinant %g", form, d)}; return [m](V3 p) { return mul(m, p); }; }
    static vector<double> basis(const vector<double>& T, int deg, int n, double u) {      // all n + 1 B-spline functions
        int k = deg; while (k < n && u >= T[k + 1]) k++; vector<double> N(n + 1, 0); double b[16] = {1}; if (deg > 15) throw Odd{"degree", "a degree above 15"};
        for (int d = 1; d <= deg; d++) { double keep = 0; for (int r = 0; r < d; r++) { double a = T[k + r + 1] - u, l = u - T[k + 1 - d + r]; double t = a + l == 0 ? 0 : b[r] / (a + l); b[r] = keep + a * t; keep = l * t; } b[d] = keep; }
        for (int i = 0; i <= deg; i++) N[k - deg + i] = b[i]; return N;
    }
    void knots(const vector<double>& T, int deg, int n, double lo, double hi, int e) { for (size_t i = 1; i < T.size(); i++) if (T[i] < T[i - 1]) throw Odd{"knots", fmt("entity %d has decreasing knots", 2 * e + 1)}; if (!(lo < hi) || lo < T[deg] - 1e-9 || hi > T[n + 1] + 1e-9) throw Odd{"range", fmt("entity %d: the parameter range %g to %g is not within the knots", 2 * e + 1, lo, hi)}; }
    Curve curve(int e) {
        switch (type(e)) {
        case 110: { auto T = place(e); V3 a = T({num(e, 0), num(e, 1), num(e, 2)}), b = T({num(e, 3), num(e, 4), num(e, 5)}); return [=](double t) { return a + (b - a) * t; }; }
        case 100: { double z = num(e, 0), cx = num(e, 1), cy = num(e, 2), r = hypot(num(e, 3) - cx, num(e, 4) - cy), r2 = hypot(num(e, 5) - cx, num(e, 6) - cy), a = atan2(num(e, 4) - cy, num(e, 3) - cx), w = atan2(num(e, 6) - cy, num(e, 5) - cx) - a; if (fabs(r - r2) > 1e-6) throw Odd{"radius", fmt("an arc has the radii %.9g and %.9g", r, r2)};
            while (w <= 0) w += 2 * M_PI; auto T = place(e); return [=](double t) { return T({cx + r * cos(a + w * t), cy + r * sin(a + w * t), z}); }; }
        case 126: { int K = cnt(e, 0), M = cnt(e, 1), p = 6; vector<double> T, W, C; for (int i = 0; i < K + M + 2; i++) T.push_back(num(e, p++)); for (int i = 0; i <= K; i++) W.push_back(num(e, p++)); for (int i = 0; i < 3 * (K + 1); i++) C.push_back(num(e, p++)); double lo = num(e, p), hi = num(e, p + 1); knots(T, M, K, lo, hi, e);
            return [=](double t) { auto N = basis(T, M, K, lo + (hi - lo) * t); V3 s = {0, 0, 0}; double w = 0; for (int i = 0; i <= K; i++) { double n = N[i] * W[i]; w += n; s = s + V3{C[3 * i], C[3 * i + 1], C[3 * i + 2]} * n; } return s * (1 / w); }; }
        }
        throw Odd{"curve", fmt("a boundary holds an entity of type %d", type(e))};
    }
    vector<Curve> chain(int e) { if (type(e) != 102) return {curve(e)}; vector<Curve> r; for (int i = 0, n = cnt(e, 0); i < n; i++) { int k = ptr(e, 1 + i); if (F.e[e].de[6]) throw Odd{"transform", "a composite curve has a transform"}; r.push_back(curve(k)); } return r; }
    struct Surf { std::function<V3(double, double)> at; double lo[2], hi[2]; };
    Surf surface(int e) {
        Surf s; if (type(e) == 128) { int K1 = cnt(e, 0), K2 = cnt(e, 1), M1 = cnt(e, 2), M2 = cnt(e, 3), p = 9; vector<double> T1, T2, W, C; for (int i = 0; i < K1 + M1 + 2; i++) T1.push_back(num(e, p++)); for (int i = 0; i < K2 + M2 + 2; i++) T2.push_back(num(e, p++)); int n = (K1 + 1) * (K2 + 1); for (int i = 0; i < n; i++) W.push_back(num(e, p++)); for (int i = 0; i < 3 * n; i++) C.push_back(num(e, p++));
            s.lo[0] = num(e, p); s.hi[0] = num(e, p + 1); s.lo[1] = num(e, p + 2); s.hi[1] = num(e, p + 3); knots(T1, M1, K1, s.lo[0], s.hi[0], e); knots(T2, M2, K2, s.lo[1], s.hi[1], e); if (F.e[e].de[6]) throw Odd{"transform", "a surface has a transform"};
            s.at = [=](double u, double v) { auto N = basis(T1, M1, K1, u), L = basis(T2, M2, K2, v); V3 r = {0, 0, 0}; double w = 0; for (int j = 0; j <= K2; j++) for (int i = 0; i <= K1; i++) { int k = j * (K1 + 1) + i; double n = N[i] * L[j] * W[k]; w += n; r = r + V3{C[3 * k], C[3 * k + 1], C[3 * k + 2]} * n; } return r * (1 / w); }; return s; }
        if (type(e) == 120) { int a = ptr(e, 0), g = ptr(e, 1); want(a, 110, "an axis"); Curve A = curve(a), G = curve(g); V3 o = A(0), d = A(1) - A(0); d = d * (1 / len(d)); s.lo[0] = 0; s.hi[0] = 1; s.lo[1] = num(e, 2); s.hi[1] = num(e, 3); if (!(s.lo[1] < s.hi[1]) || s.hi[1] - s.lo[1] > 2 * M_PI + 1e-6) throw Odd{"range", "bad angles of a surface of revolution"};
            s.at = [=](double u, double v) { V3 p = G(u) - o; V3 k = cross(d, p); return o + p * cos(v) + k * sin(v) + d * (dot(d, p) * (1 - cos(v))); }; return s; }
        throw Odd{"surface", fmt("a trimmed surface is an entity of type %d", type(e))};
    }
};
static const int N = 24;
struct Loop { vector<V3> p; vector<double> s; double L = 0; V3 atf(double f) const { double w = f * L; size_t i = std::upper_bound(s.begin(), s.end(), w) - s.begin(); if (i >= p.size()) return p.back(); if (i == 0) return p[0]; double h = s[i] - s[i - 1]; return p[i - 1] + (p[i] - p[i - 1]) * (h > 0 ? (w - s[i - 1]) / h : 0); } };
struct Face { vector<Loop> C, B; vector<vector<Curve>> uv; Reader::Surf S; int piecesC = 0; V3 normal; };
struct Want { vector<Chain> loops; double top, bot, scale; };      // first the outline, then its holes
static double TOL = 3e-7;
static Loop trace(const vector<Curve>& v, const char* what, double tol) {
    Loop l; for (size_t i = 0; i < v.size(); i++) { V3 e = v[(i + v.size() - 1) % v.size()](1), b = v[i](0); if (len(e - b) > tol) throw Odd{string("gap:") + what, fmt("%s: piece %zu starts at (%.9g, %.9g, %.9g), the piece before it ends at (%.9g, %.9g, %.9g)", what, i + 1, b.x, b.y, b.z, e.x, e.y, e.z)};
        double was = l.L; for (int k = 0; k <= N; k++) { V3 p = v[i](double(k) / N); if (!l.p.empty()) l.L += len(p - l.p.back()); l.p.push_back(p); l.s.push_back(l.L); } if (l.L - was < 2e-8) throw Odd{string("empty:") + what, fmt("%s: piece %zu has no length", what, i + 1)}; }
    return l;
}
static Face face(Reader& R, int e) {
    Face f; int pts = R.ptr(e, 0); f.S = R.surface(pts); if (R.cnt(e, 1) != 1) throw Odd{"n1", "a trimmed surface has no outer boundary"}; int n = R.cnt(e, 2);
    for (int i = 0; i <= n; i++) {
        int b = R.ptr(e, 3 + i); R.want(b, 142, "a boundary"); if (R.ptr(b, 1) != pts) throw Odd{"sptr", "a boundary lies on another surface"}; auto uv = R.chain(R.ptr(b, 2)), cc = R.chain(R.ptr(b, 3)); f.piecesC += cc.size();
        f.C.push_back(trace(cc, "curve", 3e-7)); Loop u = trace(uv, "parameter curve", 1e-6); double du = f.S.hi[0] - f.S.lo[0], dv = f.S.hi[1] - f.S.lo[1];
        for (auto& p : u.p) if (p.x < f.S.lo[0] - 1e-6 * du || p.x > f.S.hi[0] + 1e-6 * du || p.y < f.S.lo[1] - 1e-6 * dv || p.y > f.S.hi[1] + 1e-6 * dv) throw Odd{"outside", fmt("the boundary reaches the parameters %.9g, %.9g outside of the surface (%.9g to %.9g, %.9g to %.9g)", p.x, p.y, f.S.lo[0], f.S.hi[0], f.S.lo[1], f.S.hi[1])};
        vector<Curve> on; for (auto& c : uv) { auto at = f.S.at; on.push_back([c, at](double t) { V3 p = c(t); return at(p.x, p.y); }); } f.B.push_back(trace(on, "curve on the surface", 1e-4)); f.uv.push_back(uv);
    }
    return f;
}
static string show(const Chain& c) { return str(c); }
static ld total(const Chain& c) { ld r = 0; for (auto& s : c) r += length(s); return r; }
struct Judge {
    Ctx& c; const Want& w; string what; double tol; Judge(Ctx& cc, const Want& ww, const string& t) : c(cc), w(ww), what(t), tol(TOL * std::max(1.0, ww.scale / 10)) {}
    void bad(const string& key, const string& msg) { c.fail(key, what + "\n" + msg); }
    bool onChain(const Loop& l, const Chain& ch, double z) { for (auto& p : l.p) if (fabs(p.z - z) > tol || distance(ch, P{p.x, p.y}) > tol) return false; return true; }
    void same(const Face& f, const string& kind) {      // the two representations run alike
        for (size_t i = 0; i < f.C.size(); i++) { c.check(fabs(f.C[i].L - f.B[i].L) < 2e-3 * f.C[i].L, "lengths:" + kind, what + fmt("\nboundary %zu is %.9g long in space and %.9g on the surface", i + 1, f.C[i].L, f.B[i].L)); for (int k = 0; k < 16; k++) { V3 p = f.C[i].atf((k + .37) / 16), q = f.B[i].atf((k + .37) / 16); if (len(p - q) > 5e-3 * std::max((double)f.C[i].L, tol)) { bad("different:" + kind, fmt("boundary %zu at %.3g of its length: (%.6g, %.6g, %.6g) in space, (%.6g, %.6g, %.6g) on the surface", i + 1, (k + .37) / 16, p.x, p.y, p.z, q.x, q.y, q.z)); return; } } }
    }
    int sense(const Loop& l) { double a = 0; for (size_t i = 0; i < l.p.size(); i++) { V3 p = l.p[i], q = l.p[(i + 1) % l.p.size()]; a += p.x * q.y - p.y * q.x; } return a > 0 ? 1 : -1; }
    void cap(Face& f, double z, bool rev) {
        string k = rev ? "bottom" : "top"; if (f.C.size() != w.loops.size()) { bad("boundaries:" + k, fmt("%zu boundaries instead of %zu", f.C.size(), w.loops.size())); return; }
        vector<char> used(w.loops.size(), 0); for (size_t i = 0; i < f.C.size(); i++) for (int b = 0; b < 2; b++) {
            const Loop& l = b ? f.B[i] : f.C[i]; string kk = k + (b ? "-surface" : "-curve"); size_t hit = w.loops.size(); for (size_t j = i ? 1 : 0; j < (i ? w.loops.size() : 1); j++) if (onChain(l, w.loops[j], z)) hit = j;
            if (hit == w.loops.size()) { double d = 1e9, dz = 0; V3 at = l.p[0]; for (size_t j = i ? 1 : 0; j < (i ? w.loops.size() : 1); j++) { double m = 0; for (auto& p : l.p) { double e = std::max<double>(fabs(p.z - z), distance(w.loops[j], P{p.x, p.y})); if (e > m) { m = e; if (m < d) at = p; } } d = std::min(d, m); } (void)dz; bad("off:" + kk, fmt("boundary %zu passes (%.9g, %.9g, %.9g), %.3g off every expected edge at height %g", i + 1, at.x, at.y, at.z, d, z)); return; }
            if (fabs(l.L - total(w.loops[hit])) > 2e-3 * total(w.loops[hit])) { bad("length:" + kk, fmt("boundary %zu is %.9g long instead of %.9Lg", i + 1, l.L, total(w.loops[hit]))); return; } if (!b) { if (used[hit]) { bad("twice:" + kk, "an edge bounds the cap twice"); return; } used[hit] = 1; }
        }
        same(f, k); V3 n = norm(f, (f.S.lo[0] + f.S.hi[0]) / 2, (f.S.lo[1] + f.S.hi[1]) / 2); c.check(rev ? n.z < -.99 : n.z > .99, "normal:" + k, what + fmt("\nthe surface's normal is (%g, %g, %g)", n.x, n.y, n.z));
    }
    static V3 norm(const Face& f, double u, double v) { double h = 1e-4 * (f.S.hi[0] - f.S.lo[0]), k = 1e-4 * (f.S.hi[1] - f.S.lo[1]); V3 n = cross(f.S.at(u + h, v) - f.S.at(u - h, v), f.S.at(u, v + k) - f.S.at(u, v - k)); return n * (1 / len(n)); }
    void walls(vector<Face>& F) {
        struct Part { int loop, seg; Loop top; }; vector<Part> parts; double H = w.top - w.bot; int sign[2] = {0, 0};
        for (size_t i = 0; i < F.size(); i++) {
            Face& f = F[i]; if (f.C.size() != 1) { bad("boundaries:wall", fmt("wall %zu has %zu boundaries", i + 1, f.C.size())); return; }
            for (int b = 0; b < 2; b++) {
                const Loop& l = b ? f.B[0] : f.C[0]; string kk = b ? "wall-surface" : "wall-curve"; int li = -1, si = -1; double best = 1e9;
                for (size_t j = 0; j < w.loops.size(); j++) for (size_t s = 0; s < w.loops[j].size(); s++) { double m = 0; for (auto& p : l.p) m = std::max<double>(m, distance(w.loops[j][s], P{p.x, p.y})); if (m < best) { best = m; li = j; si = s; } }
                if (best > tol) { bad("off:" + kk, fmt("wall %zu is %.3g off the edge %s", i + 1, best, str(w.loops[li][si]).c_str())); return; }
                Loop top; double lt = 0, lb = 0, lv = 0; bool anyTop = false; for (size_t q = 0; q + 1 < l.p.size(); q++) { V3 p = l.p[q], r = l.p[q + 1]; double d = len(r - p); if (d < 1e-12) continue; bool pt = fabs(p.z - w.top) < tol, rt = fabs(r.z - w.top) < tol, pb = fabs(p.z - w.bot) < tol, rb = fabs(r.z - w.bot) < tol; if (pt && rt) { lt += d; anyTop = true; top.p.push_back(p); top.p.push_back(r); } else if (pb && rb) lb += d; else { lv += d; if (hypot(p.x - r.x, p.y - r.y) > tol || p.z > w.top + tol || p.z < w.bot - tol) { bad("shape:" + kk, fmt("wall %zu has an edge from (%.9g, %.9g, %.9g) to (%.9g, %.9g, %.9g)", i + 1, p.x, p.y, p.z, r.x, r.y, r.z)); return; } } }
                if (!anyTop || fabs(lt - lb) > 1e-3 * lt || fabs(lv - 2 * H) > 1e-3 * H + tol || fabs(lt + lb + lv - l.L) > 1e-6 * l.L + tol) { bad("edges:" + kk, fmt("wall %zu is %.9g long at the top, %.9g at the bottom and %.9g high and %.9g around", i + 1, lt, lb, lv / 2, l.L)); return; }
                top.L = lt; if (!b) parts.push_back({li, si, top}); else if (parts.back().loop != li || parts.back().seg != si) { bad("sides", "the two boundaries of a wall lie on different edges"); return; }
                if (b) { V3 m = {0, 0, 0}; double u = 0, v = 0; Loop uv = trace(f.uv[0], "parameter curve", 1e-6); double u0 = 1e30, u1 = -1e30, v0 = 1e30, v1 = -1e30; for (auto& p : uv.p) { u0 = std::min(u0, p.x); u1 = std::max(u1, p.x); v0 = std::min(v0, p.y); v1 = std::max(v1, p.y); } u = (u0 + u1) / 2; v = (v0 + v1) / 2; V3 n = norm(f, u, v); m = f.S.at(u, v);
                    const S& g = w.loops[li][si]; ld step = 1e-4L * total(w.loops[0]); if (g.k != LINE) step = std::min(step, g.r() / 10); P a = {m.x + n.x * step, m.y + n.y * step}; bool in = inside(w.loops[0], a); for (size_t j = 1; j < w.loops.size(); j++) if (inside(w.loops[j], a)) in = false; sign[in]++; }
            }
            same(f, "wall");
        }
        for (size_t j = 0; j < w.loops.size(); j++) for (size_t s = 0; s < w.loops[j].size(); s++) {
            const S& g = w.loops[j][s]; double sum = 0; for (auto& q : parts) if (q.loop == (int)j && q.seg == (int)s) sum += q.top.L; if (fabs(sum - length(g)) > 2e-3 * length(g) + tol) { bad("cover", fmt("the walls along %s are %.9g long instead of %.9Lg", str(g).c_str(), sum, length(g))); return; }
            for (int k = 0; k < 23; k++) { P p = at(g, (k + .4142L) / 23); int n = 0; for (auto& q : parts) if (q.loop == (int)j && q.seg == (int)s) { double d = 1e9; for (size_t a = 0; a + 1 < q.top.p.size(); a += 2) { S e = line({q.top.p[a].x, q.top.p[a].y}, {q.top.p[a + 1].x, q.top.p[a + 1].y}); d = std::min<double>(d, distance(e, p)); } if (d < 4e-3 * std::max<double>(g.k == LINE ? 0 : g.r(), 1e-4)) n++; } if (n < 1) { bad("cover", fmt("%d walls stand at the point %.3g of %s", n, (k + .4142) / 23, str(g).c_str())); return; } }
        }
        c.outcome(sign[1] == 0 ? "walls outward" : sign[0] == 0 ? "walls inward" : "walls mixed"); c.check(sign[0] == 0 || sign[1] == 0, "normal:wall", what + fmt("\nthe normals of %d walls point out of the solid, those of %d into it", sign[0], sign[1]));
    }
};
static const vector<Chain>& lattice(bool deep) { static vector<Chain> a[2]; vector<Chain>& r = a[deep]; if (r.empty()) { vector<S> segs; P L[4] = {{0, 0}, {1, 0}, {0, 1}, {1, 1}};
    for (auto& p : L) for (auto& q : L) if (!(p.x == q.x && p.y == q.y)) { segs.push_back(line(p, q)); for (ld cx : {-1.L, 0.L, .5L, 1.L, 2.L}) for (ld cy : {-1.L, 0.L, .5L, 1.L, 2.L}) { P k = {cx, cy}; if (len(p - k) > 1e-9L && fabsl(len(p - k) - len(q - k)) < 1e-12L) for (int cw = 0; cw < 2; cw++) segs.push_back(arc(k, p, q, cw)); } }
    for (auto& ch : cycles(segs, deep ? 4 : 3)) if (fabsl(area2(ch)) > 1e-6L) r.push_back(ch); } return r; }
static Chain spun(P c, ld r, ld a0, ld w, bool cw, int how) {      // an arc and what closes it
    P a = c + P{cosl(a0), sinl(a0)} * r, b = c + P{cosl(a0 + w), sinl(a0 + w)} * r; Chain ch; if (how == 0) ch = {arc(c, a, b, false), line(b, a)}; else if (how == 1) ch = {arc(c, a, b, false), line(b, c), line(c, a)}; else { P far = c + P{cosl(a0 + w / 2), sinl(a0 + w / 2)} * (r * 3), d1 = c + P{cosl(a0), sinl(a0)} * (r * 3), d2 = c + P{cosl(a0 + w), sinl(a0 + w)} * (r * 3); ch = {arc(c, b, a, true), line(a, d1), line(d1, far), line(far, d2), line(d2, b)}; }
    if (cw) ch = flip(ch); return ch;
}
static Chain poly(vector<P> v) { Chain c; for (size_t i = 0; i < v.size(); i++) c.push_back(line(v[i], v[(i + 1) % v.size()])); return c; }
static Chain roundRect(P a, P b, ld r) { P k[4] = {{a.x + r, a.y + r}, {b.x - r, a.y + r}, {b.x - r, b.y - r}, {a.x + r, b.y - r}}; Chain c; for (int i = 0; i < 4; i++) { P n = k[(i + 1) % 4]; ld t = -PI / 2 + i * PI / 2; P d = {cosl(t), sinl(t)}, e = {cosl(t + PI / 2), sinl(t + PI / 2)}; c.push_back(line(k[i] + d * r, n + d * r)); c.push_back(arc(n, n + d * r, n + e * r, false)); } return c; }
static Chain stadium(P a, P b, ld r) { P d = b - a; ld l = len(d); P n = P{-d.y, d.x} * (r / l); return {line(a - n, b - n), arc(b, b - n, b + n, false), line(b + n, a + n), arc(a, a + n, a - n, false)}; }
static bool fill(MCAD_OUTLINE& o, const Chain& ch) { for (auto& s : ch) { MCAD_SEGMENT* m = new MCAD_SEGMENT; bool e = false; if (!set(*m, s) || !o.AddSegment(m, e)) { delete m; return false; } } return true; }
struct Mute { std::streambuf* o; std::stringstream s; Mute() { o = std::cerr.rdbuf(s.rdbuf()); } ~Mute() { std::cerr.rdbuf(o); } };
static string build(Ctx& c, IGES& g, IGES_GEOM_PCB& o, double top, double bot, int& nw) {
    vector<IGES_ENTITY_144*> w, t; bool e1 = true, e2 = true, e3 = true; bool ok = o.GetVerticalSurface(&g, e1, w, top, bot); nw = w.size(); if (!ok || e1) return "walls"; if (!o.GetTrimmedPlane(&g, e2, t, top, false) || e2) return "top"; if (!o.GetTrimmedPlane(&g, e3, t, bot, true) || e3) return "bottom"; if (t.size() != 2) return fmt("%zu caps", t.size()); return "";
}
static vector<Chain> current(MCAD_OUTLINE& o) {     // what a merged outline consists of (C13 judges that)
    auto seg = [](MCAD_SEGMENT* m) { P k = pm(m->GetCenter()), a = pm(m->GetMStart()), b = pm(m->GetMEnd()); return m->GetSegType() == MCAD_SEGTYPE_LINE ? line(a, b) : m->GetSegType() == MCAD_SEGTYPE_CIRCLE ? circle(k, a) : arc(k, a, b, m->IsCW()); };
    vector<Chain> r(1); for (auto* m : *o.GetSegments()) r[0].push_back(seg(m)); for (auto* k : *o.GetCutouts()) { r.push_back({}); for (auto* m : *k->GetSegments()) r.back().push_back(seg(m)); } for (auto* m : o.mholes) r.push_back({seg(m)}); return r;
}
static void judge(Ctx& c, IGES_GEOM_PCB& o, Want w, const string& what, bool known, double top, double bot) {
    w.top = std::max(top, bot); w.bot = std::min(top, bot); w.scale = 0; for (auto& l : w.loops) for (auto& s : l) w.scale = std::max<double>(w.scale, std::max(fabsl(s.a.x), fabsl(s.a.y)) + (s.k == LINE ? 0 : s.r())); w.scale = std::max(w.scale, std::max(fabs(top), fabs(bot)));
    IGES g; int nw = 0; string r; { Mute m; r = build(c, g, o, top, bot, nw); if (!r.empty()) { c.fail("refused:" + r, what + "\nrefused: " + m.s.str()); return; } } string f = c.scratch + "/a.igs", f2 = c.scratch + "/b.igs"; Judge J(c, w, what);
    c.check(g.Write(f.c_str(), true), "write", what + "\nthe model cannot be written"); string bytes = igs::slurp(f); c.validated();
    try {
        Reader R(bytes); vector<Face> F; for (size_t e = 0; e < R.F.e.size(); e++) if (R.F.e[e].de[0] == 144) { try { F.push_back(face(R, e)); } catch (Odd& x) { string where = F.size() < (size_t)nw ? "wall" : F.size() == (size_t)nw ? "top" : "bottom"; throw Odd{x.key + ":" + where, where + ": " + x.msg}; } }
        if (F.size() != (size_t)nw + 2) throw Odd{"faces", fmt("%zu trimmed surfaces in the file instead of %d walls and two caps", F.size(), nw)}; vector<Face> W(F.begin(), F.begin() + nw); J.walls(W); J.cap(F[nw], top, false); J.cap(F[nw + 1], bot, true); c.transition();
    } catch (Odd& x) { c.fail(x.key, what + "\n" + x.msg); return; } catch (igs::Bad& x) { c.fail("file:" + x.key, what + "\n" + x.msg); return; }
    IGES h; Mute m; c.check(h.Read(f.c_str()), "reread", what + "\nthe file cannot be read: " + m.s.str()); c.check(h.Write(f2.c_str(), true), "rewrite", "the model read back cannot be written"); string b2 = igs::slurp(f2);
    auto body = [](const string& s) { string r; size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); if (e == string::npos) e = s.size(); string l = s.substr(i, e - i); if (l.size() > 72 && l[72] != 'G') r += l + "\n"; i = e + 1; } return r; }; c.check(body(bytes) == body(b2), "rewritten", what + "\nthe file changes when it is read and written again");
}
static void explore(Ctx& c) {
    int part = c.choose(4, "part"); Want w; string what; static const double HT[][2] = {{1.5, 0}, {0.8, -0.8}, {0, -1}, {-1.5, 1.5}, {100.25, 0.125}, {0.0021, 0}};
    if (part == 0) {            // lattice chains
        auto& L = lattice(c.thorough); int k = c.choose(L.size(), "chain"); int place = c.choose(c.thorough ? 4 : 2, "place"); int rot = c.choose(c.thorough ? 4 : 1, "first"), dir = c.choose(2, "direction"), h = c.choose(c.thorough ? 3 : 1, "heights"); Chain ch = L[k]; if (!c.thorough && (k + dir + place) % 2) { c.skip(); return; } if (rot >= (int)ch.size()) { c.skip(); return; } c.begin();
        std::rotate(ch.begin(), ch.begin() + rot, ch.end()); if (dir) ch = flip(ch); static const P AT[] = {{0, 0}, {-0.5L, 20.25L}, {-1000, -3}, {1234.5L, 0.125L}}; ch = shift(ch, AT[place]); w.loops = {ch}; what = show(ch); IGES_GEOM_PCB o; c.site("lattice"); bool ok; { Mute m; ok = fill(o, ch); } if (!ok || !o.mIsClosed) { c.fail("outline", "outline refused: " + what); return; }
        c.say(what); c.state(mc::hstr(what)); c.nontrivial(mc::hstr(what)); judge(c, o, w, what, true, HT[h][0], HT[h][1]); c.outcome("lattice");
    } else if (part == 1) {     // arcs from every direction through every angle
        int how = c.choose(3, "closing"), a = c.choose(24, "start"), s = c.choose(23, "sweep"), eps = c.choose(c.thorough ? 9 : 5, "misplacement"), end = c.choose(2, "misplaced end"), dir = c.choose(2, "direction"), pl = c.choose(2, "place"); static const ld E[] = {0, 1e-16L, -1e-12L, 3e-9L, -1e-6L, -1e-16L, 1e-12L, -3e-9L, 1e-6L};
        if ((eps == 0 && end) || (eps && (a % 6 && (a + s + 1) % 6)) || (how == 2 && s > 9)) { c.skip(); return; } if (!c.thorough && ((eps && pl) || (a + s + dir + pl) % 2)) { c.skip(); return; } c.begin();
        ld a0 = a * PI / 12, sw = (s + 1) * PI / 12; if (end) sw += E[eps]; else { a0 += E[eps]; sw -= E[eps]; } Chain ch = spun(pl ? P{31.25L, -7.5L} : P{0, 0}, pl ? 12.5L : 1, a0, sw, dir, how); what = fmt("closing %d start %d*15 sweep %d*15 %s misplaced by %Lg, ", how, a, s + 1, end ? "end" : "start", E[eps]) + show(ch); if (fabsl(area2(ch)) < 1e-3L) { c.skip(); return; }
        w.loops = {ch}; IGES_GEOM_PCB o; c.site("arcs"); bool ok; { Mute m; ok = fill(o, ch); } if (!ok || !o.mIsClosed) { if (eps) { c.outcome("misplaced outline refused"); return; } c.fail("outline", "outline refused: " + what); return; } c.say(what); c.state(mc::hstr(what)); c.nontrivial(mc::hstr(what)); judge(c, o, w, what, true, 1.6, 0); c.outcome("arcs");
    } else if (part == 2) {     // boards with cutouts and holes
        int shape = c.choose(7, "board"), hole = c.choose(9, "holes"), cut = c.choose(9, "cutout"), dir = c.choose(2, "direction"), cd = c.choose(2, "cutout direction"), h = c.choose(6, "heights"), ov = c.choose(2, "overlap check"); if (!c.thorough && (h + shape + hole + cut) % 3) { c.skip(); return; } if (cd && !cut) { c.skip(); return; } c.begin();
        Chain b; switch (shape) { case 0: b = poly({{0, 0}, {20, 0}, {20, 20}, {0, 20}}); break; case 1: b = poly({{-20, -4}, {20, -4}, {20, 26}, {-20, 26}}); break; case 2: b = poly({{0, 0}, {20, 0}, {20, 80}, {0, 80}}); break; case 3: b = roundRect({-5, 0}, {25, 20}, 2.5L); break; case 4: b = stadium({5, 10}, {45, 10}, 10); break; case 5: b = {circle({10, 10}, {22, 10})}; break; default: b = poly({{-1, -1}, {30, -1}, {30, 25}, {20, 25}, {20, 21}, {-1, 21}}); }
        if (shape == 5) dir ? void() : void(); if (dir) { if (shape == 5) { c.skip(); return; } b = flip(b); } IGES_GEOM_PCB o; c.site("boards"); bool e = false; { Mute m; if (!fill(o, b) || !o.mIsClosed) { c.fail("outline", "outline refused: " + show(b)); return; } } w.loops = {b}; vector<Chain> cuts, holes;
        switch (hole) { case 1: holes = {{circle({5, 5}, {6, 5})}}; break; case 2: holes = {{circle({5, 15}, {5, 14.5L})}}; break; case 3: holes = {{circle({4, 4}, {4.5L, 4})}, {circle({16, 4}, {16, 4.5L})}}; break; case 4: holes = {{circle({4, 10}, {4.125L, 10})}, {circle({16, 16}, {15, 16})}}; break; case 5: holes = {{circle({6, 4}, {6.6L, 4.8L})}}; break; case 6: holes = {{circle({15.5L, 12}, {15.5L, 12.004L})}}; break; case 7: holes = {{circle({4, 4}, {5, 4})}, {circle({16, 4}, {17, 4})}, {circle({16, 16}, {17, 16})}}; break; case 8: holes = {{circle({20, 10}, {21, 10})}}; break; }
        switch (cut) { case 1: cuts = {poly({{8, 8}, {12, 8}, {12, 12}, {8, 12}})}; break; case 2: cuts = {stadium({8, 10}, {12, 10}, 1.5L)}; break; case 3: cuts = {stadium({9, 9}, {11, 11}, 1)}; break; case 4: cuts = {spun({10, 10}, 2, PI / 6, PI * 5 / 6, false, 0)}; break; case 5: cuts = {spun({10, 10}, 2, -PI / 3, PI * 3 / 2, false, 1)}; break; case 6: cuts = {poly({{7, 8}, {9, 8}, {8, 10}}), roundRect({10, 8}, {13, 12}, .5L)}; break; case 7: cuts = {{circle({10, 10}, {12, 10})}}; break; case 8: cuts = {poly({{9, -2}, {12, -2}, {12, 6}, {9, 6}})}; break; }
        if ((hole == 8 || cut == 8) && !ov) { c.skip(); return; } bool merged = hole == 8 || cut == 8; what = show(b);
        { Mute m; for (auto k : cuts) { if (cd) k = flip(k); MCAD_OUTLINE* q = new MCAD_OUTLINE; if (!fill(*q, k) || !o.AddCutout(q, ov, e)) { delete q; if (merged) { c.outcome("cutout over the edge refused"); return; } c.fail("cutout", what + "\ncutout refused: " + show(k)); return; } what += "\ncutout " + show(k); w.loops.push_back(k); }
          for (auto& k : holes) { MCAD_SEGMENT* q = new MCAD_SEGMENT; if (!set(*q, k[0]) || !o.AddCutout(q, ov, e)) { delete q; if (merged) { c.outcome("hole over the edge refused"); return; } c.fail("hole", what + "\nhole refused: " + show(k)); return; } what += "\nhole " + show(k); w.loops.push_back(k); } }
        if (merged) w.loops = current(o); what += fmt("\nheights %g %g", HT[h][0], HT[h][1]); c.say(what); c.state(mc::hstr(what)); c.nontrivial(mc::hstr(what)); judge(c, o, w, what, !merged, HT[h][0], HT[h][1]); c.outcome("boards");
    } else {                    // requests which cannot be met
        int kind = c.choose(6, "outline"), bad = c.choose(8, "request"), surf = c.choose(3, "call"); c.begin(); IGES_GEOM_PCB o; bool e = false; Chain b = kind == 3 ? Chain{circle({0, 0}, {2, 0})} : kind == 4 ? stadium({0, 0}, {4, 0}, 1) : poly({{0, 0}, {4, 0}, {4, 3}, {0, 3}}); if (kind == 1) b.pop_back(); if (kind == 2) b.clear(); Mute m; fill(o, b); if (kind == 5) { MCAD_SEGMENT* q = new MCAD_SEGMENT; set(*q, circle({2, 1.5L}, {2.5L, 1.5L})); o.AddCutout(q, false, e); }
        double nan = strtod("nan", 0), inf = strtod("inf", 0), T[][2] = {{1, 0}, {1, 1}, {0, 0}, {nan, 0}, {1, nan}, {inf, 0}, {1, -inf}, {1e-7, 0}}; IGES g; IGES_ENTITY* ep = 0; g.NewEntity(110, &ep); ((IGES_ENTITY_110*)ep)->X2 = 1; vector<IGES_ENTITY_144*> s(1, (IGES_ENTITY_144*)0); string id = fmt("outline %d request %d call %d", kind, bad, surf); c.say(id); c.state(mc::hstr(id)); c.nontrivial(mc::hstr(id)); c.site("refusals");
        for (int null = 0; null < 2; null++) { IGES* gp = null ? 0 : &g; double top = T[bad][0], bot = T[bad][1]; bool err = false, ok; ok = surf == 0 ? o.GetVerticalSurface(gp, err, s, top, bot) : o.GetTrimmedPlane(gp, err, s, surf == 1 ? top : bot, surf == 2); bool fine = !null && kind != 1 && kind != 2 && (surf == 0 ? bad == 0 : std::isfinite(surf == 1 ? top : bot));
            if (fine) { c.check(ok && !err, "refused", id + " refused: " + m.s.str()); c.check(s.size() > 1, "none", id + ": no surface"); s.resize(1); c.outcome("met"); g.Clear(); g.NewEntity(110, &ep); ((IGES_ENTITY_110*)ep)->X2 = 1; continue; }
            c.check(!ok && err, "accepted", id + (ok ? ": accepted" : ": refused without the error flag")); c.check(s.size() == 1, "surfaces", id + fmt(": refused but %zu surfaces were returned", s.size() - 1)); string f = c.scratch + "/r.igs"; c.check(g.Write(f.c_str(), true), "write", id + ": the model cannot be written afterwards"); IGES h; c.check(h.Read(f.c_str()), "reread", id + ": the model cannot be read back"); size_t n = 0, junk = 0; for (auto* p : h.entities) { n++; if (p->GetEntityType() == 144) junk++; } c.check(!junk, "left", id + fmt(": refused but %zu trimmed surfaces are left in the model", junk)); c.check(n == 1, "rest", id + fmt(": refused but the model holds %zu entities instead of 1", n)); c.validated(); c.outcome("refused"); }
    }
}
MC_MAIN(explore, 4, 20)
