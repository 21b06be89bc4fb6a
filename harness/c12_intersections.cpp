// C12: for every pair of segments of a lattice family the intersection query is compared with exact plane geometry; the answer must
// not depend on which segment is asked, on the direction of drawing, or on a common translation.
#include "seg.hpp"
#include <api/dll_mcad_segment.h>
using namespace geo; using std::string; using std::vector; using mc::fmt;
struct Ans { bool r; vector<P> pts; int flag; };
static string str(const Ans& a) { string s = fmt("%s, flag %d,", a.r ? "yes" : "no", a.flag); for (auto& p : a.pts) s += fmt(" (%.6Lg,%.6Lg)", p.x, p.y); return s; }
static string str(const Truth& t) { string s; for (auto& p : t.pts) s += fmt(" point (%.6Lg,%.6Lg)", p.x, p.y); for (auto& e : t.edges) s += fmt(" edge (%.6Lg,%.6Lg)-(%.6Lg,%.6Lg)", e.first.x, e.first.y, e.second.x, e.second.y); if (t.tangent) s += " tangent"; if (t.ident) s += " identical"; if (t.nest) s += fmt(" nested %d", t.nest); return s.empty() ? " nothing" : s; }
static Ans ask(const S& a, const S& b, bool wrapped) {
    Ans r; MCAD_INTERSECT_FLAG f = MCAD_IFLAG_NONE;
    if (wrapped) { DLL_MCAD_SEGMENT s(true), o(true); set(*s.GetRawPtr(), a); set(*o.GetRawPtr(), b); MCAD_POINT* l = 0; int n = 0; r.r = s.GetIntersections(o, l, n, f); for (int i = 0; i < n; i++) r.pts.push_back(pm(l[i])); delete[] l; }
    else { MCAD_SEGMENT s, o; set(s, a); set(o, b); std::list<MCAD_POINT> l; r.r = s.GetIntersections(o, l, f); for (auto& p : l) r.pts.push_back(pm(p)); }
    r.flag = f; return r;
}
static bool sameSet(const vector<P>& a, const vector<P>& b, ld e = 1e-6L) { if (a.size() != b.size()) return false; for (auto& p : a) { bool f = false; for (auto& q : b) if (same(p, q, e)) f = true; if (!f) return false; } for (auto& p : b) { bool f = false; for (auto& q : a) if (same(p, q, e)) f = true; if (!f) return false; } return true; }
static const char* KN[] = {"line", "arc", "circle"};
// "" or what is wrong
static string judge(const S& a, const S& b, const Truth& t, const Ans& r) {
    bool anyEnd = false, allEnd = true; for (auto& p : t.pts) { bool e = isEnd(a, p) || isEnd(b, p); anyEnd |= e; allEnd &= e; }
    if (t.ident) return r.flag == MCAD_IFLAG_IDENT ? "" : "identical circles are not flagged";
    if (!t.edges.empty()) {
        if (r.flag != MCAD_IFLAG_EDGE && r.flag != MCAD_IFLAG_MULTIEDGE) return "an overlap is not flagged";
        if (t.edges.size() == 1 && t.pts.empty() && !(r.r && sameSet(r.pts, {t.edges[0].first, t.edges[0].second}))) return "the ends of the overlap are wrong";
        return "";
    }
    if (t.tangent) {
        if (t.nest && r.flag == (t.nest > 0 ? MCAD_IFLAG_ENCIRCLES : MCAD_IFLAG_INSIDE) && !r.r) return "";
        if (r.flag != MCAD_IFLAG_TANGENT && !(allEnd && r.flag == MCAD_IFLAG_ENDPOINT)) return "a tangency is not flagged";
        if (!r.pts.empty() && !sameSet(r.pts, t.pts, 1e-5L)) return "the point of tangency is wrong"; return "";
    }
    if (t.pts.empty()) { if (r.r || !r.pts.empty()) return "an intersection is reported where there is none"; int want = t.nest > 0 ? MCAD_IFLAG_ENCIRCLES : t.nest < 0 ? MCAD_IFLAG_INSIDE : MCAD_IFLAG_NONE; return r.flag == want ? "" : "the flag is wrong"; }
    if (!r.r) return "an intersection is missed";
    if (!sameSet(r.pts, t.pts)) return "the points are wrong";
    bool arcs = a.k == ARC && b.k == ARC;
    if (arcs && t.pts.size() == 2 && allEnd && isEnd(a, t.pts[0]) && isEnd(b, t.pts[0]) && isEnd(a, t.pts[1]) && isEnd(b, t.pts[1]) && (r.flag == MCAD_IFLAG_INSIDE || r.flag == MCAD_IFLAG_OUTSIDE)) return "";
    if (r.flag == MCAD_IFLAG_NONE) return anyEnd ? "an end point is not flagged" : "";
    if (r.flag == MCAD_IFLAG_ENDPOINT) return anyEnd ? "" : "an end point is flagged"; return "the flag is wrong";
}
static int flagClass(int f) { return f == MCAD_IFLAG_ENCIRCLES || f == MCAD_IFLAG_OUTSIDE ? MCAD_IFLAG_INSIDE : f; }
static const P SH[] = {{0, 0}, {1000.5L, -333.25L}, {-0.1L, 7.3L}, {-4e4L, 3e4L}};
static void explore(mc::Ctx& c) {
    static vector<S> seg = segments(c.thorough ? 5 : 4), small = segments(3);
    int set = c.choose(4, "lattice"); const vector<S>& v = set ? small : seg; int i = c.choose((int)v.size(), "first"), j = i + c.choose((int)v.size() - i, "second"); c.begin();
    S a = v[i], b = v[j]; if (set) for (S* s : {&a, &b}) for (P* p : {&s->a, &s->b, &s->c}) { if (set == 2) *p = P{p->x * 0.6L - p->y * 0.8L, p->x * 0.8L + p->y * 0.6L}; else *p = *p * (set == 1 ? 0.1L : 100); }
    Truth t = meet(a, b); c.site(fmt("%s %s", KN[a.k], KN[b.k])); c.say(str(a) + " / " + str(b) + ":" + str(t));
    const char* kind = t.ident ? "identical" : !t.edges.empty() ? "overlap" : t.tangent ? "tangent" : t.nest ? "nested" : t.pts.empty() ? "apart" : t.pts.size() == 1 ? "one" : "two";
    Ans first{}; bool have = false;
    for (int w = 0; w < (set ? 2 : 3); w++) for (int sw = 0; sw < 2; sw++) {
        S x = shift(sw ? b : a, SH[w]), y = shift(sw ? a : b, SH[w]); Truth u = t; for (auto& p : u.pts) p = p + SH[w]; for (auto& e : u.edges) { e.first = e.first + SH[w]; e.second = e.second + SH[w]; } if (sw) u.nest = -u.nest;
        Ans r = ask(x, y, w == 1 && sw == 0); string bad = judge(x, y, u, r);
        if (!bad.empty()) c.fail(fmt("%s %s %s: %s", KN[x.k], KN[y.k], kind, bad.c_str()), str(x) + " asked about " + str(y) + ": " + str(r) + "; truly" + str(u));
        if (!have) { first = r; have = true; } else if (r.r != first.r || flagClass(r.flag) != flagClass(first.flag)) c.fail(fmt("%s %s %s: %s", KN[x.k], KN[y.k], kind, w ? "translation changes the answer" : "the answer depends on which is asked"), str(x) + " asked about " + str(y) + ": " + str(r) + "; first " + str(first));
    }
    // direction of drawing
    for (int m = 1; m < 4; m++) { S x = m & 1 ? flip(a) : a, y = m & 2 ? flip(b) : b; Ans r = ask(x, y, false); if (r.r != first.r || r.flag != first.flag || !sameSet(r.pts, first.pts)) { c.fail(fmt("%s %s %s: direction changes the answer", KN[a.k], KN[b.k], kind), str(x) + " asked about " + str(y) + ": " + str(r) + "; " + str(first)); } }
    c.outcome(kind); c.nontrivial(mc::hstr(fmt("%d %d %d", set, i, j))); c.transition(6);
}
MC_MAIN(explore, 2, 20)
