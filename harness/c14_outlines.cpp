// C14: chains of segments offered to an outline, insideness of points for every simple closed outline of a lattice family, and the
// acceptance of cutouts. Compiled with -fno-access-control so that the drawn order of the stored segments can be read.
#include "outline.hpp"
using namespace geo; using std::string; using std::vector; using mc::fmt;
static P T(P p, int t) { switch (t) { case 1: return p * 0.1L + P{100.5L, -33.25L}; case 2: return P{p.x * 0.6L - p.y * 0.8L, p.x * 0.8L + p.y * 0.6L}; case 3: return p * 25.4L + P{-0.1L, 7.3L}; case 4: return P{-p.y, p.x} * 0.7L; } return p; }
static S T(S s, int t) { s.a = T(s.a, t); s.b = T(s.b, t); s.c = T(s.c, t); return s; }
static bool cyclic(MCAD_OUTLINE& o) { auto* l = o.GetSegments(); if (l->empty()) return false; MCAD_SEGMENT* prev = l->back(); if (prev->GetSegType() == MCAD_SEGTYPE_CIRCLE) return l->size() == 1; for (auto* s : *l) { if (!same(pm(prev->GetMEnd()), pm(s->GetMStart()), 1e-6L)) return false; prev = s; } return true; }
static ld drawn(MCAD_OUTLINE& o) { Chain ch; for (auto* s : *o.GetSegments()) { P a = pm(s->GetMStart()), b = pm(s->GetMEnd()), c = pm(s->GetCenter()); ch.push_back(s->GetSegType() == MCAD_SEGTYPE_LINE ? line(a, b) : s->GetSegType() == MCAD_SEGTYPE_ARC ? arc(c, a, b, s->IsCW()) : circle(c, a)); } return area2(ch); }
static void chains(mc::Ctx& c) {
    static vector<S> all = segments(2); static vector<S> v; if (v.empty()) { for (auto& s : all) if (s.k != CIRCLE) v.push_back(s); for (auto& s : all) if (s.k == CIRCLE) { v.push_back(s); break; } }
    int n = (int)v.size(), depth = c.thorough ? 5 : 4; MCAD_OUTLINE o; vector<S> cur; vector<MCAD_SEGMENT*> ptrs; bool closed = false; string d; c.site("chain");
    for (int k = 0; k < depth; k++) {
        int j = c.choose(n + 5, "segment"); if (j == 0) break; j--; MCAD_SEGMENT* s = NULL; S w{}; bool ok = !closed, err = true;
        if (j == n) { ok = false; d += " NULL;"; } else if (j == n + 1) { s = new MCAD_SEGMENT; ok = false; d += " undefined;"; }
        else {
            if (j < n) w = v[j]; else { P at = cur.empty() ? P{0, 0} : cur.back().b; ld e = j == n + 2 ? 1e-6L : 1e-9L; w = line(P{at.x + e, at.y}, P{same(at, {0.5L, 0.5L}, 0.1L) ? 1.5L : 0.5L, 0.5L}); }
            s = new MCAD_SEGMENT; if (!set(*s, w)) { delete s; c.fail("definition refused", str(w)); return; }
            if (w.k == CIRCLE) { if (!cur.empty()) ok = false; } else if (!cur.empty() && !same(cur.back().b, w.a, 1e-8L)) ok = false; d += " " + str(w) + ";";
        }
        bool r = o.AddSegment(s, err); c.transition();
        if (r != ok) { c.fail(ok ? "a continuing segment is refused" : "a segment which does not fit is accepted", d); if (!r) delete s; return; }
        if (err == ok) c.fail("the error flag disagrees with the result", d);
        if (!r) delete s; else { cur.push_back(w); ptrs.push_back(s); closed = w.k == CIRCLE || (cur.size() > 1 && same(cur[0].a, cur.back().b, 1e-8L)); }
        auto* l = o.GetSegments(); if (o.IsClosed() != closed) { c.fail(closed ? "a closed outline is not recognised" : "an open outline is called closed", d); return; }
        vector<MCAD_SEGMENT*> have(l->begin(), l->end()); if (!closed ? have != ptrs : std::set<MCAD_SEGMENT*>(have.begin(), have.end()) != std::set<MCAD_SEGMENT*>(ptrs.begin(), ptrs.end()) || have.size() != ptrs.size()) { c.fail(r ? "the segments are not those accepted" : "a refused segment changes the outline", d); return; }
        if (o.IsContiguous() != closed) { c.fail("contiguity is misjudged", d); return; } if (closed && !cyclic(o)) { c.fail("the closed outline is not contiguous", d); return; }
        if (!closed) { bool e2 = false; if (o.IsInside(MCAD_POINT(0.25, 0.25, 0), e2) || !e2) { c.fail("an open outline has an inside", d); return; } }
        if (r && !o.GetCutouts()->empty()) c.fail("cutouts from nowhere", d);
    }
    c.outcome(closed ? "chain closed" : "chain open"); c.nontrivial(mc::hstr(d));
}
static void insides(mc::Ctx& c) {
    static vector<Chain> A, B; if (A.empty()) { auto v = segments(3); A = cycles(v, c.thorough ? 5 : 4); vector<S> s; for (auto& x : v) if (x.k == LINE || (x.k == ARC && x.r() < 1.2L)) s.push_back(x); for (auto& ch : cycles(s, c.thorough ? 6 : 5)) if (ch.size() > (c.thorough ? 5u : 4u)) B.push_back(ch); for (auto& x : v) if (x.k == CIRCLE) B.push_back({x}); }
    bool second = c.flip("family"); auto& F = second ? B : A; int i = c.choose((int)F.size(), "outline"); Chain ch = F[i]; int rot = c.choose(std::min<int>(2, (int)ch.size()), "start"); std::rotate(ch.begin(), ch.begin() + rot, ch.end()); c.begin(); c.site("insideness"); string d = str(ch);
    struct Q { P p; int in; }; static const int G = 17; vector<Q> qs; qs.reserve(G * G);
    for (int y = 0; y < G; y++) for (int x = 0; x < G; x++) { P p{x * 0.25L - 1, y * 0.25L - 1}; ld e = distance(ch, p); qs.push_back({p, e < 1e-12L ? 0 : inside(ch, p) ? 1 : -1}); if (e >= 1e-12L && e < 1e-6L) qs.pop_back(); }
    // level with the ends and extremes of the segments
    for (auto& s : ch) if (s.k != LINE) for (int k = 0; k < 8; k++) { ld y = k < 2 ? s.c.y + (k ? -1 : 1) * s.r() : (k & 1 ? s.a.y : s.b.y), x = s.c.x + s.r() * (k < 2 ? -1.3L : k < 4 ? 1.2L : k < 6 ? 0.1L : -0.3L); P p{x, y}; ld e = distance(ch, p); if (e < 1e-12L || e > 1e-6L) qs.push_back({p, e < 1e-12L ? 0 : inside(ch, p) ? 1 : -1}); }
    for (int t = 0; t < 5; t++) {
        MCAD_OUTLINE o; for (auto& s : ch) { MCAD_SEGMENT* m = new MCAD_SEGMENT; bool e; if (!set(*m, T(s, t)) || !o.AddSegment(m, e)) { delete m; c.fail("a continuing segment is refused", d + fmt(" map %d", t)); return; } }
        if (!o.IsClosed() || !o.IsContiguous() || !cyclic(o)) { c.fail("a closed outline is not recognised", d + fmt(" map %d", t)); return; }
        if (drawn(o) < 0) { c.fail("a closed outline runs clockwise", d + fmt(" map %d", t)); return; }
        for (auto& q : qs) { bool e = false; bool r = o.IsInside(mp(T(q.p, t)), e); if (e) { c.fail("insideness reports an error", d); return; } if (r != (q.in >= 0)) { c.fail(q.in == 0 ? "a point on the outline is called outside" : q.in > 0 ? "a point inside is called outside" : "a point outside is called inside", d + fmt(" map %d at (%Lg,%Lg)", t, q.p.x, q.p.y)); return; } }
        c.transition(qs.size());
    }
    c.outcome("insideness"); c.nontrivial(mc::hstr(d));
}
static MCAD_OUTLINE* made(const Chain& ch) { MCAD_OUTLINE* o = new MCAD_OUTLINE; bool e; for (auto& s : ch) { MCAD_SEGMENT* m = new MCAD_SEGMENT; set(*m, s); o->AddSegment(m, e); } return o; }
static Chain square(P a, ld w) { P p[4] = {a, {a.x + w, a.y}, {a.x + w, a.y + w}, {a.x, a.y + w}}; return {line(p[0], p[1]), line(p[1], p[2]), line(p[2], p[3]), line(p[3], p[0])}; }
static vector<string> shape(MCAD_OUTLINE& o) { vector<string> v; for (auto* s : *o.GetSegments()) v.push_back(fmt("%d %.6f %.6f %.6f %.6f %.6f", s->GetSegType(), s->GetMStart().x, s->GetMStart().y, s->GetMEnd().x, s->GetMEnd().y, s->GetRadius())); std::sort(v.begin(), v.end()); return v; }
static void cutouts(mc::Ctx& c) {
    int kind = c.choose(4, "main"); Chain m = kind == 0 ? square({0, 0}, 10) : kind == 1 ? Chain{circle({5, 5}, {5, 15})} : kind == 2 ? Chain{arc({0, 5}, {0, 0}, {0, 10}, true), line({0, 10}, {10, 10}), arc({10, 5}, {10, 10}, {10, 0}, true), line({10, 0}, {0, 0})} : Chain{line({0, 0}, {9, 0}), line({9, 0}, {9, 9})};
    std::unique_ptr<MCAD_OUTLINE> o(made(m)); bool open = kind == 3; auto before = shape(*o); vector<void*> cuts, holes; string d = fmt("main %d:", kind); c.site("cutouts"); int depth = c.thorough ? 4 : 3;
    for (int k = 0; k < depth; k++) {
        int j = c.choose(13, "cutout"); if (!j) break; bool ov = c.flip("overlaps"); bool err = true, r, ok; d += fmt(" %d%s", j, ov ? " checked" : "");
        MCAD_OUTLINE* q = NULL; MCAD_SEGMENT* s = NULL; bool outl = false; P at[3] = {{1, 1}, {4, 4}, {7, 1}};
        switch (j) { case 1: case 2: case 3: q = made(square(at[j - 1], 1)); outl = true; break; case 4: case 5: case 6: q = made({circle(at[j - 4] + P{0.5L, 0.5L}, at[j - 4] + P{1, 0.5L})}); outl = true; break;
            case 7: case 8: s = new MCAD_SEGMENT; set(*s, circle(at[j - 7] + P{0, 5}, at[j - 7] + P{0.5L, 5})); break; case 9: q = made({line({2, 2}, {3, 2}), line({3, 2}, {3, 3})}); outl = true; break; case 10: s = new MCAD_SEGMENT; set(*s, line({2, 2}, {3, 3})); break; case 11: outl = true; break; }
        bool used = false; for (size_t x = 0; x < d.size(); x++) (void)x; static thread_local vector<int> seen; if (k == 0) seen.clear(); int slot = j <= 6 ? (j - 1) % 3 : j; for (int x : seen) if (x == slot) used = true; 
        ok = (j <= 8) && !(open && ov); if (used && ov && j <= 8) { delete q; delete s; break; }     // checked against one that is already there: left to the outline operations
        r = outl ? o->AddCutout(q, ov, err) : o->AddCutout(s, ov, err); c.transition(); if (r) seen.push_back(slot);
        if (r != ok) { c.fail(ok ? "a proper cutout is refused" : "an improper cutout is accepted", d); if (!r) { delete q; delete s; } return; }
        if (err == ok) c.fail("the error flag disagrees with the result", d);
        if (r) (outl ? cuts.push_back(q) : holes.push_back(s)); else { delete q; delete s; }
        vector<void*> hc(o->GetCutouts()->begin(), o->GetCutouts()->end()), hh(o->GetDrillHoles()->begin(), o->GetDrillHoles()->end()); if (hc != cuts || hh != holes) { c.fail(r ? "the cutouts are not those accepted" : "a refused cutout changes the outline", d); return; } if (shape(*o) != before || o->IsClosed() == open) { c.fail("a cutout changes the outline", d); return; }
    }
    c.outcome("cutouts"); c.nontrivial(mc::hstr(d));
}
static void explore(mc::Ctx& c) { switch (c.choose(3, "part")) { case 0: chains(c); break; case 1: insides(c); break; default: cutouts(c); } }
MC_MAIN(explore, 3, 30)
