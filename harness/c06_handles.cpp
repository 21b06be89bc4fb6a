// C06: handles of the public wrapper layer under every short history of creating, attaching, detaching, moving, linking, deleting
// and destroying, against a reference model of ownership; and every method of every wrapper class on handles in every state.
// Whether an object exists is decided by AddressSanitizer's shadow memory, not by the library.
#include "lib.hpp"
#include <api/all_api_entities.h>
#include <api/dll_iges.h>
#include <api/dll_iges_geom_pcb.h>
#include <api/dll_mcad_outline.h>
#include <api/dll_mcad_segment.h>
#include <geom/mcad_segment.h>
#include <geom/mcad_outline.h>
#include <memory>
#include <sanitizer/asan_interface.h>
#include "c06_calls.hpp"
using std::string; using std::vector; using mc::fmt;
static bool alive(void* p) { return p && !__asan_address_is_poisoned(p); }
static const int TY[] = {100, 102, 104, 110, 120, 122, 124, 126, 128, 142, 144, 308, 314, 406, 408}; static const int NTY = 15;
#define EACH(X) X(100) X(102) X(104) X(110) X(120) X(122) X(124) X(126) X(128) X(142) X(144) X(308) X(314) X(406) X(408)
template <class P> static DLL_IGES_ENTITY* mk(int t, P p, bool create) {
    switch (t) {
#define X(n) case n: return new DLL_IGES_ENTITY_##n(p, create);
    EACH(X)
#undef X
    } return 0;
}
template <class P> static DLL_IGES_ENTITY* mkr(int t, P& p, bool create) {
    switch (t) {
#define X(n) case n: return new DLL_IGES_ENTITY_##n(p, create);
    EACH(X)
#undef X
    } return 0;
}
static IGES_ENTITY* raw(int t, IGES* g) {
    switch (t) {
#define X(n) case n: return new IGES_ENTITY_##n(g);
    EACH(X)
#undef X
    } return 0;
}
static string FILE_;
struct Args { string file = FILE_; DLL_IGES model; DLL_IGES_ENTITY_110 line; DLL_IGES_ENTITY_314 colour; DLL_IGES_ENTITY_142 c142; DLL_IGES_ENTITY_308 sub; DLL_MCAD_SEGMENT seg; DLL_MCAD_OUTLINE out;
    Args(bool ok) : line(model, ok), colour(model, ok), c142(model, ok), sub(model, ok), seg(ok), out(ok) { if (ok) { line.SetLineEnd(1, 2, 3); } } };
static int ncallsOf(int t) {
    switch (t) {
#define X(n) case n: return ncalls((DLL_IGES_ENTITY_##n*)0);
    EACH(X)
#undef X
    case 1: return ncalls((DLL_IGES*)0); case 2: return ncalls((DLL_MCAD_SEGMENT*)0); case 3: return ncalls((DLL_MCAD_OUTLINE*)0); case 4: return ncalls((DLL_IGES_GEOM_PCB*)0);
    } return 0;
}
static Call callOf(int t, void* h, int k, Args& a) {
    switch (t) {
#define X(n) case n: return call(*(DLL_IGES_ENTITY_##n*)(DLL_IGES_ENTITY*)h, k, a);
    EACH(X)
#undef X
    case 1: return call(*(DLL_IGES*)h, k, a); case 2: return call(*(DLL_MCAD_SEGMENT*)h, k, a); case 3: return call(*(DLL_MCAD_OUTLINE*)h, k, a); case 4: return call(*(DLL_IGES_GEOM_PCB*)h, k, a);
    } return Call{"", true};
}

// ---- every method on a handle in every state ----------------------------------------------------------------------------------
// states: 0 never attached, no parent; 1 never attached; 2 detached; 3 deleted through the handle; 4 deleted through another handle; 5 deleted by its model;
// 6 model cleared; 7 model destroyed; 8 object deleted directly; 9 valid (calls in pairs, then the model goes)
static void methods(mc::Ctx& c) {
    int ti = c.choose(NTY, "type"), t = TY[ti], st = c.choose(11, "state"); bool badArgs = c.flip("invalid arguments"); int n = ncallsOf(t);
    int k1 = st >= 9 ? c.choose(n, "first call") : 0, k2 = st == 9 ? c.choose(n, "second call") : 0; if (st == 10 && badArgs) c.skip(); c.begin();
    std::unique_ptr<DLL_IGES> M(new DLL_IGES); std::unique_ptr<Args> a(new Args(!badArgs));
    std::unique_ptr<DLL_IGES_ENTITY> h(st == 0 ? mk(t, (IGES*)0, false) : st == 10 ? mk(t, (IGES*)0, true) : mkr(t, *M, st != 1)), h2; IGES_ENTITY* e = st > 1 ? h->GetRawPtr() : 0;
    string what = fmt("%d handle, state %d%s", t, st, badArgs ? ", arguments invalid" : "");
    if (st > 1) c.check(h->IsValid() && e && alive(e), fmt("create:%d", t), what + ": a handle which created an entity is not valid");
    switch (st) {
    case 2: c.check(h->Detach() == e, fmt("detach:%d", t), what); break;
    case 3: h->DelEntity(); break;
    case 4: h2.reset(mkr(t, *M, false)); c.check(h2->Attach(e), fmt("attach:%d", t), what); h2->DelEntity(); break;
    case 5: c.check(M->DelEntity(h.get()), fmt("delete:%d", t), what); break;
    case 6: M->Clear(); break;
    case 7: M.reset(); break;
    case 8: M->UnlinkEntity(e); delete e; break;
    }
    if (st >= 9) {
        Call q = callOf(t, h.get(), k1, *a); c.say(what + " " + q.name); c.site(q.name);
        if (st == 9) { c.site(fmt("%s after %s", callOf(t, h.get(), k2, *a).name, q.name)); }
        c.check(h->IsValid() && alive(e), fmt("lost:%s", q.name), what + ": a call made the handle invalid");
        if (st == 9) M.reset(); else h->DelEntity();
    }
    if (st == 2) c.check(alive(e), fmt("detached:%d", t), what + ": detaching destroyed the entity"); else if (st > 2) c.check(!alive(e), fmt("exists:%d:%d", t, st), what + ": the entity still exists");
    c.check(!h->IsValid(), fmt("valid:%d:%d", t, st), what + ": the handle says it is valid");
    c.check(!h->GetRawPtr(), fmt("raw:%d:%d", t, st), what + ": a pointer is returned");
    for (int k = 0; k < n; k++) { c.site(fmt("state %d call %d of %d", st, k, t)); Call q = callOf(t, h.get(), k, *a); c.check(q.failed, fmt("call:%s", q.name), what + ": a call through the invalid handle succeeds: " + q.name); }
    c.check(!h->IsValid() && !h->GetRawPtr(), fmt("revived:%d:%d", t, st), what + ": calls made the handle valid");
    h->DelEntity(); c.check(!h->Detach(), fmt("detach-invalid:%d", t), what + ": detaching an invalid handle returns a pointer");
    c.check(!h->Attach(0), fmt("attach-null:%d", t), what + ": attaching nothing succeeds");
    if (st != 0 && st != 10 && h->NewEntity()) { IGES_ENTITY* f = h->GetRawPtr(); c.check(h->IsValid() && alive(f), fmt("renew:%d", t), what + ": a new entity is not valid"); bool inM = M.get() != 0; M.reset(); c.check(alive(f) == !inM, fmt("renewed:%d", t), what + ": the new entity is not owned by the parent model"); if (!inM) h->DelEntity(); }
    a.reset(); c.outcome(fmt("state %d", st)); c.nontrivial(mc::hstr(fmt("m%d %d %d %d %d", t, st, badArgs, k1, k2))); c.transition(n);
}

// ---- histories ---------------------------------------------------------------------------------------------------------------
static const int FAM[][4] = {{110, 102, 110, 308}, {308, 408, 110, 308}, {110, 124, 314, 124}, {142, 144, 128, 126}, {120, 110, 122, 100}, {406, 308, 104, 408}};
static const int NFAM = 6;
static bool linkTo(DLL_IGES_ENTITY* p, int pt, DLL_IGES_ENTITY* k, int kt) {     // a reference from p to k, through the wrapper
    IGES_ENTITY* r = k->GetRawPtr();
    switch (pt) {
    case 102: if (kt == 110 || kt == 100 || kt == 126 || kt == 104) return ((DLL_IGES_ENTITY_102*)p)->AddSegment(*(DLL_IGES_CURVE*)k); break;
    case 308: { DLL_IGES_ENTITY* q = k; return ((DLL_IGES_ENTITY_308*)p)->AddDE(q); }
    case 408: if (kt == 308) return ((DLL_IGES_ENTITY_408*)p)->SetSubfigure((IGES_ENTITY_308*)r); break;
    case 142: if (kt == 128) return ((DLL_IGES_ENTITY_142*)p)->SetSurface(*k); if (kt == 126) return ((DLL_IGES_ENTITY_142*)p)->SetModelSpaceBound(*k); break;
    case 144: if (kt == 142) return ((DLL_IGES_ENTITY_144*)p)->SetBoundCurve(*(DLL_IGES_ENTITY_142*)k); if (kt == 128) return ((DLL_IGES_ENTITY_144*)p)->SetSurface(*k); break;
    case 120: if (kt == 110) return ((DLL_IGES_ENTITY_120*)p)->SetAxis(*(DLL_IGES_CURVE*)k); if (kt == 100) return ((DLL_IGES_ENTITY_120*)p)->SetGeneratrix(*(DLL_IGES_CURVE*)k); break;
    case 122: if (kt == 110 || kt == 100) return ((DLL_IGES_ENTITY_122*)p)->SetDirectrix((IGES_CURVE*)r); break;
    }
    if (kt == 124) return p->SetTransform(*k);
    if (kt == 314) return p->SetColor(*(DLL_IGES_ENTITY_314*)k);
    return p->AddOptionalEntity(*k);
}
struct E { IGES_ENTITY* p; int t, m; bool dead; };    // m: owning model or -1
struct Hn { DLL_IGES_ENTITY* h; int t, e, par; };     // e: attached entity or -1 ; par: model, -1 none
struct Wd {
    DLL_IGES* M[2] = {new DLL_IGES, new DLL_IGES}; vector<E> es; Hn H[4];
    int add(IGES_ENTITY* p, int t, int m) { for (size_t i = 0; i < es.size(); i++) if (es[i].p == p && !es[i].dead) return (int)i; es.push_back({p, t, m, false}); return (int)es.size() - 1; }
    void killModel(int m) { for (auto& e : es) if (!e.dead && e.m == m) e.dead = true; }
    bool ok(int h) { return H[h].h && H[h].e >= 0 && !es[H[h].e].dead; }
};
struct Op { int k, a, b; };
static string opName(const Op& o) { static const char* n[] = {"create", "create-empty", "renew", "detach", "delete-entity", "destroy-handle", "set-parent", "attach", "add", "model-delete", "unlink", "clear", "destroy-model", "cull", "write", "new-api", "link", "compact", "new-raw", "unlink-link"}; return fmt("%s(%d,%d)", n[o.k], o.a, o.b); }
static void legal(Wd& w, vector<Op>& L) {
    L.clear();
    for (int h = 0; h < 4; h++) {
        if (!w.H[h].h) { for (int m = -1; m < 2; m++) if (m < 0 || w.M[m]) { L.push_back({0, h, m}); } L.push_back({1, h, w.M[0] ? 0 : -1}); continue; }
        L.push_back({2, h, 0}); L.push_back({3, h, 0}); L.push_back({4, h, 0}); L.push_back({5, h, 0});
        for (int m = -1; m < 2; m++) if (m < 0 || w.M[m]) L.push_back({6, h, m});
        for (int k = 0; k < 4; k++) if (w.H[k].h && k != h && (w.H[k].t == w.H[h].t || k == (h + 1) % 4)) L.push_back({7, h, k});
        L.push_back({7, h, h});
        for (int m = 0; m < 2; m++) if (w.M[m]) { L.push_back({8, m, h}); L.push_back({9, m, h}); L.push_back({10, m, h}); }
        for (int k = 0; k < 4; k++) if (k != h && w.H[k].h && w.ok(h)) L.push_back({16, h, k});
    }
    for (int m = 0; m < 2; m++) if (w.M[m]) { L.push_back({11, m, 0}); L.push_back({12, m, 0}); L.push_back({13, m, 0}); L.push_back({15, m, 0}); L.push_back({15, m, 3}); if (m == 0) { L.push_back({17, m, 0}); L.push_back({18, m, 0}); } }
}
#define CHK(cond, key, msg) do { if (!(cond)) c.fail(key, msg); } while (0)
static void histories(mc::Ctx& c) {
    int f = c.choose(NFAM, "family"), setup = c.thorough ? c.choose(2, "setup") : f / 3, depth = c.thorough ? 4 : 3; if (c.thorough && f > 2) depth = 3;
    Wd w; string hist; const int* T = FAM[f];
    // handles 0 and 1 in model 0, 2 in model 1 (or 0), 3 free (or in model 0)
    for (int i = 0; i < 4; i++) { int m = setup ? 0 : i < 2 ? 0 : i == 2 ? 1 : -1; Hn& h = w.H[i]; h.t = T[i]; h.par = m; h.h = m < 0 ? mk(T[i], (IGES*)0, true) : mkr(T[i], *w.M[m], true); h.e = w.add(h.h->GetRawPtr(), T[i], m); }
    if (setup) for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) if (i != k && (T[i] == 102 || T[i] == 408 || T[i] == 142 || T[i] == 144 || T[i] == 120 || T[i] == 122) && k < 4) linkTo(w.H[i].h, T[i], w.H[k].h, T[k]);
    struct Cl { Wd& w; ~Cl() { for (auto& h : w.H) delete h.h; for (auto* m : w.M) delete m; } } cl{w};
    vector<Op> L; bool counted = false;
    auto fin = [&](bool last) {
        for (auto& e : w.es) CHK(alive(e.p) == !e.dead || (e.dead && [&] { for (auto& q : w.es) if (!q.dead && q.p == e.p) return true; return false; }()), fmt("existence:%d", e.t), hist + fmt(": entity %d at %p %s", e.t, (void*)e.p, e.dead ? "still exists" : "is gone"));
        for (int h = 0; h < 4; h++) if (w.H[h].h) {
            bool v = w.ok(h); Hn& q = w.H[h];
            CHK(q.h->IsValid() == v, fmt("validity:%d", q.t), hist + fmt(": handle %d (%d) says %s", h, q.t, v ? "invalid" : "valid"));
            int ty = 0; CHK(q.h->GetEntityType(ty) == v, fmt("call:%d", q.t), hist + fmt(": a call through handle %d", h)); if (v) CHK(ty == q.t && q.h->GetRawPtr() == w.es[q.e].p, fmt("object:%d", q.t), hist + fmt(": handle %d shows another object", h));
            else CHK(!q.h->GetRawPtr(), fmt("pointer:%d", q.t), hist + fmt(": handle %d gives a pointer", h));
            IGES* p = 0; if (v && q.h->GetParentIGES(p)) { int m = w.es[q.e].m; CHK(p == (m < 0 ? 0 : w.M[m]->GetRawPtr()), fmt("parent:%d", q.t), hist + fmt(": the entity of handle %d (model %d) gives the wrong parent", h, m)); }
            if (last) { CHK(q.h->SetLabel("L") == v, fmt("label:%d", q.t), hist); }
        }
    };
    for (int d = 0; d < depth; d++) {
        legal(w, L);
        if (d >= 2 && !(c.thorough && d == 2)) { size_t n = 0; for (auto& o : L) if ((o.k >= 3 && o.k <= 5) || (o.k >= 8 && o.k <= 13)) L[n++] = o; L.resize(n); }   // in the end only operations which move or remove something
        int ch = c.choose((int)L.size() + (d ? 1 : 0), "operation"); if (d == 1 && !counted) { c.begin(); counted = true; } if (ch == (int)L.size()) break; Op o = L[ch]; hist += opName(o) + " "; c.site(fmt("%s %d", opName(o).c_str(), T[std::min(3, o.a)])); c.say(hist);
        switch (o.k) {
        case 0: { Hn& h = w.H[o.a]; h.t = T[o.a]; h.par = o.b; h.h = o.b < 0 ? mk(h.t, (IGES*)0, true) : (d & 1) ? mkr(h.t, *w.M[o.b], true) : mk(h.t, w.M[o.b]->GetRawPtr(), true); h.e = w.add(h.h->GetRawPtr(), h.t, o.b); break; }
        case 1: { Hn& h = w.H[o.a]; h.t = T[o.a]; h.par = o.b; h.h = o.b < 0 ? mk(h.t, (IGES*)0, false) : mkr(h.t, *w.M[o.b], false); h.e = -1; break; }
        case 2: { Hn& h = w.H[o.a]; bool r = h.h->NewEntity(); CHK(r, fmt("renew:%d", h.t), hist); int m = h.par >= 0 && w.M[h.par] ? h.par : -1; h.e = w.add(h.h->GetRawPtr(), h.t, m); break; }
        case 3: { Hn& h = w.H[o.a]; IGES_ENTITY* want = w.ok(o.a) ? w.es[h.e].p : 0; CHK(h.h->Detach() == want, fmt("detach:%d", h.t), hist); h.e = -1; break; }
        case 4: { Hn& h = w.H[o.a]; if (w.ok(o.a)) w.es[h.e].dead = true; h.h->DelEntity(); break; }
        case 5: { delete w.H[o.a].h; w.H[o.a].h = 0; break; }
        case 6: { Hn& h = w.H[o.a]; if (o.b < 0) h.h->SetAPIParentIGES((IGES*)0); else if (d & 1) h.h->SetAPIParentIGES(*w.M[o.b]); else h.h->SetAPIParentIGES(w.M[o.b]->GetRawPtr()); h.par = o.b; break; }
        case 7: { Hn &h = w.H[o.a], &k = w.H[o.b]; bool want = w.ok(o.b) && h.t == k.t; bool r = h.h->Attach(k.h->GetRawPtr()); CHK(r == want, fmt("attach:%d:%d", h.t, k.t), hist); if (want) h.e = k.e; break; }
        case 8: { bool want = w.ok(o.b); bool r = w.M[o.a]->AddEntity(w.H[o.b].h); CHK(r == want, "add", hist); if (want) w.es[w.H[o.b].e].m = o.a; break; }
        case 9: { bool want = w.ok(o.b) && w.es[w.H[o.b].e].m == o.a; bool r = w.M[o.a]->DelEntity(w.H[o.b].h); CHK(r == want, "model-delete", hist + (r ? ": succeeded" : ": failed")); if (want) w.es[w.H[o.b].e].dead = true; break; }
        case 10: { bool want = w.ok(o.b) && w.es[w.H[o.b].e].m == o.a; bool r = w.M[o.a]->UnlinkEntity(w.H[o.b].h); CHK(r == want, "unlink", hist + (r ? ": succeeded" : ": failed")); if (want) w.es[w.H[o.b].e].m = -1; break; }
        case 11: { CHK(w.M[o.a]->Clear(), "clear", hist); w.killModel(o.a); break; }
        case 12: { delete w.M[o.a]; w.M[o.a] = 0; w.killModel(o.a); break; }
        case 13: { w.M[o.a]->Cull(); for (auto& e : w.es) if (!e.dead && e.m == o.a && !alive(e.p)) e.dead = true; break; }      // which ones: C07
        case 15: { Hn& h = w.H[o.b]; DLL_IGES_ENTITY* p = h.h; h.t = T[o.b]; if (h.t == 406) break; h.h = 0; bool r = w.M[o.a]->NewAPIEntity((IGES_ENTITY_TYPE)h.t, p); CHK(r && p, fmt("new-api:%d", h.t), hist); h.h = p; h.par = o.a; if (p) h.e = w.add(p->GetRawPtr(), h.t, o.a); break; }
        case 16: { Hn &h = w.H[o.a], &k = w.H[o.b]; bool r = linkTo(h.h, h.t, k.h, k.t); int pm = w.es[h.e].m; if (r && w.ok(o.b) && pm >= 0) { IGES* p = 0; k.h->GetParentIGES(p); if (p == w.M[pm]->GetRawPtr()) w.es[k.e].m = pm; } break; }  // linking may move the child into the model of its parent
        case 17: w.M[o.a]->Compact(); break;
        case 18: { IGES_ENTITY* e = 0; bool r = w.M[o.a]->NewIGESEntity(ENT_LINE, &e); CHK(r && e && alive(e), "new-raw", hist + ": no entity"); if (e) w.add(e, 110, o.a); break; }
        }
        c.transition(); fin(false);
    }
    if (!counted) c.begin();
    int end = (int)(mc::hstr(hist) % 4); 
    hist += fmt("| end %d ", end); c.say(hist); c.site(fmt("end %d", end));
    fin(true);
    if (end == 2) for (size_t i = 0; i < w.es.size(); i++) for (int m = 0; m < 2; m++) if (w.M[m] && !w.es[i].dead) { bool want = w.es[i].m == m; CHK(w.M[m]->DelEntity(w.es[i].p) == want, "membership", hist + fmt(": entity %d is %sin model %d", (int)i, want ? "not " : "", m)); if (want) w.es[i].dead = true; fin(false); }
    if (end == 3) for (int m = 0; m < 2; m++) if (w.M[m]) { w.M[m]->Write((c.scratch + "/o.igs").c_str(), true); for (auto& e : w.es) if (!e.dead && e.m == m && !alive(e.p)) e.dead = true; fin(false); w.M[m]->Clear(); w.killModel(m); fin(false); }
    if (end == 0) for (int h = 0; h < 4; h++) { delete w.H[h].h; w.H[h].h = 0; fin(false); }
    for (int m = 0; m < 2; m++) if (w.M[m]) { delete w.M[m]; w.M[m] = 0; w.killModel(m); fin(true); }
    for (auto& e : w.es) if (!e.dead) { CHK(e.m < 0, fmt("leak:%d", e.t), hist + ": an entity outlives its model"); delete e.p; e.dead = true; fin(false); }
    fin(true);
    c.state(mc::hstr(hist)); c.outcome(fmt("family %d", f)); c.nontrivial(mc::hstr(fmt("%d%d", f, setup) + hist));
}

// ---- one wrapper, small facts -------------------------------------------------------------------------------------------------
static void facts(mc::Ctx& c) {
    int ti = c.choose(NTY, "type"), t = TY[ti], k = c.choose(5, "fact"); c.begin(); if (t == 406 && k < 2) c.skip();
    DLL_IGES M; IGES_ENTITY* e = 0; DLL_IGES_ENTITY* h = 0; string o = c.scratch + "/f.igs"; c.site(fmt("fact %d", k));
    switch (k) {
    case 0: // one entity, not two
        c.check(M.NewAPIEntity((IGES_ENTITY_TYPE)t, h) && h && h->IsValid(), fmt("api:%d", t), "no entity is created"); c.check(M.DelEntity(h), fmt("api-del:%d", t), "the new entity is not in the model"); c.check(!M.Write(o.c_str(), true), fmt("api-two:%d", t), "the model is not empty after its only entity was deleted"); delete h; break;
    case 1: { DLL_IGES_ENTITY_110 l(M, true); IGES_ENTITY* le = l.GetRawPtr(); h = new DLL_IGES_ENTITY_110(M, false); h->Attach(le); c.check(M.NewAPIEntity((IGES_ENTITY_TYPE)t, h) && h->GetEntityType() == t, fmt("api-reuse:%d", t), "a handle in use is not replaced"); c.check(alive(le) && l.IsValid(), fmt("api-old:%d", t), "the entity of the replaced handle is gone"); delete h; break; }
    case 2: c.check(M.NewIGESEntity((IGES_ENTITY_TYPE)t, &e) && e && alive(e), fmt("raw:%d", t), "no entity"); if (e) { int x = e->GetEntityType(); c.check(x == t, fmt("raw-type:%d", t), fmt("has type %d", x)); c.check(M.DelEntity(e), fmt("raw-in:%d", t), "is not in the model"); } break;
    case 3: { e = raw(t, 0); IGES_ENTITY* x = raw(t, 0); h = mkr(t, M, false); c.check(h->Attach(e) && M.AddEntity(h) && M.AddEntity(h), fmt("adopt:%d", t), "a free entity cannot be added"); { DLL_IGES N; c.check(N.AddEntity(h) && h->IsValid(), fmt("move:%d", t), "an entity of one model cannot be added to another"); c.check(!M.DelEntity(h), fmt("both:%d", t), "the moved entity is still in its old model"); } c.check(!h->IsValid() && !alive(e), fmt("moved:%d", t), "the moved entity outlives its new model"); delete x; delete h; break; }
    case 4: { static const int U[] = {0, 154, 164, 180, 186, 402, 502, 504, 508, 510, 514, 999}; for (int u : U) { h = 0; bool r = M.NewAPIEntity((IGES_ENTITY_TYPE)u, h); c.check(!r && !h, "unsupported", fmt("type %d has a wrapper", u)); M.Compact(); } c.check(!M.Write(o.c_str(), true), "unsupported-left", "a refused type leaves an entity behind"); break; }
    }
    c.outcome(fmt("fact %d", k)); c.nontrivial(mc::hstr(fmt("f%d %d", t, k)));
}
// ---- geometry and model wrappers ------------------------------------------------------------------------------------------------
// states: 0 empty, 1 detached, 2 deleted through the handle, 3 object deleted directly, 4 deleted through another handle, 5 valid, calls in pairs, then deleted
static int NSETP[2] = {-1, -1};
static void geomMethods(mc::Ctx& c) {
    if (NSETP[0] < 0) { Args a(false); int n = 0; for (int k = 0; k < ncallsOf(2) && n < 2; k++) { DLL_MCAD_SEGMENT s(false); Call q = callOf(2, &s, k, a); if (strstr(q.name, "SetParams(")) NSETP[n++] = k; } }
    int t = 1 + c.choose(4, "class"), st = c.choose(7, "state"); bool badArgs = c.flip("invalid arguments"); int n = ncallsOf(t);
    int k1 = st >= 5 ? c.choose(n, "first call") : 0, k2 = st >= 5 ? c.choose(n, "second call") : 0; if (t == 1 && (st == 0 || st == 1 || st == 2 || st == 4)) c.skip(); c.begin();
    std::unique_ptr<Args> a(new Args(!badArgs)); string what = fmt("class %d, state %d%s", t, st, badArgs ? ", arguments invalid" : ""); bool make = st > 0;
    std::unique_ptr<DLL_IGES> m; std::unique_ptr<DLL_MCAD_SEGMENT> s, s2; std::unique_ptr<DLL_MCAD_OUTLINE> o, o2; void *h = 0, *p = 0;
    if (t == 1) { m.reset(new DLL_IGES); h = m.get(); p = m->GetRawPtr(); }
    else if (t == 2) { s.reset(new DLL_MCAD_SEGMENT(make)); h = s.get(); p = s->GetRawPtr(); }
    else { o.reset(t == 3 ? new DLL_MCAD_OUTLINE(make) : new DLL_IGES_GEOM_PCB(make)); h = t == 3 ? (void*)o.get() : (void*)(DLL_IGES_GEOM_PCB*)o.get(); p = o->GetRawPtr(); }
    auto valid = [&] { return t == 1 ? m->GetRawPtr() != 0 : t == 2 ? s->IsValid() : o->IsValid(); };
    auto killDirect = [&] { if (t == 1) delete (IGES*)p; else if (t == 2) delete (MCAD_SEGMENT*)p; else delete (MCAD_OUTLINE*)p; };
    c.check(valid() == make && (make ? alive(p) : !p), fmt("geom-create:%d", t), what);
    if (st == 6) {   // usable geometry: a closed outline, a line
        bool e; if (t == 2) s->SetParams(MCAD_POINT(0, 0, 0), MCAD_POINT(2, 0, 0)); if (t >= 3) for (int i = 0; i < 4; i++) { static const double X[] = {0, 4, 4, 0, 0}, Y[] = {0, 0, 4, 4, 0}; DLL_MCAD_SEGMENT q(true); q.SetParams(MCAD_POINT(X[i], Y[i], 0), MCAD_POINT(X[i + 1], Y[i + 1], 0)); c.check(o->AddSegment(q, e) && !q.IsValid(), "geom-square", what + ": a side is not accepted"); }
        if (!badArgs) { a->seg.SetParams(MCAD_POINT(4, 2, 0), MCAD_POINT(5, 2, 0), MCAD_POINT(5, 2, 0), false); DLL_MCAD_SEGMENT q(true); q.SetParams(MCAD_POINT(2, 0, 0), MCAD_POINT(3, 0, 0), MCAD_POINT(3, 0, 0), false); a->out.AddSegment(q, e); }
    }
    switch (st) {
    case 1: if (t == 2) s->Detach(); else o->Detach(); break;
    case 2: if (t == 2) s->DelSegment(); else o->DelOutline(); break;
    case 3: killDirect(); break;
    case 4: if (t == 2) { s2.reset(new DLL_MCAD_SEGMENT(false)); c.check(s2->Attach((MCAD_SEGMENT*)p) && s2->IsValid(), "geom-attach", what); s2.reset(); } else { o2.reset(t == 3 ? new DLL_MCAD_OUTLINE(false) : new DLL_IGES_GEOM_PCB(false)); c.check(o2->Attach((MCAD_OUTLINE*)p) && o2->IsValid(), "geom-attach", what); o2.reset(); } break;
    case 5: case 6: {
        Call q = callOf(t, h, k1, *a); c.say(what + " " + q.name); c.site(fmt("state %d call %d after %s of class %d", st, k2, q.name, t)); Call r = callOf(t, h, k2, *a); c.site(fmt("delete after %s, %s", q.name, r.name));
        c.check(valid() && alive(p), fmt("geom-lost:%s", q.name), what + ": a call made the handle invalid " + q.name + " " + r.name);
        if (t == 1) { killDirect(); } else if (t == 2) s->DelSegment(); else o->DelOutline(); break; }
    }
    if (st == 1) c.check(alive(p), fmt("geom-detached:%d", t), what + ": detaching destroyed the object"); else if (st) c.check(!alive(p), fmt("geom-exists:%d", t), what + ": the object still exists");
    c.check(!valid(), fmt("geom-valid:%d:%d", t, st), what + ": the handle says it is valid");
    for (int k = 0; k < n; k++) { c.site(fmt("state %d call %d of class %d", st, k, t)); if (t == 2 && k == NSETP[0]) continue; if (t == 2 && k == NSETP[1]) continue;      // giving a segment parameters creates one
        Call q = callOf(t, h, k, *a); c.check(q.failed, fmt("call:%s", q.name), what + ": a call through the invalid handle succeeds: " + q.name); }
    c.check(!valid(), fmt("geom-revived:%d", t), what);
    if (st == 1) killDirect();
    if (t == 2) { c.check(!s->Attach(0), "geom-null", what); c.check(s->NewSegment() && s->IsValid(), "geom-renew", what); MCAD_SEGMENT* x = s->GetRawPtr(); c.check(!s->Attach(x), "geom-attach-used", what + ": a handle in use accepts another object"); c.check(s->NewSegment() && s->GetRawPtr() != x && alive(x), "geom-new-detaches", what + ": the previous object is gone"); delete x; x = s->GetRawPtr(); s.reset(); c.check(!alive(x), "geom-destroy", what + ": the object outlives its handle"); }
    if (t >= 3) { c.check(!o->Attach(0), "geom-null", what); c.check(o->NewOutline() && o->IsValid(), "geom-renew", what); MCAD_OUTLINE* x = o->GetRawPtr(); c.check(!o->Attach(x), "geom-attach-used", what); c.check(o->NewOutline() && o->GetRawPtr() != x && alive(x), "geom-new-detaches", what + ": the previous object is gone"); delete x; x = o->GetRawPtr(); c.check((x->GetOutlineType() == MCAD_OT_PCB) == (t == 4), "geom-kind", what); o.reset(); c.check(!alive(x), "geom-destroy", what + ": the object outlives its handle"); }
    c.outcome(fmt("class %d", t)); c.nontrivial(mc::hstr(fmt("g%d %d %d %d %d", t, st, badArgs, k1, k2))); c.transition(n);
}
// histories of segments and outlines: who owns what
struct Sg { MCAD_SEGMENT* p; int out; bool dead; };         // out: owning outline or -1
static void geomHistories(mc::Ctx& c) {
    int depth = c.thorough ? 5 : 4; vector<Sg> sg; struct Ou { MCAD_OUTLINE* p; bool dead; int n; }; vector<Ou> ou;
    std::unique_ptr<DLL_MCAD_SEGMENT> S[2]; int se[2] = {-1, -1}; std::unique_ptr<DLL_MCAD_OUTLINE> O[2]; int oe[2] = {-1, -1}; string hist;
    auto newSeg = [&](int i, int shape) { static const double X[] = {0, 4, 4, 0, 0}, Y[] = {0, 0, 4, 4, 0}; if (shape < 4) S[i]->SetParams(MCAD_POINT(X[shape], Y[shape], 0), MCAD_POINT(X[shape + 1], Y[shape + 1], 0)); else { double x = shape == 4 ? 4 : shape == 5 ? 2 : 9; S[i]->SetParams(MCAD_POINT(x, 2, 0), MCAD_POINT(x + 1, 2, 0), MCAD_POINT(x + 1, 2, 0), false); } };
    for (int i = 0; i < 2; i++) { S[i].reset(new DLL_MCAD_SEGMENT(true)); sg.push_back({S[i]->GetRawPtr(), -1, false}); se[i] = i; newSeg(i, i ? 4 : 5); }
    bool e; for (int k = 0; k < 2; k++) { O[k].reset(k ? (DLL_MCAD_OUTLINE*)new DLL_IGES_GEOM_PCB(true) : new DLL_MCAD_OUTLINE(true)); ou.push_back({O[k]->GetRawPtr(), false, 0}); oe[k] = k; }
    int pre = c.choose(3, "outlines");   // empty; the first a square; both
    for (int k = 0; k < pre; k++) for (int i = 0; i < 4; i++) { static const double X[] = {0, 4, 4, 0, 0}, Y[] = {0, 0, 4, 4, 0}; DLL_MCAD_SEGMENT q(true); q.SetParams(MCAD_POINT(X[i] + 2 * k, Y[i] + 2 * k, 0), MCAD_POINT(X[i + 1] + 2 * k, Y[i + 1] + 2 * k, 0)); MCAD_SEGMENT* p = q.GetRawPtr(); if (!O[k]->AddSegment(q, e)) c.fail("square", "a side is refused"); sg.push_back({p, k, false}); }
    auto okS = [&](int i) { return S[i] && se[i] >= 0 && !sg[se[i]].dead; }; auto okO = [&](int k) { return O[k] && oe[k] >= 0 && !ou[oe[k]].dead; };
    auto killO = [&](int o) { ou[o].dead = true; for (auto& s : sg) if (!s.dead && s.out == o) s.dead = true; };
    auto fin = [&] {
        for (size_t i = 0; i < sg.size(); i++) CHK(alive(sg[i].p) == !sg[i].dead, "segment-existence", hist + fmt(": segment %zu %s", i, sg[i].dead ? "still exists" : "is gone"));
        for (size_t i = 0; i < ou.size(); i++) CHK(alive(ou[i].p) == !ou[i].dead, "outline-existence", hist + fmt(": outline %zu %s", i, ou[i].dead ? "still exists" : "is gone"));
        for (int i = 0; i < 2; i++) if (S[i]) { CHK(S[i]->IsValid() == okS(i), "segment-validity", hist + fmt(": handle %d", i)); MCAD_SEGTYPE ty; CHK(S[i]->GetSegType(ty) == okS(i), "segment-call", hist); CHK(S[i]->GetRawPtr() == (okS(i) ? sg[se[i]].p : 0), "segment-object", hist); }
        for (int k = 0; k < 2; k++) if (O[k]) { CHK(O[k]->IsValid() == okO(k), "outline-validity", hist + fmt(": handle %d", k)); bool r; CHK(O[k]->IsClosed(r) == okO(k), "outline-call", hist); CHK(O[k]->GetRawPtr() == (okO(k) ? ou[oe[k]].p : 0), "outline-object", hist);
            if (okO(k)) { MCAD_SEGMENT** l = 0; int n = 0; O[k]->GetSegments(l, n); for (int i = 0; i < n; i++) CHK(alive(l[i]), "outline-segments", hist + ": an outline lists a destroyed segment"); delete[] l; } }
    };
    struct Gp { int k, a, b; }; static const char* nm[] = {"new-seg", "del-seg", "detach-seg", "destroy-seg", "add-seg", "add-circle", "sub-circle", "cut-circle", "add-outline", "sub-outline", "cut-outline", "new-out", "del-out", "destroy-out", "attach-seg"};
    // an operation that changes outlines may create, consume and destroy segments: what they list is adopted
    auto adopt = [&](int k) { if (!okO(k)) return; MCAD_SEGMENT** l = 0; int n = 0; std::set<void*> have; auto scan = [&](MCAD_SEGMENT** l, int n) { for (int i = 0; i < n; i++) { have.insert(l[i]); bool f = false; for (auto& s : sg) if (s.p == l[i] && alive(l[i])) { f = true; s.out = oe[k]; s.dead = false; } if (!f) sg.push_back({l[i], oe[k], false}); } delete[] l; };
        O[k]->GetSegments(l, n); scan(l, n); l = 0; n = 0; O[k]->GetDrillHoles(l, n); scan(l, n); MCAD_OUTLINE** q = 0; n = 0; O[k]->GetCutouts(q, n); std::set<void*> cut; for (int i = 0; i < n; i++) { for (auto* s : *q[i]->GetSegments()) have.insert(s); } delete[] q;
        for (auto& s : sg) if (!s.dead && s.out == oe[k] && !have.count(s.p)) { CHK(!alive(s.p), "orphan-segment", hist + ": a segment is neither listed by its outline nor destroyed"); s.dead = true; } };
    for (int d = 0; d < depth; d++) {
        vector<Gp> L;
        for (int i = 0; i < 2; i++) if (S[i]) { for (int sh = 0; sh < 7; sh++) if (sh < 2 || sh > 3) if (okS(i) ? d == 0 && sh > 3 : true) L.push_back({0, i, sh}); if (okS(i)) { L.push_back({1, i, 0}); L.push_back({2, i, 0}); for (int k = 0; k < 2; k++) if (O[k]) { L.push_back({4, k, i}); L.push_back({5, k, i}); L.push_back({6, k, i}); L.push_back({7, k, i}); } } L.push_back({3, i, 0}); if (S[1 - i] && !okS(i) && okS(1 - i)) L.push_back({14, i, 0}); }
        for (int k = 0; k < 2; k++) if (O[k]) { if (O[1 - k]) for (int x = 8; x <= 10; x++) L.push_back({x, k, 1 - k}); L.push_back({11, k, 0}); L.push_back({12, k, 0}); L.push_back({13, k, 0}); }
        if (!c.thorough && d == depth - 1) { size_t n = 0; for (auto& q : L) if (q.k == 1 || q.k == 3 || (q.k >= 6 && q.k != 11 && q.k != 14)) L[n++] = q; L.resize(n); }
        int ch = c.choose((int)L.size() + (d ? 1 : 0), "operation"); if (d == 1) c.begin(); if (ch == (int)L.size()) break; Gp o = L[ch]; hist += fmt("%s(%d,%d) ", nm[o.k], o.a, o.b); c.say(hist); c.site(nm[o.k]); bool r;
        switch (o.k) {
        case 0: if (okS(o.a)) { } r = S[o.a]->NewSegment(); CHK(r, "new-seg", hist); sg.push_back({S[o.a]->GetRawPtr(), -1, false}); se[o.a] = (int)sg.size() - 1; newSeg(o.a, o.b); break;
        case 1: sg[se[o.a]].dead = true; S[o.a]->DelSegment(); break;
        case 2: S[o.a]->Detach(); se[o.a] = -1; break;
        case 3: if (okS(o.a)) sg[se[o.a]].dead = true; S[o.a].reset(); break;
        case 4: case 5: case 6: case 7: {
            bool v = okO(o.a); r = o.k == 4 ? O[o.a]->AddSegment(*S[o.b], e) : o.k == 5 ? O[o.a]->AddOutline(*S[o.b], e) : o.k == 6 ? O[o.a]->SubOutline(*S[o.b], e) : O[o.a]->AddCutout(*S[o.b], true, e);
            CHK(v || !r, "invalid-outline", hist + ": succeeded"); if (r) { int q = se[o.b]; se[o.b] = -1; for (int i = 0; i < 2; i++) if (i != o.b && se[i] == q) { c.outcome("shared"); S[i]->Detach(); se[i] = -1; }
                if (o.k == 4) sg[q].out = oe[o.a]; else { sg[q].dead = !alive(sg[q].p); if (!sg[q].dead) sg[q].out = oe[o.a]; adopt(o.a); } c.outcome(nm[o.k]); } break; }
        case 8: case 9: case 10: {
            bool v = okO(o.a) && okO(o.b); int y = oe[o.b]; r = o.k == 8 ? O[o.a]->AddOutline(*O[o.b], e) : o.k == 9 ? O[o.a]->SubOutline(*O[o.b], e) : O[o.a]->AddCutout(*O[o.b], true, e);
            CHK(v || !r, "invalid-outline", hist + ": succeeded");
            if (r) { oe[o.b] = -1; c.outcome(nm[o.k]); if (o.k == 10 && alive(ou[y].p)) { for (auto& s : sg) if (s.out == y) s.out = oe[o.a]; ou[y].n = 1 + oe[o.a]; ou[y].dead = !alive(ou[y].p); } else { ou[y].dead = !alive(ou[y].p); CHK(ou[y].dead, "outline-kept", hist + ": the merged outline still exists"); for (auto& s : sg) if (!s.dead && s.out == y) s.out = oe[o.a]; adopt(o.a); } }
            else if (v) { adopt(o.a); adopt(o.b); } break; }
        case 11: { int old = oe[o.a]; bool was = okO(o.a); r = O[o.a]->NewOutline(); CHK(r, "new-out", hist); if (was) { CHK(alive(ou[old].p), "new-out-old", hist + ": the previous outline is gone"); } ou.push_back({O[o.a]->GetRawPtr(), false, 0}); oe[o.a] = (int)ou.size() - 1; break; }
        case 12: if (okO(o.a)) { int x = oe[o.a]; killO(x); for (auto& q : ou) if (q.n == x + 1) q.dead = true; } O[o.a]->DelOutline(); break;
        case 13: if (okO(o.a)) { int x = oe[o.a]; killO(x); for (auto& q : ou) if (q.n == x + 1) q.dead = true; } O[o.a].reset(); break;
        case 14: r = S[o.a]->Attach(S[1 - o.a]->GetRawPtr()); CHK(r, "attach-seg", hist); se[o.a] = se[1 - o.a]; break;
        }
        c.transition(); fin();
    }
    c.begin(); hist += "| end"; c.site("end");
    for (int i = 0; i < 2; i++) { if (okS(i)) sg[se[i]].dead = true; S[i].reset(); fin(); }
    for (int k = 0; k < 2; k++) { if (okO(k)) { int x = oe[k]; killO(x); for (auto& q : ou) if (q.n == x + 1) q.dead = true; } O[k].reset(); fin(); }
    for (size_t i = 0; i < ou.size(); i++) if (!ou[i].dead && !ou[i].n) { killO((int)i); for (auto& q : ou) if (q.n == (int)i + 1) q.dead = true; delete ou[i].p; fin(); }
    for (auto& s : sg) if (!s.dead) { CHK(s.out < 0, "segment-leak", hist + ": a segment outlives its outline"); delete s.p; s.dead = true; }
    c.state(mc::hstr(hist)); c.outcome("geometry history"); c.nontrivial(mc::hstr(fmt("%d", pre) + hist));
}
static void explore(mc::Ctx& c) {
    FILE_ = c.scratch + "/o";
    switch (c.choose(5, "part")) { case 0: histories(c); break; case 1: methods(c); break; case 2: facts(c); break; case 3: geomMethods(c); break; case 4: geomHistories(c); break; }
}
MC_MAIN(explore, 5, 20)
