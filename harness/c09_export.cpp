// C09: histories of exports between models, against a model which keeps every entity once and knows its exact content.
// part 0: one or two exports of every family over units, scales, weights, names, content and instances; part 1: sequences of operations on five models
#include "apibuild.hpp"
#include <api/dll_iges.h>
#include <map>
using namespace igs;
extern "C" time_t time(time_t* t) { if (t) *t = 1700000000; return 1700000000; }
struct Dll { DLL_IGES x; IGES* own; Dll(IGES* g) { own = x.m_iges; own->DetachValidFlag(&x.m_valid); x.m_iges = g; x.m_valid = false; if (g) g->AttachValidFlag(&x.m_valid); } ~Dll() { if (x.m_iges) x.m_iges->DetachValidFlag(&x.m_valid); x.m_iges = own; own->AttachValidFlag(&x.m_valid); } };
struct World { IGES* g = 0; Glob G; double tol = 0; string nm; };
struct Sys {
    mc::Ctx& c; vector<Ent> E; std::map<IGES_ENTITY*, int> id; vector<World> w; int nwrite = 0;
    Sys(mc::Ctx& cc) : c(cc) {}
    ~Sys() { for (auto& x : w) delete x.g; }
    template <class F> static void refs(Ent& e, F f) {
        for (auto& t : e.pd) if ((t.k == 'P' || t.k == 'N') && t.i >= 0) { int v = t.i; f(v); t.i = v; }
        for (Attr* a : {&e.font, &e.level, &e.color}) if (a->ptr) f(a->v);
        for (int* p : {&e.view, &e.trans, &e.lassoc}) if (*p >= 0) f(*p);
        for (auto& x : e.assoc) f(x); for (auto& x : e.props) f(x);
    }
    static void scale(Ent& e, double cf) { for (auto& t : e.pd) if (t.k == 'L') t.r *= cf; else if (t.k == 'Q') t.r *= cf * cf; }
    void adopt(World& x, Model& m, const vector<IGES_ENTITY*>& es, double cf) {   // the entities of a model that was just read or built
        int base = E.size();
        for (size_t k = 0; k < m.e.size(); k++) { Ent e = m.e[k]; refs(e, [&](int& i) { i += base; }); scale(e, cf); E.push_back(e); id[es[k]] = base + k; }
    }
    void readIn(World& x, const string& bytes, Model& m, const string& fname) {
        string f = c.scratch + "/" + fname; spill(f, bytes); x.g = new IGES; c.site("read:" + x.nm); c.check(x.g->Read(f.c_str()), "read-rejected:" + x.nm, "legal file rejected\n" + bytes);
        c.check(x.g->entities.size() == m.e.size(), "read-count", fmt("%zu entities read instead of %zu", x.g->entities.size(), m.e.size()));
        Expect n = normalised(m); adopt(x, m, x.g->entities, n.cf); x.G = m.g; x.G.units = n.units; x.G.scale = 1; x.G.res = n.res; x.tol = x.tol * n.cf;
    }
    void load(int via, Model m, const string& nm) {
        w.emplace_back(); World& x = w.back(); x.nm = nm; x.tol = 0;
        if (!via) { readIn(x, synth(m), m, fmt("s%zu.igs", w.size())); return; }
        x.g = new IGES; Ents es; c.site("build:" + nm);
        try { apibuild(*x.g, m, es); } catch (NoApi&) { c.skip(); } catch (Refused& r) { c.fail("refused:" + r.what, "the interface refuses a legal model: " + r.what); }
        adopt(x, m, es, 1); x.G = m.g;
    }
    void empty(const Glob& G, const string& nm) { Model m; m.g = G; load(1, m, nm); }
    Ent& ent(IGES_ENTITY* p) { auto i = id.find(p); if (i == id.end()) c.fail("unknown-entity", "an entity from nowhere is in a model"); return E[i->second]; }
    vector<IGES_ENTITY*> parents(World& x, IGES_ENTITY* p) { int me = id[p]; vector<IGES_ENTITY*> r; for (auto* q : x.g->entities) { bool is = false; refs(ent(q), [&](int& i) { if (i == me) is = true; }); if (is) r.push_back(q); } return r; }
    int depthOf(int k) { int d = 0; Ent& e = E[k]; for (size_t i = 3; i < e.pd.size(); i++) if (e.pd[i].k == 'P' && E[e.pd[i].i].type == 408) d = std::max(d, 1 + depthOf(E[e.pd[i].i].pd[0].i)); return d; }
    // every entity once, in the model that owns it
    void lists(const string& after) {
        std::map<IGES_ENTITY*, int> seen;
        for (auto& x : w) for (auto* p : x.g->entities) { ent(p); c.check(p->GetParentIGES() == x.g, "parent:" + after, fmt("an entity of type %d in the list of %s says it belongs to another model", p->GetEntityType(), x.nm.c_str())); c.check(!seen[p]++, "twice:" + after, fmt("entity of type %d is listed twice", p->GetEntityType())); }
        c.check(seen.size() == id.size(), "lost:" + after, fmt("%zu entities in all the models instead of %zu", seen.size(), id.size()));
        for (auto& x : w) { auto& g = x.g->globalData; c.check((int)g.unitsFlag == x.G.units && g.maxLinewidthGrad == x.G.lwg && (g.modelScale == x.G.scale || (g.modelScale != g.modelScale && x.G.scale != x.G.scale)) && fabs(g.minResolution - x.G.res) <= 1e-9 * x.G.res, "globals:" + after, fmt("after %s, %s has unit %d scale %.17g resolution %.17g weights %d instead of %d %.17g %.17g %d", after.c_str(), x.nm.c_str(), g.unitsFlag, g.modelScale, g.minResolution, g.maxLinewidthGrad, x.G.units, x.G.scale, x.G.res, x.G.lwg)); }
    }
    void instance(World& x, IGES_ENTITY* def, int how, double X, double Y) {
        IGES_ENTITY* p = 0; c.check(x.g->NewEntity(408, &p), "408", "NewEntity(408) failed"); auto* q = as<IGES_ENTITY_408>(p);
        c.check(q->SetDE((IGES_ENTITY_308*)def), "408", "SetDE failed on the exported definition"); q->X = X; q->Y = Y; q->Z = 1; q->S = how == 3 ? 2 : 1;
        Ent e(408); e.pd = {P(id[def]), L(X), L(Y), L(1), R(q->S)};
        if (how == 2) {
            IGES_ENTITY* t = 0; c.check(x.g->NewEntity(124, &t), "124", "NewEntity(124) failed"); auto* a = as<IGES_ENTITY_124>(t); double M[12] = {0, -1, 0, 5, 1, 0, 0, -3, 0, 0, 1, 2};
            for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) a->T.R.v[i][j] = M[4 * i + j]; a->T.T = MCAD_POINT(5, -3, 2); c.check(p->SetTransform(t), "124", "SetTransform failed");
            Ent te(124); for (int i = 0; i < 12; i++) te.pd.push_back(i % 4 == 3 ? L(M[i]) : R(M[i])); IGES_STAT_DEPENDS d; t->GetDependency(d); te.dep = d; IGES_STAT_USE u; t->GetEntityUse(u); te.use = u; E.push_back(te); id[t] = E.size() - 1; e.trans = id[t];
        }
        IGES_STAT_DEPENDS d; p->GetDependency(d); e.dep = d; IGES_STAT_USE u; p->GetEntityUse(u); e.use = u; IGES_STAT_HIER h; p->GetHierarchy(h); e.hier = h; IGES_COLOR col; if (p->GetColor(col)) e.color = Attr(col);
        E.push_back(e); id[p] = E.size() - 1;
    }
    void instanceAll(World& x) { for (size_t i = 0, n = x.g->entities.size(); i < n; i++) { auto* p = x.g->entities[i]; if (ent(p).type == 308 && parents(x, p).empty()) instance(x, p, 1, 10 * i, 3); } }
    Model snapshot(World& x) {
        Model m; m.g = x.G; m.start.clear(); std::map<int, int> loc; int k = 0; for (auto* p : x.g->entities) { ent(p); loc[id[p]] = k++; }
        for (auto* p : x.g->entities) { int gi = id[p]; Ent e = E[gi]; if (e.type == 308) e.pd[0] = I(depthOf(gi)); refs(e, [&](int& i) { auto f = loc.find(i); if (f == loc.end()) c.fail("dangling", fmt("an entity of type %d refers to one of another model", e.type)); i = f->second; }); m.e.push_back(e); }
        return m;
    }
    string check(World& x, const string& after) {
        instanceAll(x); Model m = snapshot(x); string o = c.scratch + "/o.igs"; c.site("write:" + x.nm); 
        if (m.e.empty()) return "";
        c.check(x.g->Write(o.c_str(), true), "write-refused:" + after, x.nm + " is not written after " + after); string out = slurp(o); c.validated();
        Expect ex; ex.cf = 1; ex.units = x.G.units; ex.scale = x.G.scale; ex.res = x.G.res;
        try { File F = parse(out); cmpGlob(m, F, ex, "o.igs"); ex.res = 1.02 * (x.tol + x.G.res); cmpEnts(m, F, ex); }
        catch (Bad& e) { c.fail(after + ":" + e.key, x.nm + ": " + e.msg + "\n--- expected\n" + synth(m) + "--- written\n" + out); }
        return out;
    }
    void reread(World& x) {   // write and read back
        string out = check(x, "export"); if (out.empty()) return; Model m = snapshot(x); for (auto* p : x.g->entities) id.erase(p);
        double t = x.tol + x.G.res; Glob g = x.G; m.g = g; delete x.g; x.g = 0; x.tol = t; readIn(x, out, m, fmt("r%d.igs", nwrite++)); c.check(fabs(x.g->globalData.minResolution - x.G.res) <= 1e-5 * x.G.res, "resolution-read", "the resolution is not the one written"); x.G.res = x.g->globalData.minResolution; lists("reading back");
    }
    void convert(World& x, int u) {
        bool want = u == x.G.units || (u != 3 && x.G.units != 3); c.site("convert"); bool got = x.g->ConvertUnits((IGES_UNIT)u); c.check(got == want, "convert", fmt("ConvertUnits returned %d", got));
        if (want && u != x.G.units) { double cf = unitMM(x.G.units) / unitMM(u); for (auto* p : x.g->entities) scale(ent(p), cf); x.G.res *= cf; x.tol *= cf; x.G.units = u; }
        lists("conversion");
    }
    // what: 0 plain, 1 through DLL_IGES; returns the definition
    IGES_ENTITY_308* exportTo(int a, int b, int how = 0) {
        World &s = w[a], &r = w[b]; vector<IGES_ENTITY*> all = s.g->entities, ss, tp, br;
        for (auto* p : all) {
            Ent& e = ent(p); auto ps = parents(s, p);
            if (e.type == 144 && ps.empty()) tp.push_back(p);
            if (e.type == 408 && (ps.empty() || (ps.size() == 1 && ent(ps[0]).type == 308 && parents(s, ps[0]).empty()))) ss.push_back(p);
            if (e.type == 186) br.push_back(p);
        }
        auto& pk = !ss.empty() ? ss : !tp.empty() ? tp : br;
        bool badUnits = s.G.units != r.G.units ? s.G.units == 3 || r.G.units == 3 : s.G.units == 3 && s.G.uname != r.G.uname;
        bool badScale = !(r.G.scale >= 6e-8 && r.G.scale <= 1.7e7);
        bool want = a != b && (pk.empty() || !(badUnits || badScale));
        size_t nr = r.g->entities.size(); IGES_ENTITY_308* d = (IGES_ENTITY_308*)8; bool got;
        c.say(fmt(" %s->%s", s.nm.c_str(), r.nm.c_str())); c.site("export:" + s.nm);
        if (how) { Dll x(s.g), y(r.g); got = x.x.Export(&y.x, &d); } else got = s.g->Export(r.g, &d);
        if (a == b && all.empty() && pk.empty()) want = got;   // nothing to lose
        c.check(got == want, "export-result", fmt("Export returned %d, expected %d", got, want));
        if (!got || pk.empty()) { c.check(!d, "package-of-nothing", "a definition was returned for an export which failed or had nothing to package"); c.check(s.g->entities == all && r.g->entities.size() == nr, "moved", "entities were moved by an export that failed or had nothing to package"); lists("an export which packaged nothing"); c.outcome(got ? "nothing to package" : "refused"); return 0; }
        c.check(d != 0, "no-package", "no definition was returned");
        c.check(s.g->entities.empty(), "source-not-empty", fmt("%zu entities left in the source", s.g->entities.size()));
        c.check(r.g->entities.size() == nr + all.size() + 1, "receiver-count", fmt("the receiver has %zu entities instead of %zu", r.g->entities.size(), nr + all.size() + 1));
        vector<IGES_ENTITY*> de(d->DE.begin(), d->DE.end()), x1 = de, x2 = pk; std::sort(x1.begin(), x1.end()); std::sort(x2.begin(), x2.end());
        c.check(x1 == x2, "package", fmt("%zu entities are packaged instead of %zu", de.size(), pk.size()));
        c.check(!d->NAME.empty(), "name-empty", "the definition has no name");
        for (auto* p : r.g->entities) if (p != d && p->GetEntityType() == 308) c.check(((IGES_ENTITY_308*)p)->NAME != d->NAME, "name-not-unique", "two definitions are named " + d->NAME);
        double cf = (s.G.units == r.G.units ? 1 : unitMM(s.G.units) / unitMM(r.G.units)) * (r.G.scale / s.G.scale);
        for (auto* p : all) { Ent& e = ent(p); scale(e, cf); if (e.weight) e.weight = std::max(1, std::min(r.G.lwg, (int)(e.weight * (double(r.G.lwg) / s.G.lwg)))); }
        r.tol = std::max(r.tol, s.tol * cf); s.tol = 0; s.G.units = s.g->globalData.unitsFlag; s.G.scale = s.g->globalData.modelScale; s.G.res = s.g->globalData.minResolution;   // an emptied model may keep any unit
        for (auto* p : pk) { Ent& e = ent(p); IGES_STAT_DEPENDS v; p->GetDependency(v); c.check(v == STAT_DEP_PHY || (v == STAT_DEP_PHYLOG && e.dep > 1), "dependency", fmt("a packaged entity has dependency %d", v)); e.dep = v; }
        Ent n(308); n.use = 2; n.pd = {I(0), S(d->NAME), I(de.size())}; for (auto* p : de) n.pd.push_back(P(id[p]));
        { IGES_STAT_DEPENDS v; d->GetDependency(v); n.dep = v; IGES_STAT_HIER h; d->GetHierarchy(h); n.hier = h; bool vis; d->GetVisibility(vis); n.blank = !vis; }
        E.push_back(n); id[d] = E.size() - 1; lists("export"); c.transition(); c.outcome(pk[0]->GetEntityType() == 408 ? "assembly" : pk[0]->GetEntityType() == 144 ? "surfaces" : "solids");
        return d;
    }
};
static const double SC[] = {1, 0.5, 4};
static bool packs(int f) { return f == 11 || f == 15 || f == 16 || f == 19 || f == 20 || f == 21 || f == 22; }
static void setUnit(Glob& g, int u) { g.units = u; g.res = 1e-7 / unitMM(u); g.uname = u == 3 ? "FURLONG" : unitName(u); }
static Model famModel(mc::Ctx& c, int f, bool full, int times, int u, double sc, const string& fname) {
    Chooser ch = [&](int n, const char* l) { return full ? c.choose(n, l) : 0; }; B b(ch); for (int i = 0; i < times; i++) family(b, f, full); Model m = b.m; setUnit(m.g, u); m.g.scale = sc; m.g.fname = fname.empty() ? "x.igs" : fname; return m;
}
static void weights(Model& m, int lwg) { m.g.lwg = lwg; int k = 0; for (auto& e : m.e) if (applies(e.type).find('w') != string::npos) e.weight = k++ % (lwg + 1); }
static void single(mc::Ctx& c) {
    int f = c.choose(NFAM, "family"), via = c.choose(f == 15 || f == 20 ? 1 : 2, "built"), v = c.choose(6, "variation");
    int su = 2, ru = 2, times = 1, content = 1, inst = 1, how = 0; double ss = 1, rs = 1; bool full = false; int slw = 1, rlw = 1, nm = 1, fail = 0, next = 0;
    switch (v) {
    case 0: su = c.choose(11, "source unit") + 1; ru = c.choose(11, "receiver unit") + 1; if (c.thorough || su == 2) { ss = SC[c.choose(3, "source scale")]; rs = SC[c.choose(3, "receiver scale")]; } break;
    case 1: slw = c.choose(5, "source weights") + 1; rlw = (int[]){1, 3, 5, 32}[c.choose(4, "receiver weights")]; su = 1; break;
    case 2: nm = c.choose(6, "file name"); content = c.choose(4, "content"); times = c.choose(2, "twice") + 1; next = 1; break;
    case 3: inst = c.choose(4, "instance"); how = c.choose(2, "interface"); content = c.choose(4, "content"); times = c.choose(2, "twice") + 1; ru = 1; break;
    case 4: fail = c.choose(7, "failure"); su = 1; ss = .5; ru = 4; content = c.choose(2, "content"); break;
    case 5: full = true; ru = 6; break;
    }
    static const char* NM[] = {"", "board.igs", "board", ".igs", "a.b.igs", "a;long, name 3Hxyz that does not fit into the sixty-four columns of a line.igs"};
    Model m = famModel(c, f, full, times, su, ss, NM[nm]); if (slw > 1 || rlw > 1 || v == 1) weights(m, slw);
    c.begin(); Sys S(c); c.say(fmt("%s %s, variation %d:", famName(f), via ? "built" : "read", v));
    S.load(via, m, "source"); S.w[0].g->globalData.fileName = NM[nm]; S.w[0].g->globalData.unitsName = su == 3 ? "FURLONG" : unitName(su);
    Chooser z = [](int, const char*) { return 0; }; B b(z);
    if (content >= 1) b.e110(false); if (content == 2) { int l = b.e110(true); int d = b.e308(true, 0, "board", {l}); b.e408(false, d, 1); } if (content == 3) for (const char* n : {"board", "board_2", "a.b"}) { int l = b.e110(true); int d = b.e308(true, 0, n, {l}); b.e408(false, d, 1); }
    setUnit(b.m.g, ru); b.m.g.scale = rs; b.m.g.lwg = rlw; b.m.start.clear();
    S.load(1, b.m, "receiver"); S.w[1].g->globalData.unitsName = b.m.g.uname;
    Glob q; setUnit(q, 10); S.empty(q, "top");
    if (v == 4) {
        IGES_ENTITY_308* d = 0; World &s = S.w[0], &r = S.w[1]; size_t n = s.g->entities.size();
        switch (fail) {
        case 0: c.site("self"); c.check(!s.g->Export(s.g, &d) && !d, "self-export", "a model was exported to itself"); break;
        case 1: c.site("null"); c.check(!s.g->Export(NULL, &d) && !s.g->Export(r.g, NULL), "null-export", "an export to nothing succeeded"); { Dll x(s.g), y(0); c.check(!x.x.Export((IGES*)NULL, &d) && !x.x.Export((DLL_IGES*)NULL, &d) && !x.x.Export(&y.x, &d) && !x.x.Export(r.g, NULL) && !y.x.Export(r.g, &d), "null-export", "an export to nothing succeeded"); } break;
        case 2: r.g->globalData.unitsFlag = UNIT_EXTERN; r.g->globalData.unitsName = "FURLONG"; r.G.units = 3; r.G.uname = "FURLONG"; S.exportTo(0, 1); break;
        case 3: for (auto* x : {&s, &r}) { x->g->globalData.unitsFlag = UNIT_EXTERN; string nmx = x == &s ? "FURLONG" : "ROD"; x->g->globalData.unitsName = nmx; x->G.units = 3; x->G.uname = nmx; } S.exportTo(0, 1); break;
        case 4: case 5: case 6: r.G.scale = r.g->globalData.modelScale = fail == 4 ? 1e9 : fail == 5 ? 1e-9 : NAN; S.exportTo(0, 1); r.G.scale = r.g->globalData.modelScale = 1; break;
        }
        if (s.g->entities.size() == n) S.lists("a failed export");
        S.check(S.w[0], "a failed export"); S.check(S.w[1], "a failed export"); c.nontrivial(mc::hstr(fmt("fail %d %d %d %d", fail, f, via, content))); c.state(mc::hstr(fmt("fail %d %d %d %d", fail, f, via, content))); return;
    }
    auto* d = S.exportTo(0, 1, how);
    if (d && inst) { S.instance(S.w[1], d, inst, 2.5, -7); if (inst == 1) S.instance(S.w[1], d, 1, 0, 0); }
    if (next) { Model m2 = famModel(c, 11, false, 1, 1, 1, NM[nm]); S.load(0, m2, "second"); S.w[3].g->globalData.fileName = NM[nm]; S.exportTo(3, 1, 1); }
    if (d) { delete S.w[0].g; S.w[0].g = new IGES; auto& G = S.w[0].g->globalData; S.w[0].G.units = G.unitsFlag; S.w[0].G.scale = G.modelScale; S.w[0].G.res = G.minResolution; S.w[0].G.lwg = G.maxLinewidthGrad; }   // nothing of the source is needed any more
    else S.check(S.w[0], "an export which packaged nothing");
    S.reread(S.w[1]); S.exportTo(1, 2, how); S.reread(S.w[2]); S.check(S.w[2], "export of an assembly that was read");
    c.state(mc::hstr(synth(S.snapshot(S.w[2])))); c.nontrivial(mc::hstr(fmt("%d %d %d %d ", v, via, nm, content) + synth(S.snapshot(S.w[2]))));
    c.outcome(via ? "built" : "read");
}
static void histories(mc::Ctx& c) {
    int set = c.choose(3, "sources"); static const int F[3][3] = {{11, 16, 15}, {22, 4, 19}, {21, 11, 16}};
    int depth = c.thorough ? 4 : 3; struct Op { int k, a, b; }; static vector<Op> O;
    if (O.empty()) { for (int a = 0; a < 5; a++) for (int b : {0, 3, 4}) O.push_back({0, a, b}); for (int a : {3, 4}) { O.push_back({1, a, 0}); O.push_back({2, a, 0}); } O.push_back({3, 3, 1}); O.push_back({3, 4, 3}); O.push_back({3, 0, 6}); }
    vector<int> ops; bool any = false;
    for (int d = 0; d < depth; d++) { int o = c.choose(O.size() + 1, "operation"); if (o == 0) break; ops.push_back(o - 1); if (O[o - 1].k == 0) any = true; }
    if (!any) c.skip();
    c.begin(); Sys S(c);
    for (int i = 0; i < 3; i++) { Model m = famModel(c, F[set][i], false, 1, i == 0 ? 1 : i == 1 ? 2 : 6, 1, "x"); weights(m, i + 1); S.load(i == 1, m, fmt("S%d", i)); S.w[i].g->globalData.fileName = i == 2 ? "" : "board.igs"; }
    Glob q; setUnit(q, 8); q.lwg = 4; S.empty(q, "R"); setUnit(q, 2); q.lwg = 2; S.empty(q, "Q"); S.w[3].g->globalData.fileName = "board.igs";
    vector<IGES_ENTITY_308*> last(5, (IGES_ENTITY_308*)0);
    for (int o : ops) {
        Op p = O[o]; World& x = S.w[p.a];
        if (p.k == 0) { auto* d = S.exportTo(p.a, p.b, p.a & 1); if (d) { last[p.b] = d; last[p.a] = 0; } }
        if (p.k == 1) { c.say(" instance in " + x.nm); if (last[p.a]) { S.instance(x, last[p.a], 2, 1, 2); S.lists("instance"); } }
        if (p.k == 2) { c.say(" write and read " + x.nm); S.reread(x); last[p.a] = 0; }
        if (p.k == 3) { c.say(" convert " + x.nm); S.convert(x, p.b); }
        string h; for (auto& y : S.w) h += fmt("%zu %d|", y.g->entities.size(), y.G.units); c.state(mc::hstr(fmt("%d ", set) + h));
    }
    string h = fmt("%d ", set); for (int o : ops) h += fmt("%d ", o);
    for (auto& x : S.w) { S.check(x, "a history"); }
    for (auto& x : S.w) S.reread(x);
    c.nontrivial(mc::hstr(h));
}
static void explore(mc::Ctx& c) { if (c.choose(2, "part")) histories(c); else single(c); }
MC_MAIN(explore, 5, 30)
