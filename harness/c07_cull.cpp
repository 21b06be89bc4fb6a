// C07: models of every family, built through the interface or read from a file, after every combination of deletions and
// changes of dependency: culling leaves exactly the entities which the reference model (a fixpoint) leaves.
#include "apibuild.hpp"
#include "refmodel.hpp"
using namespace igs;
extern "C" time_t time(time_t* t) { if (t) *t = 1700000000; return 1700000000; }
// what remains of a described model
static vector<int> survivors(const Model& m, bool vicious) {
    int n = (int)m.e.size(); vector<char> on(n, 1); static const std::set<int> support{124, 314, 502, 504, 508, 510};
    for (bool again = true; again;) { again = false;
        vector<int> refs(n, 0); for (int k = 0; k < n; k++) if (on[k]) { const Ent& e = m.e[k]; std::set<int> to; for (auto& t : e.pd) if ((t.k == 'P' || t.k == 'N') && t.i >= 0) to.insert(t.i); for (const Attr* a : {&e.font, &e.level, &e.color}) if (a->ptr) to.insert(a->v); if (e.trans >= 0) to.insert(e.trans); for (int p : e.props) to.insert(p); for (int i : to) refs[i]++; }
        for (int k = 0; k < n; k++) if (on[k] && refs[k] == 0 && (m.e[k].dep || support.count(m.e[k].type) || (vicious && m.e[k].type != 408))) { on[k] = 0; again = true; } }
    vector<int> to(n); int q = 0; for (int k = 0; k < n; k++) to[k] = on[k] ? q++ : -1; return to;
}
static int build(B& b, int f, bool full) {
    if (f == NFAM) { int s = b.e128(true, 1, 1, 1, 1, false); int F = b.face(s, 2, 2, true, true); int d = b.e308(true, 0, "face", {F}); return b.e408(false, d, 1); }
    if (f == NFAM + 1) {   // chains that hang on nothing
        int t = b.e124(0); t = b.e124(0, t); int l = b.e110(true); b.at(l).trans = t; int c = b.e314("q"); b.at(l).color = Attr::p(c); int p = b.e406("prop"); b.at(l).props.push_back(p); b.e102(true, 2); int k = b.e110(true); int d = b.e308(true, 0, "unused", {k}); b.e408(true, d, 1); b.e314("free"); b.e124(0); return b.e110(false); }
    if (f == NFAM + 2) {   // subfigures three deep, each used twice
        int l = b.e110(true), prev = b.e308(true, 0, "s0", {l}); for (int q = 1; q < 4; q++) { int a = b.e408(true, prev, 1), z = b.e408(true, prev, 2); prev = b.e308(true, q, fmt("s%d", q), {a, z}); } b.e408(false, prev, 1); return b.e408(true, prev, 1); }
    return family(b, f, full);
}
static const char* END[] = {"Cull()", "Cull(true)", "Cull() twice", "Write()"};
static void explore(mc::Ctx& c) {
    int via = c.choose(2, "source"), f = c.choose(NFAM + 3, "family"); if (via && (f == 15 || f == 20)) c.skip();
    vector<int> taken; Chooser ch = [&](int n, const char* l) { int v = c.choose(n, l); taken.push_back(v); return v; }; B b(ch); build(b, f, c.thorough || f != 15); Model& m = b.m; int n = (int)m.e.size();
    // changes: on one or two entities; 0 delete (interface only), 1..4 dependency, 5 exchanged order
    vector<std::pair<int, int>> ops, all; for (int e = 0; e < n; e++) { if (via) all.push_back({e, 0}); if (applies(m.e[e].type).find('d') != string::npos) for (int w = 1; w <= 4; w++) if (w - 1 != m.e[e].dep) all.push_back({e, w}); }
    bool plain = true; for (int x : taken) if (x) plain = false;
    int maxOps = c.thorough || (plain && n <= 11) ? 2 : 1; size_t from = 0;
    for (int k = 0; k < maxOps; k++) { int e = c.choose((int)(all.size() - from) + 1, "change"); if (e == 0) break; e += (int)from - 1; if (k && all[e].first == ops[0].first && !via) c.skip(); ops.push_back(all[e]); if (!via) from = e + 1; }
    int end = c.choose(4, "ending"), rev = c.choose(2, "order"); if (rev) { vector<int> to; for (int i = 0; i < n; i++) to.push_back(n - 1 - i); remap(m, to); }
    auto at = [&](int e) { return rev ? n - 1 - e : e; };
    c.begin(); string file = c.scratch + "/x.igs", hist = fmt("family %d %s%s", f, via ? "built" : "read", rev ? " reversed" : "");
    string key = fmt(":f%d:%d", f, end);
    if (via) {
        IGES g; Ents es; try { apibuild(g, m, es); } catch (NoApi&) { c.skip(); } catch (Refused& r) { c.fail("refused:" + r.what, "the interface refuses a legal model: " + r.what); }
        { ref::World w(&g); for (auto* x : es) w.adopt(x); for (int i = 0; i < n; i++) w.L[i] = w.get(i);
        for (auto& o : ops) { int e = at(o.first); if (!w.alive[e]) continue; hist += fmt("; %s %d (type %d)", o.second ? fmt("dependency %d of", o.second - 1).c_str() : "delete", e, m.e[e].type); c.say(hist); c.transition();
            if (o.second) es[e]->SetDependency((IGES_STAT_DEPENDS)(o.second - 1)); else { w.kill(e); g.DelEntity(es[e]); } }
        string s = w.compare(); if (!s.empty()) c.fail("before" + key, hist + ": " + s);
        std::set<int> gone = w.cull(end == 1); hist += string("; ") + END[end]; c.say(hist); c.site("cull" + key);
        bool wrote = false; switch (end) { case 0: g.Cull(); break; case 1: g.Cull(true); break; case 2: g.Cull(); g.Cull(); break; case 3: wrote = g.Write(file.c_str(), true); break; }
        s = w.compare(); if (!s.empty()) c.fail("survivors" + key, hist + ": " + s);
        c.transition(); uint64_t h = f; for (int i = 0; i < n; i++) h = h * 31 + w.alive[i] * (1 + m.e[i].type); c.state(h); c.validated();
        if (wrote) { try { File F = parse(slurp(file)); string a, z; for (int i = 0; i < n; i++) if (w.alive[i]) a += fmt("%d ", m.e[i].type); for (auto& q : F.e) z += fmt("%d ", q.de[0]); c.check(a == z, "file" + key, hist + ": the file has " + z + "instead of " + a); } catch (Bad& e) { c.fail("file:" + e.key + key, hist + ": " + e.msg); } }
        c.outcome(gone.empty() ? "nothing to cull" : (int)gone.size() == n ? "all culled" : "some culled"); }
    } else {
        for (auto& o : ops) { int e = at(o.first); m.e[e].dep = o.second - 1; hist += fmt("; dependency %d of %d (type %d)", o.second - 1, e, m.e[e].type); }
        hist += string("; ") + END[end]; c.say(hist); string in = synth(m); spill(file, in); IGES g; c.site("read" + key);
        c.check(g.Read(file.c_str()), "read" + key, hist + ": legal file rejected\n" + in);
        c.site("cull" + key); switch (end) { case 0: g.Cull(); break; case 1: g.Cull(true); break; case 2: g.Cull(); g.Cull(); break; case 3: break; }
        c.transition(); vector<int> to = survivors(m, end == 1); int left = (int)std::count_if(to.begin(), to.end(), [](int x) { return x >= 0; });
        bool ok = g.Write(file.c_str(), true); if (!left) { c.outcome("all culled"); c.nontrivial(mc::hstr(hist)); return; }
        c.check(ok, "write" + key, hist + ": not written\n" + in); Model x = m; remap(x, to); string out = slurp(file);
        try { File F = parse(out); string a, z; for (auto& q : x.e) a += fmt("%d ", q.type); for (auto& q : F.e) z += fmt("%d ", q.de[0]); c.check(a == z, "survivors" + key, hist + ": the file has " + z + "instead of " + a + "\n" + in + "---\n" + out); cmpEnts(x, F, normalised(m)); }
        catch (Bad& e) { c.fail("file:" + e.key + key, hist + ": " + e.msg + "\n" + in + "---\n" + out); }
        c.state(mc::hstr(out)); c.validated(); c.outcome(left == n ? "nothing to cull" : "some culled");
    }
    c.nontrivial(mc::hstr(hist) + mc::hstr(synth(m))); c.outcome(fmt("family %d", f));
}
MC_MAIN(explore, 4, 20)
