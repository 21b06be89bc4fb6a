// Reference model of the links between entities, and of what culling removes.
#pragma once
#include "lib.hpp"
#include <functional>
#include <set>
#include <map>
namespace ref {
using std::string; using std::vector; using std::map; using std::set;
typedef vector<int> Ints; typedef map<string, Ints> Links;   // slot -> targets (>= 0), plain numbers are stored as -1000-n
enum { NUM = -1000 };
inline bool isRef(int v) { return v >= 0; }
inline string show(const Links& l) { string s; for (auto& q : l) if (!q.second.empty()) { s += q.first + "("; for (int v : q.second) s += v >= 0 ? "e" + std::to_string(v) + " " : v == -1 ? "- " : v > NUM ? "BAD" + std::to_string(v) + " " : std::to_string(NUM - v) + " "; s += ") "; } return s.empty() ? "nothing" : s; }
struct World {
    IGES* g; vector<IGES_ENTITY*> e; vector<int> type; vector<char> flag /*alive per the library*/, alive /*per the model*/; vector<Links> L;
    vector<bool*> flags;
    World(IGES* m) : g(m) {}
    ~World() { for (size_t i = 0; i < e.size(); i++) { if (*flags[i]) e[i]->DetachValidFlag(flags[i]); delete flags[i]; } }
    int add(int t) { IGES_ENTITY* x = 0; if (!g->NewEntity(t, &x) || !x) return -1; e.push_back(x); type.push_back(t); alive.push_back(1); L.push_back(Links()); flags.push_back(new bool(true)); x->AttachValidFlag(flags.back()); return (int)e.size() - 1; }
    void adopt(IGES_ENTITY* x) { e.push_back(x); type.push_back(x->GetEntityType()); alive.push_back(1); L.push_back(Links()); flags.push_back(new bool(true)); x->AttachValidFlag(flags.back()); }
    IGES_ENTITY* at(int i) { return i < 0 ? (IGES_ENTITY*)0 : e[i]; }
    int who(const void* p) const { if (!p) return -1; for (size_t i = 0; i < e.size(); i++) if (alive[i] && e[i] == p) return (int)i; return -99; }
    // what the library says
    Links get(int i) {
        Links l; IGES_ENTITY* x = e[i]; IGES_ENTITY* p = 0;
        auto one = [&](const char* s, const void* q) { if (q) l[s] = Ints{who(q)}; };
        x->GetColorEntity(&p); one("colour", p); p = 0; x->GetTransform(&p); one("transform", p);
        size_t n = 0; IGES_ENTITY** a = 0; if (x->GetOptionalEntities(n, a)) for (size_t k = 0; k < n; k++) { l["extra"].push_back(who(a[k])); if (x->GetOptionalEntity((int)k) != a[k]) l["extra"].push_back(-98); }
        if ((int)l["extra"].size() != x->GetNOptionalEntities()) l["extra"].push_back(-97);
        switch (type[i]) {
        case 102: { auto* y = (IGES_ENTITY_102*)x; int k = y->GetNCurves(); for (int j = 0; j < k; j++) l["curves"].push_back(who(y->GetCurve(j))); break; }
        case 120: { auto* y = (IGES_ENTITY_120*)x; IGES_CURVE* q = 0; if (y->GetL(&q)) one("L", q); q = 0; if (y->GetC(&q)) one("C", q); q = 0; y->GetAxis(&q); if (who(q) != (l.count("L") ? l["L"][0] : -1)) l["L"].push_back(-96); q = 0; y->GetGeneratrix(&q); if (who(q) != (l.count("C") ? l["C"][0] : -1)) l["C"].push_back(-96); break; }
        case 122: { IGES_CURVE* q = 0; ((IGES_ENTITY_122*)x)->GetDE(q); one("DE", q); break; }
        case 142: { auto* y = (IGES_ENTITY_142*)x; IGES_ENTITY* q = 0; y->GetSPTR(&q); one("SPTR", q); q = 0; y->GetBPTR(&q); one("BPTR", q); q = 0; y->GetCPTR(&q); one("CPTR", q); break; }
        case 144: { auto* y = (IGES_ENTITY_144*)x; IGES_ENTITY* q = 0; y->GetPTS(q); one("PTS", q); IGES_ENTITY_142* r = 0; y->GetPTO(r); one("PTO", r); IGES_ENTITY_142** v = 0; n = 0; if (y->GetPTIList(n, v)) for (size_t k = 0; k < n; k++) { l["PTI"].push_back(who(v[k])); if (y->GetPTI((int)k) != v[k]) l["PTI"].push_back(-96); } if (y->GetNPTI() != (int)l["PTI"].size() || y->N2 != (int)l["PTI"].size()) l["PTI"].push_back(-95); if (y->N1 != (r ? 1 : 0)) l["PTO"].push_back(-95); break; }
        case 164: { IGES_CURVE* q = 0; ((IGES_ENTITY_164*)x)->GetClosedCurve(&q); one("PTR", q); break; }
        case 180: { auto* y = (IGES_ENTITY_180*)x; int k = y->GetNNodes(); for (int j = 0; j < k; j++) { BTREE_NODE* b = y->GetNode(j); l["nodes"].push_back(!b ? -94 : b->op ? NUM - (int)b->val : who(b->pEnt)); } break; }
        case 308: { auto* y = (IGES_ENTITY_308*)x; n = 0; a = 0; if (y->GetDEList(n, a)) for (size_t k = 0; k < n; k++) l["DE"].push_back(who(a[k])); if (y->N != (int)l["DE"].size()) l["DE"].push_back(-95); break; }
        case 408: { IGES_ENTITY_308* q = 0; ((IGES_ENTITY_408*)x)->GetDE(q); one("DE", q); break; }
        case 504: { const EDGE_DATA* v = 0; n = 0; if (((IGES_ENTITY_504*)x)->GetEdges(n, v)) for (size_t k = 0; k < n; k++) { Ints r{who(v[k].curv), who(v[k].svp), NUM - v[k].sv, who(v[k].tvp), NUM - v[k].tv}; l["rows"].insert(l["rows"].end(), r.begin(), r.end()); } break; }
        case 508: { LOOP_DATA** v = 0; n = 0; if (((IGES_ENTITY_508*)x)->GetLoopData(n, v)) for (size_t k = 0; k < n; k++) { LOOP_PAIR** pp = 0; size_t m = 0; Ints r{who(v[k]->data), NUM - v[k]->idx}; v[k]->GetPCurves(m, pp); r.push_back(NUM - (int)m); for (size_t q = 0; q < m; q++) r.push_back(who(pp[q]->curve)); l["rows"].insert(l["rows"].end(), r.begin(), r.end()); } break; }
        case 510: { auto* y = (IGES_ENTITY_510*)x; one("surface", y->GetSurface()); IGES_ENTITY_508** v = 0; n = 0; if (y->GetBounds(n, v)) for (size_t k = 0; k < n; k++) l["bounds"].push_back(who(v[k])); break; }
        }
        for (auto it = l.begin(); it != l.end();) it = it->second.empty() ? l.erase(it) : std::next(it);
        return l;
    }
    // the model: rows of the lists whose entries have several items
    static vector<Ints> rows(int t, const Ints& v) { vector<Ints> r; for (size_t i = 0; i < v.size();) { size_t n = t == 504 ? 5 : 3 + (NUM - v[i + 2]); r.push_back(Ints(v.begin() + i, v.begin() + std::min(v.size(), i + n))); i += n; } return r; }
    void dropped(int p, int k) {   // entity k, which p may refer to, is no more
        Links& l = L[p]; auto has = [&](const Ints& v) { return std::find(v.begin(), v.end(), k) != v.end(); };
        for (auto it = l.begin(); it != l.end();) { Ints& v = it->second;
            if (has(v)) {
                if (it->first == "nodes") v.clear();
                else if (it->first == "curves" && v.front() != k && v.back() != k) v.clear();
                else if (it->first == "rows") { Ints o; for (auto& r : rows(type[p], v)) if (!has(r)) o.insert(o.end(), r.begin(), r.end()); v = o; }
                else v.erase(std::find(v.begin(), v.end(), k));
            }
            it = v.empty() ? l.erase(it) : std::next(it); }
    }
    void kill(int k) { alive[k] = 0; L[k].clear(); for (size_t p = 0; p < e.size(); p++) if (alive[p]) dropped((int)p, k); }
    int nrefs(int k) const { int n = 0; for (size_t p = 0; p < e.size(); p++) if (alive[p]) for (auto& s : L[p]) if (std::find(s.second.begin(), s.second.end(), k) != s.second.end()) { n++; break; } return n; }
    bool linked(int p, int k) const { for (auto& s : L[p]) if (std::find(s.second.begin(), s.second.end(), k) != s.second.end()) return true; return false; }
    bool reaches(int p, int k) const { set<int> seen; return reaches(p, k, seen); }
    bool reaches(int p, int k, set<int>& seen) const { if (p == k) return true; if (!seen.insert(p).second) return false; for (auto& s : L[p]) for (int v : s.second) if (v >= 0 && reaches(v, k, seen)) return true; return false; }
    bool incomplete(int i) const {
        const Links& l = L[i]; auto no = [&](const char* s) { return !l.count(s); };
        switch (type[i]) { case 102: return no("curves"); case 120: return no("L") || no("C"); case 122: case 408: case 308: return no("DE"); case 142: return no("SPTR") || (no("BPTR") && no("CPTR")); case 144: return no("PTS"); case 164: return no("PTR"); case 504: case 508: return no("rows"); case 510: return no("surface") || no("bounds");
        case 502: { size_t n = ((IGES_ENTITY_502*)e[i])->GetNVertices(); return n == 0; } case 514: case 186: case 0: return true; }
        return false;
    }
    bool orphan(int i) const {
        static const set<int> support{124, 314, 502, 504, 508, 510}; IGES_STAT_DEPENDS d = STAT_INDEPENDENT; e[i]->GetDependency(d);
        if (incomplete(i)) return true; if (type[i] == 406) return e[i]->GetEntityForm() == 0 || (nrefs(i) == 0 && d != STAT_INDEPENDENT);
        return nrefs(i) == 0 && (d != STAT_INDEPENDENT || support.count(type[i]));
    }
    // everything culling removes (the model only; the library is still to do it)
    set<int> cull(bool vicious) {
        set<int> gone; bool again = true;
        while (again) { again = false; for (size_t i = 0; i < e.size(); i++) if (alive[i] && (orphan((int)i) || (vicious && nrefs((int)i) == 0 && type[i] != 408))) { gone.insert((int)i); kill((int)i); again = true; } }
        return gone;
    }
    // compares everything; empty when all is well
    string compare() {
        for (size_t i = 0; i < e.size(); i++) if (*flags[i] != (bool)alive[i]) return "e" + std::to_string(i) + " (" + std::to_string(type[i]) + ") " + (alive[i] ? "was destroyed" : "was not destroyed");
        for (size_t i = 0; i < e.size(); i++) if (alive[i]) { Links l = get((int)i); if (l != L[i]) return "e" + std::to_string(i) + " (" + std::to_string(type[i]) + ") refers to " + show(l) + "instead of " + show(L[i]); }
        return "";
    }
    string what(int i) { return i < 0 ? "NULL" : "e" + std::to_string(i) + "/" + std::to_string(type[i]); }
};
// operations: r 0/1 as the library says; the model follows
struct Op { char k; int p, a, b, c, d; string n; };
// performs o on both; want: 1 must be accepted, 0 must be refused, -1 either
struct Did { bool skip, got; int want; };
inline Did apply(World& w, const Op& o) {
    IGES_ENTITY *x = w.at(o.p), *y = w.at(o.a), *z = w.at(o.b); Did r{false, false, -1};
    auto dead = [&](int i) { return i >= 0 && !w.alive[i]; };
    if (dead(o.p) || dead(o.a) || (o.k == 'E' && (dead(o.b) || dead(o.c))) || (o.k == 'P' && (dead(o.b) || dead(o.c)))) { r.skip = true; return r; }
    Links& l = w.L[o.p]; int T = w.type[o.p], TA = o.a >= 0 ? w.type[o.a] : -1; static const set<int> curves{100, 102, 104, 110, 126}; bool fresh = o.a >= 0 && o.a != o.p && !w.linked(o.p, o.a) && !w.reaches(o.a, o.p);
    auto single = [&](const char* s, bool kindOK, bool nullOK) { bool same = o.a >= 0 && l.count(s) && l[s][0] == o.a; if (o.a < 0) r.want = nullOK ? 1 : -1; else if (same) r.want = 1; else if (kindOK && fresh) r.want = 1; else if ((!kindOK && T != 142) || o.a == o.p || w.linked(o.a, o.p)) r.want = 0;   // a 142 takes anything
        if (r.got) { if (o.a < 0) l.erase(s); else l[s] = Ints{o.a}; } };
    auto multi = [&](const char* s, bool kindOK, bool idempotent) { bool in = l.count(s) && std::find(l[s].begin(), l[s].end(), o.a) != l[s].end(); if (o.a < 0) r.want = 0; else if (in) r.want = idempotent ? 1 : 0; else if (kindOK && fresh) r.want = 1; else if (!kindOK || o.a == o.p || w.linked(o.a, o.p)) r.want = 0; if (r.got && !in && o.a >= 0) l[s].push_back(o.a); };
    auto del = [&](const char* s) { bool in = l.count(s) && std::find(l[s].begin(), l[s].end(), o.a) != l[s].end(); r.want = in; if (r.got && in) { Ints& v = l[s]; v.erase(std::find(v.begin(), v.end(), o.a)); if (v.empty()) l.erase(s); } };
    switch (o.k) {
    case 'c': r.got = x->SetColor(y); single("colour", TA == 314, true); break;
    case 't': r.got = x->SetTransform(y); single("transform", TA == 124, true); break;
    case '+': r.got = x->AddOptionalEntity(y); multi("extra", TA == 406, false); break;
    case '-': r.got = x->DelOptionalEntity(y); del("extra"); break;
    case 'x': r.got = w.g->DelEntity(x); r.want = 1; w.kill(o.p); break;
    case 's': { auto* q = (IGES_ENTITY_102*)x; bool closed = l.count("curves") && q->IsClosed(); r.got = q->AddSegment((IGES_CURVE*)y); if (closed || TA == 102) { r.want = 0; if (r.got) l["curves"].push_back(o.a); } else multi("curves", curves.count(TA), true); break; }
    case 'L': r.got = ((IGES_ENTITY_120*)x)->SetL((IGES_CURVE*)y); single("L", TA == 110, false); break;
    case 'C': r.got = ((IGES_ENTITY_120*)x)->SetC((IGES_CURVE*)y); single("C", curves.count(TA), false); break;
    case 'D': r.got = T == 122 ? ((IGES_ENTITY_122*)x)->SetDE((IGES_CURVE*)y) : ((IGES_ENTITY_408*)x)->SetDE((IGES_ENTITY_308*)y); single("DE", T == 122 ? curves.count(TA) : TA == 308, T == 408); break;
    case 'S': r.got = ((IGES_ENTITY_142*)x)->SetSPTR(y); single("SPTR", TA == 128 || TA == 120 || TA == 122, true); break;
    case 'B': r.got = ((IGES_ENTITY_142*)x)->SetBPTR(y); single("BPTR", curves.count(TA), true); break;
    case 'K': r.got = ((IGES_ENTITY_142*)x)->SetCPTR(y); single("CPTR", curves.count(TA), true); break;
    case 'U': { IGES_ENTITY_144* q = (IGES_ENTITY_144*)x; r.got = q->SetPTS(y); single("PTS", TA == 128 || TA == 120 || TA == 122, false); break; }
    case 'O': r.got = ((IGES_ENTITY_144*)x)->SetPTO((IGES_ENTITY_142*)y); single("PTO", true, true); break;
    case 'I': r.got = ((IGES_ENTITY_144*)x)->AddPTI((IGES_ENTITY_142*)y); multi("PTI", true, true); break;
    case 'J': r.got = ((IGES_ENTITY_144*)x)->DelPTI((IGES_ENTITY_142*)y); del("PTI"); break;
    case 'R': r.got = ((IGES_ENTITY_164*)x)->SetClosedCurve((IGES_CURVE*)y); single("PTR", o.b, false); break;
    case 'a': r.got = ((IGES_ENTITY_180*)x)->AddArg(y); multi("nodes", TA == 154 || TA == 164 || TA == 180, false); break;
    case 'o': r.got = ((IGES_ENTITY_180*)x)->AddOp((BTREE_OPERATOR)o.a); r.want = (o.a >= 1 && o.a <= 3) ? (l.count("nodes") && l["nodes"].size() >= 2 ? 1 : 0) : 0; if (r.got) l["nodes"].push_back(NUM - o.a); break;
    case 'z': ((IGES_ENTITY_180*)x)->ClearNodes(); r.got = true; l.erase("nodes"); break;
    case 'd': r.got = ((IGES_ENTITY_308*)x)->AddDE(y); multi("DE", true, true); break;
    case 'q': r.got = ((IGES_ENTITY_308*)x)->DelDE(y); del("DE"); break;
    case 'F': r.got = ((IGES_ENTITY_510*)x)->SetSurface(y); single("surface", TA == 128 || TA == 120 || TA == 122, false); break;
    case 'f': r.got = ((IGES_ENTITY_510*)x)->AddBound((IGES_ENTITY_508*)y); multi("bounds", true, false); break;
    case 'E': { bool in = w.linked(o.p, o.a), ok = o.a >= 0 && o.b >= 0 && o.c >= 0 && o.d == 1; r.got = ((IGES_ENTITY_504*)x)->AddEdge(y, (IGES_ENTITY_502*)z, 1, (IGES_ENTITY_502*)w.at(o.c), o.d); r.want = ok && curves.count(TA) ? (in ? 0 : 1) : 0; if (r.got) { Ints n{o.a, o.b, NUM - 1, o.c, NUM - o.d}; l["rows"].insert(l["rows"].end(), n.begin(), n.end()); } break; }
    case 'P': { LOOP_DATA* q = new LOOP_DATA; q->isVertex = TA == 502; q->data = y; q->idx = 1 + o.d; q->orientFlag = true; Ints n{o.a, NUM - q->idx, NUM}; bool ok = TA == 504 || TA == 502; int m = 0;
        for (int k : {o.b, o.c}) if (k != -2) { q->pcurves.push_back(new LOOP_PAIR(true, w.at(k))); m++; n.push_back(k); if (k < 0 || !curves.count(w.type[k])) ok = false; } n[2] = NUM - m;
        bool again = o.b >= 0 && (o.b == o.c || w.linked(o.p, o.b)); if (o.c >= 0 && w.linked(o.p, o.c)) again = true; LOOP_DATA* qq = q; r.got = ((IGES_ENTITY_508*)x)->AddEdge(q);
        r.want = !y || o.b == -1 || o.c == -1 ? 0 : !ok ? -1 : again ? -1 : w.linked(o.p, o.a) ? -1 : 1; if (r.got) l["rows"].insert(l["rows"].end(), n.begin(), n.end()); else { for (auto* pp : qq->pcurves) delete pp; delete qq; } break; }
    }
    return r;
}
}
