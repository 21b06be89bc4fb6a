// Builds a Model through the library's public interface only.
#pragma once
#include "lib.hpp"
#include "aspects.hpp"
namespace igs {
typedef std::vector<IGES_ENTITY*> Ents;
struct NoApi {};
struct Refused { string what; };
inline double vreal(const Tok& t) { return t.r; }
template <class T> T* as(IGES_ENTITY* e) { return static_cast<T*>(e); }
inline void need(bool ok, const string& w) { if (!ok) throw Refused{w}; }
// parameter data of entity k
inline void setPD(const Ent& e, IGES_ENTITY* x, const Ents& es) {
    const vector<Tok>& p = e.pd; auto q = [&](int i) { return p[i].i < 0 ? (IGES_ENTITY*)0 : es[p[i].i]; }; auto r = [&](int i) { return p[i].r; };
    string T = fmt("%d", e.type);
    switch (e.type) {
    case 100: { auto* a = as<IGES_ENTITY_100>(x); a->ZT = r(0); a->X1 = r(1); a->Y1 = r(2); a->X2 = r(3); a->Y2 = r(4); a->X3 = r(5); a->Y3 = r(6); break; }
    case 102: for (int i = 1; i <= p[0].i; i++) need(as<IGES_ENTITY_102>(x)->AddSegment((IGES_CURVE*)q(i)), "102 AddSegment"); break;
    case 104: { auto* a = as<IGES_ENTITY_104>(x); double* f[] = {&a->A, &a->B, &a->C, &a->D, &a->E, &a->F, &a->ZT, &a->X1, &a->Y1, &a->X2, &a->Y2}; for (int i = 0; i < 11; i++) *f[i] = r(i); break; }
    case 110: { auto* a = as<IGES_ENTITY_110>(x); double* f[] = {&a->X1, &a->Y1, &a->Z1, &a->X2, &a->Y2, &a->Z2}; for (int i = 0; i < 6; i++) *f[i] = r(i); break; }
    case 120: { auto* a = as<IGES_ENTITY_120>(x); need(a->SetL((IGES_CURVE*)q(0)), "120 SetL"); need(a->SetC((IGES_CURVE*)q(1)), "120 SetC"); a->SA = r(2); a->TA = r(3); break; }
    case 122: { auto* a = as<IGES_ENTITY_122>(x); need(a->SetDE((IGES_CURVE*)q(0)), "122 SetDE"); a->LX = r(1); a->LY = r(2); a->LZ = r(3); break; }
    case 124: { auto* a = as<IGES_ENTITY_124>(x); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) a->T.R.v[i][j] = r(4 * i + j); a->T.T = MCAD_POINT(r(3), r(7), r(11)); need(x->SetEntityForm(e.form), "124 form"); break; }
    case 126: { int K = p[0].i, M = p[1].i; bool rat = p[4].i == 0; vector<double> kn, co; int o = 6; for (int i = 0; i <= K + M + 1; i++) kn.push_back(r(o + i)); o += K + M + 2; int w = o; o += K + 1;
        for (int i = 0; i <= K; i++) { for (int j = 0; j < 3; j++) co.push_back(r(o + 3 * i + j)); if (rat) co.push_back(r(w + i)); } o += 3 * (K + 1);
        need(as<IGES_ENTITY_126>(x)->SetNURBSData(K + 1, M + 1, kn.data(), co.data(), rat, r(o), r(o + 1)), "126 SetNURBSData"); break; }
    case 128: { int k1 = p[0].i, k2 = p[1].i, m1 = p[2].i, m2 = p[3].i; bool rat = p[6].i == 0; vector<double> a, b, co; int o = 9; for (int i = 0; i <= k1 + m1 + 1; i++) a.push_back(r(o++)); for (int i = 0; i <= k2 + m2 + 1; i++) b.push_back(r(o++)); int C = (k1 + 1) * (k2 + 1), w = o; o += C;
        for (int i = 0; i < C; i++) { for (int j = 0; j < 3; j++) co.push_back(r(o + 3 * i + j)); if (rat) co.push_back(r(w + i)); } o += 3 * C;
        need(as<IGES_ENTITY_128>(x)->SetNURBSData(k1 + 1, k2 + 1, m1 + 1, m2 + 1, a.data(), b.data(), co.data(), rat, p[7].i, p[8].i, r(o), r(o + 1), r(o + 2), r(o + 3)), "128 SetNURBSData"); break; }
    case 142: { auto* a = as<IGES_ENTITY_142>(x); a->CRTN = p[0].i; need(a->SetSPTR(q(1)), "142 SetSPTR"); if (q(2)) need(a->SetBPTR(q(2)), "142 SetBPTR"); if (q(3)) need(a->SetCPTR(q(3)), "142 SetCPTR"); a->PREF = p[4].i; break; }
    case 144: { auto* a = as<IGES_ENTITY_144>(x); need(a->SetPTS(q(0)), "144 SetPTS"); a->N1 = p[1].i; if (q(3)) need(a->SetPTO((IGES_ENTITY_142*)q(3)), "144 SetPTO"); for (int i = 0; i < p[2].i; i++) need(a->AddPTI((IGES_ENTITY_142*)q(4 + i)), "144 AddPTI"); break; }
    case 154: { auto* a = as<IGES_ENTITY_154>(x); double* f[] = {&a->H, &a->R, &a->X1, &a->Y1, &a->Z1, &a->I1, &a->J1, &a->K1}; for (int i = 0; i < 8; i++) *f[i] = r(i); break; }
    case 164: { auto* a = as<IGES_ENTITY_164>(x); need(a->SetClosedCurve((IGES_CURVE*)q(0)), "164 SetClosedCurve"); a->L = r(1); a->I1 = r(2); a->J1 = r(3); a->K1 = r(4); break; }
    case 180: { auto* a = as<IGES_ENTITY_180>(x); for (int i = 1; i <= p[0].i; i++) if (p[i].k == 'N') need(a->AddArg(q(i)), "180 AddArg"); else need(a->AddOp((BTREE_OPERATOR)p[i].i), "180 AddOp"); break; }
    case 308: { auto* a = as<IGES_ENTITY_308>(x); a->NAME = p[1].s; for (int i = 0; i < p[2].i; i++) need(a->AddDE(q(3 + i)), "308 AddDE"); break; }
    case 314: { auto* a = as<IGES_ENTITY_314>(x); a->red = r(0); a->green = r(1); a->blue = r(2); a->cname = p[3].s; break; }
    case 406: need(as<IGES_ENTITY_406>(x)->SetData(p[1].s.c_str()), "406 SetData"); break;
    case 408: { auto* a = as<IGES_ENTITY_408>(x); need(a->SetDE((IGES_ENTITY_308*)q(0)), "408 SetDE"); a->X = r(1); a->Y = r(2); a->Z = r(3); a->S = r(4); break; }
    case 502: for (int i = 0; i < p[0].i; i++) as<IGES_ENTITY_502>(x)->AddVertex(MCAD_POINT(r(1 + 3 * i), r(2 + 3 * i), r(3 + 3 * i))); break;
    case 504: for (int i = 0; i < p[0].i; i++) need(as<IGES_ENTITY_504>(x)->AddEdge(q(1 + 5 * i), (IGES_ENTITY_502*)q(2 + 5 * i), p[3 + 5 * i].i, (IGES_ENTITY_502*)q(4 + 5 * i), p[5 + 5 * i].i), "504 AddEdge"); break;
    case 508: { int o = 1; for (int i = 0; i < p[0].i; i++) { LOOP_DATA* d = new LOOP_DATA; d->isVertex = p[o].i; d->data = q(o + 1); d->idx = p[o + 2].i; d->orientFlag = p[o + 3].i; int n = p[o + 4].i; o += 5; for (int k = 0; k < n; k++) { d->pcurves.push_back(new LOOP_PAIR(p[o].i, q(o + 1))); o += 2; } need(as<IGES_ENTITY_508>(x)->AddEdge(d), "508 AddEdge"); } break; }
    case 510: { auto* a = as<IGES_ENTITY_510>(x); need(a->SetSurface(q(0)), "510 SetSurface"); a->SetOuterLoopFlag(p[2].i); for (int i = 0; i < p[1].i; i++) need(a->AddBound((IGES_ENTITY_508*)q(3 + i)), "510 AddBound"); break; }
    default: throw NoApi();
    }
}
// creates everything; m is adjusted where the interface leaves no choice (attributes an entity does not take)
inline void apibuild(IGES& g, Model& m, Ents& es, bool globals = true) {
    es.assign(m.e.size(), (IGES_ENTITY*)0);
    if (globals) {
        IGES_GLOBAL& G = g.globalData; const Glob& q = m.g;
        for (auto& s : m.start) { const char* t = s.c_str(); need(g.AddToHeader(t), "AddToHeader"); }
        G.pdelim = q.pd; G.rdelim = q.rd; G.productIDSS = q.ssid; G.nativeSystemID = q.native; G.productIDRS = q.rsid; G.modelScale = q.scale; G.unitsFlag = (IGES_UNIT)q.units; G.unitsName = q.uname; G.maxLinewidthGrad = q.lwg; G.maxLinewidth = q.lw;
        G.creationDate = q.created; G.minResolution = q.res; G.author = q.author; G.organization = q.org; G.draftStandard = (IGES_DRAFTING_STANDARD)q.std; G.applicationNote = q.note;
        for (size_t k = 0; k < m.e.size(); k++) { if (m.e[k].type == 186 || m.e[k].type == 514) throw NoApi(); need(g.NewEntity(m.e[k].type, &es[k]), fmt("NewEntity(%d)", m.e[k].type)); }
    vector<char> done(m.e.size(), 0);   // children first
    std::function<void(int)> put = [&](int k) { if (done[k]) return; done[k] = 1; for (auto& t : m.e[k].pd) if ((t.k == 'P' || t.k == 'N') && t.i >= 0) put(t.i); setPD(m.e[k], es[k], es); };
    for (size_t k = 0; k < m.e.size(); k++) put(k);
    for (size_t k = 0; k < m.e.size(); k++) {
        Ent& e = m.e[k]; IGES_ENTITY* x = es[k]; string a = applies(e.type), T = fmt("%d ", e.type);
        auto on = [&](char ch) { return a.find(ch) != string::npos; };
        if (e.font.ptr) need(x->SetLineFontPattern(es[e.font.v]), T + "font entity"); else if (e.font.v && on('f')) need(x->SetLineFontPattern((IGES_LINEFONT_PATTERN)e.font.v), T + "font");
        if (!e.level.ptr && e.level.v && on('l')) need(x->SetLevel(e.level.v), T + "level");
        if (e.color.ptr) need(x->SetColor(es[e.color.v]), T + "color entity"); else if (on('c') && e.color.v) need(x->SetColor((IGES_COLOR)e.color.v), T + "color");
        if (e.trans >= 0) need(x->SetTransform(es[e.trans]), T + "transform");
        if (e.weight && on('w')) need(x->SetLineWeightNum(e.weight), T + "weight");
        if (e.blank && on('b')) need(x->SetVisibility(false), T + "visibility");
        if (on('d')) need(x->SetDependency((IGES_STAT_DEPENDS)e.dep), T + "dependency");
        if (on('u')) x->SetEntityUse((IGES_STAT_USE)e.use);
        if (on('h')) x->SetHierarchy((IGES_STAT_HIER)e.hier);
        if (!e.label.empty()) need(x->SetLabel(e.label), T + "label");
        if (e.sub) need(x->SetEntitySubscript(e.sub), T + "subscript");
        for (auto& s : e.comm) need(x->AddComment(s), T + "comment");
        for (int p : e.props) need(x->AddOptionalEntity(es[p]), T + "property");
        for (int p : e.assoc) need(x->AddOptionalEntity(es[p]), T + "associativity");
        if (!globals) continue;
        // what the interface settled on
        { IGES_STAT_DEPENDS d; x->GetDependency(d); if (!on('d') || e.type == 124) e.dep = d; IGES_STAT_USE u; x->GetEntityUse(u); e.use = e.type == 308 || e.type == 314 ? 2 : u; bool vis; x->GetVisibility(vis); if (e.type == 308 || e.type == 314) e.blank = !vis; IGES_STAT_HIER h; x->GetHierarchy(h); e.hier = h; }
        if (e.type == 126) { e.pd[2].k = 'A'; e.pd[3].k = 'A'; e.pd[5].k = 'A'; size_t n = e.pd.size(); for (size_t i = n - 3; i < n; i++) e.pd[i].k = 'A'; }
        if (e.type == 128) { e.pd[4].k = 'A'; e.pd[5].k = 'A'; }
        { IGES_COLOR q; if (on('c') && !e.color.ptr && !e.color.v && x->GetColor(q)) e.color.v = q; }
    }
}
}
}
