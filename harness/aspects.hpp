// Variations of a model that every family can take: attributes, magnitudes, comments, units, globals, dropped entities, order.
#pragma once
#include "corpus.hpp"
namespace igs {
// which directory fields are meaningful for a type: f font, l level, t transform, c colour, w weight, b blank, d dependency, u use, h hierarchy
inline string applies(int t) {
    switch (t) {
    case 102: return "fltcwbduh"; case 124: return "tdu"; case 142: case 144: case 154: case 164: return "fltcwbd"; case 180: return "fltcwbd"; case 186: return "fltcwbdu";
    case 308: return "fltcwbdh"; case 314: return "bch"; case 406: return "ld"; case 408: return "fltcwbduh";
    case 502: return "lbu"; case 504: return "lbu"; case 508: return "flcwbuh"; case 510: return "lbuh"; case 514: return "lbduh";
    default: return "fltcwbdu";
    }
}
inline void remap(Model& m, const vector<int>& to) {   // to[i] = new index or -1; drops -1 entities (must be unreferenced except from attributes)
    auto mp = [&](int i) { return i < 0 ? -1 : to[i]; };
    vector<Ent> out(std::count_if(to.begin(), to.end(), [](int x) { return x >= 0; }));
    for (size_t k = 0; k < m.e.size(); k++) {
        if (to[k] < 0) continue; Ent e = m.e[k];
        for (auto& t : e.pd) if ((t.k == 'P' || t.k == 'N') && t.i >= 0) t.i = mp(t.i);
        for (Attr* a : {&e.font, &e.level, &e.color}) if (a->ptr) { a->v = mp(a->v); if (a->v < 0) *a = Attr(0); }
        e.view = mp(e.view); e.trans = mp(e.trans); e.lassoc = mp(e.lassoc);
        for (auto& x : e.assoc) x = mp(x); for (auto& x : e.props) x = mp(x);
        out[to[k]] = e;
    }
    m.e = out;
}
static const char* DELIMS = ",;|!#$%&()*/:<=>?@[]^_`{}~\"'";
// returns the model as it must come back (after unsupported entities are dropped)
inline Model aspect(B& b, int main, int which, Chooser ch, mc::Ctx& c) {
    Model& m = b.m;
    switch (which) {
    case 0: break;
    case 1: {   // one attribute of one entity
        int who = ch((int)m.e.size(), "entity"); Ent* e = &m.e[who]; string a = applies(e->type) + "LS"; char f = a[ch((int)a.size(), "attribute")];
        switch (f) {
        case 'f': e->font = Attr(ch(5, "font") + 1); break;
        case 'l': { static const int V[] = {1, 7, 255, 9999999}; e->level = Attr(V[ch(4, "level")]); break; }
        case 't': { if (e->trans >= 0) c.skip(); int t = b.e124(0); m.e[who].trans = t; break; }
        case 'c': { if (e->color.ptr) c.skip(); int k = ch(e->type == 314 ? 8 : 9, "color"); if (k < 8) e->color = Attr(k + 1); else { int q = b.e314("c"); m.e[who].color = Attr::p(q); } break; }
        case 'w': m.g.lwg = 5; e->weight = ch(5, "weight") + 1; break;
        case 'b': e->blank = 1; break;
        case 'd': if (e->dep == 0) c.skip(); e->dep = ch(2, "dep") + 2; break;
        case 'u': { int u = ch(6, "use") + 1; e->use = u; break; }
        case 'h': e->hier = ch(2, "hier") + 1; break;
        case 'L': { static const char* V[] = {"A", "LABEL", "EIGHTCHR", "a b"}; e->label = V[ch(4, "label")]; break; }
        case 'S': { static const int V[] = {1, 42, 99999999}; e->sub = V[ch(3, "subscript")]; break; }
        }
        break; }
    case 2: {   // comments
        int who = ch((int)m.e.size(), "entity"); int n = ch(3, "comment lines") + 1; static const char* T[] = {"plain comment", "sixty-four columns of comment text that fill one whole line .....", "with ,;3H delimiters; 1,2,3;", "   leading blanks"};
        for (int i = 0; i < n; i++) { m.e[who].comm.push_back(T[(ch(i ? 1 : 4, "text") + i) % 4]); if (m.e[who].comm.back().size() > 64) m.e[who].comm.back().resize(64); } break; }
    case 3: {   // optional property pointers
        int who = ch((int)m.e.size(), "entity"); if (m.e[who].type == 406) c.skip(); int n = ch(2, "count") + 1; for (int i = 0; i < n; i++) { int p = b.e406(fmt("prop %d", i)); m.e[who].props.push_back(p); } break; }
    case 4: {   // units and scale
        int u = ch(11, "units") + 1; static const double SC[] = {1, 0.5, 4, 0.125}; m.g.units = u; m.g.uname = u == 3 ? "FURLONG" : unitName(u); m.g.scale = SC[ch(4, "scale")]; m.g.res = u == 9 ? 1e-6 : u == 11 ? 1e-4 : 1e-9; if (ch(2, "note")) m.g.note = "note";
        if (int k = ch(3, "size")) {   // parts of the size of millimetres, with the digits of the resolution, as other programs write them
            double f = (k == 1 ? 1 : 1000) / (3 * (u == 3 ? 1 : unitMM(u))); m.g.res = 1e-4 * (u == 3 ? 1 : 1 / unitMM(u)); auto q = [&](double x) { return floor(x / m.g.res + .5) * m.g.res; };
            for (auto& e : m.e) for (auto& t : e.pd) if (t.k == 'L') t.r = e.type == 104 ? t.r * f : q(t.r * f); else if (t.k == 'Q') t.r *= f * f;
        }
        break; }
    case 5: {   // delimiters
        int n = strlen(DELIMS); int i = ch(n, "pd"), j = ch(n, "rd"); m.g.pd = DELIMS[i]; m.g.rd = DELIMS[j]; if (i == j || m.g.pd == ';' || m.g.rd == ',') c.skip(); if (!c.thorough && i != 0 && j != 1 && j != (i + 3) % n) c.skip(); break; }
    case 6: {   // global and start text
        string* s[] = {&m.g.ssid, &m.g.native, &m.g.rsid, &m.g.author, &m.g.org, &m.g.note}; static const int LEN[] = {1, 2, 9, 10, 55, 72, 99, 100, 145, 300};
        int w = ch(14, "global"); 
        if (w < 6) { int l = LEN[ch(10, "length")]; s[w]->clear(); for (int i = 0; i < l; i++) *s[w] += "abc,;3H x1."[(i * 7 + l) % 11]; if (s[w]->back() == ' ') s[w]->back() = 'z'; }
        else if (w == 6) { m.g.lwg = ch(3, "gradations") * 7 + 2; }
        else if (w == 7) { static const double V[] = {1, 0.25, 12.5, 0.001}; m.g.lw = V[ch(4, "linewidth")]; m.g.lwg = ch(2, "grad") ? 9 : 1; }
        else if (w == 8) { static const double V[] = {1e-3, 1e-5, 1e-7, 1e-9, 2.5e-4}; m.g.res = V[ch(5, "resolution")]; }
        else if (w == 9) m.g.std = ch(8, "standard");
        else if (w == 10) { static const char* V[] = {"19991231.235959", "991231.235959", "20240229.000000"}; m.g.created = V[ch(3, "date")]; }
        else if (w == 11) { int n = ch(4, "start lines") + 1; m.start.clear(); for (int i = 0; i < n; i++) m.start.push_back(i == 1 ? string("") : i == 2 ? string(72, 'q') : string("comment S G D P T") + fmt("%d", i)); }
        else if (w == 12) { m.start.assign(1, string(ch(3, "len") + 70, 'z')); }
        else { m.g.ssid = "a"; m.g.rsid = "b"; m.g.author = m.g.org = ""; }
        break; }
    case 7: {   // unsupported and null entities that reading drops
        int pos = ch((int)m.e.size() + 1, "position"); int kind = ch(3, "kind"); Model keep = m; int n = (int)m.e.size(); int cnt = ch(2, "count") + 1;
        vector<int> to; for (int i = 0; i < n; i++) to.push_back(i < pos ? i : i + cnt);
        m.e.resize(n); { Model t = m; t.e.resize(n); vector<int> tt = to; int total = n + cnt; vector<Ent> out(total); auto mp = [&](int i) { return i < 0 ? -1 : to[i]; };
            for (int k = 0; k < n; k++) { Ent e = m.e[k]; for (auto& q : e.pd) if ((q.k == 'P' || q.k == 'N') && q.i >= 0) q.i = to[q.i]; for (Attr* a : {&e.font, &e.level, &e.color}) if (a->ptr) a->v = mp(a->v); e.trans = mp(e.trans); for (auto& x : e.props) x = mp(x); out[to[k]] = e; }
            for (int q = 0; q < cnt; q++) { Ent e(kind == 0 ? 0 : kind == 1 ? 116 : 212, kind == 0 ? 0 : 0); if (kind) e.pd = {L(1), L(2), L(3), P(-1)}; else e.pd = {S("null entity text")}; out[pos + q] = e; }
            m.e = out; }
        return keep; }
    case 8: {   // parents before children
        int n = (int)m.e.size(); vector<int> to; for (int i = 0; i < n; i++) to.push_back(n - 1 - i); remap(m, to); break; }
    case 9: {   // attribute pointing at an unsupported entity is dropped
        int who = ch((int)m.e.size(), "entity"); Model keep; int f = ch(4, "field"); string a = applies(m.e[who].type); if ((f == 0 && a.find('f') == string::npos) || (f > 0 && a.find('t') == string::npos)) c.skip();
        static const int T[] = {304, 410, 402, 402}; keep = m; Ent e(T[f], f == 2 ? 5 : f == 3 ? 3 : 0); e.dep = 1; e.pd = {I(0)}; m.e.push_back(e); int q = (int)m.e.size() - 1;
        if (f == 0) m.e[who].font = Attr::p(q); else if (f == 2) m.e[who].lassoc = q; else m.e[who].view = q;
        return keep; }
    case 10: { static const double V[] = {1e-3, 1e-6, 1e3, 1e7, 12345.6789, 1e-2 / 3}; (void)V; break; }
    }
    return m;
}
static const double MAGS[] = {1, 1e-3, 1e-5, 1e3, 1e7, 12345.6789, 1.0 / 3};
static const int NASPECT = 11;
}
