// C21: directory attributes as registers: every sequence of assignments (legal, out of range, wrong kind), and deletions of
// what they refer to, on every entity type; after each step every attribute must be what the reference model says.
#include "lib.hpp"
#include "aspects.hpp"
using namespace igs;
static const int TYPES[] = {100, 102, 104, 110, 120, 122, 124, 126, 128, 142, 144, 154, 164, 180, 186, 308, 314, 406, 408, 502, 504, 508, 510, 514};
struct Op { char a; int v; };   // attribute, value; pointer attributes: 'T' transform, 'C' colour, 'F' font, 'L' level, 'V' view, 'A' label association, 'S' structure
struct Reg { int form, font, level, color, weight, vis, dep, use, hier, sub; int t, c; string label; bool operator==(const Reg& o) const { return form == o.form && font == o.font && level == o.level && color == o.color && weight == o.weight && vis == o.vis && dep == o.dep && use == o.use && hier == o.hier && sub == o.sub && t == o.t && c == o.c && label == o.label; } };
static string show(const Reg& r) { return fmt("form %d font %d level %d colour %d weight %d visible %d dependency %d use %d hierarchy %d subscript %d transform %d colour entity %d label '%s'", r.form, r.font, r.level, r.color, r.weight, r.vis, r.dep, r.use, r.hier, r.sub, r.t, r.c, r.label.c_str()); }
static const char* LAB[] = {"", "A", "12345678", "123456789X", "ab c"};
static vector<Op> ops() {
    vector<Op> o; auto add = [&](char a, std::initializer_list<int> v) { for (int x : v) o.push_back({a, x}); };
    add('m', {-1, 0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 12, 13, 15}); add('f', {-1, 0, 1, 5, 6}); add('l', {-1, 0, 1, 99999999}); add('c', {-1, 0, 1, 8, 9}); add('w', {-1, 0, 3, 5, 6}); add('b', {0, 1});
    add('d', {-1, 0, 1, 2, 3, 4}); add('u', {-1, 0, 1, 2, 3, 4, 5, 6, 7}); add('h', {-1, 0, 1, 2, 3}); add('s', {-1, 0, 1, 99999999, 100000000}); add('n', {0, 1, 2, 3, 4});
    // targets: 0 none, 1 2 transforms, 3 4 colours, 5 line, 6 name property, 7 the entity itself
    add('T', {0, 1, 2, 3, 5, 7}); add('C', {0, 3, 4, 1, 5, 7}); add('F', {0, 3, 5, 6}); add('L', {0, 6, 5}); add('V', {0, 5, 6}); add('A', {0, 5, 6}); add('S', {0, 5});
    add('x', {1, 2, 3, 4});   // delete a target
    return o;
}
static bool formOk(int t, int f) {
    switch (t) { case 104: return f >= 1 && f <= 3; case 110: return f >= 0 && f <= 2; case 124: return f == 0 || f == 1 || (f >= 10 && f <= 12); case 126: return f >= 0 && f <= 5; case 128: return f >= 0 && f <= 9; case 180: return f == 0 || f == 1; case 406: return f == 15; case 502: case 504: case 510: return f == 1; case 508: return f == 0 || f == 1; case 514: return f == 1 || f == 2; default: return f == 0; }
}
static bool formFixed(int t) { return t == 508 || t == 314 || t == 406; }   // documented: always written as form 1; any form tolerated
static void explore(mc::Ctx& c) {
    static const vector<Op> O = ops(); int ti = c.choose(24, "type"), t = TYPES[ti], depth = c.thorough ? 3 : 2; bool inBrepParent = false; (void)inBrepParent;
    vector<Op> seq; int k = c.choose((int)O.size(), "assignment"); seq.push_back(O[k]);
    for (int d = 1; d < depth; d++) { int j = c.choose((int)O.size() + 1, "assignment"); if (j == (int)O.size()) break;
        if (d == 2 && !(strchr("TCxlc", O[j].a))) { if (seq[0].a != O[j].a && seq[1].a != O[j].a) c.skip(); } seq.push_back(O[j]); }
    // quick, third step: back to an attribute already assigned, or a deletion
    if (!c.thorough && seq.size() == 2 && strchr("TCxcmb", seq[0].a) && strchr("TCxcmb", seq[1].a)) { int j = c.choose((int)O.size() + 1, "third"); if (j < (int)O.size()) { if (!strchr("TCxc", O[j].a)) c.skip(); seq.push_back(O[j]); } }
    c.begin();
    IGES g; g.globalData.maxLinewidthGrad = 5; IGES_ENTITY* E[8] = {0}; static const int TT[] = {0, 124, 124, 314, 314, 110, 406};
    for (int i = 1; i <= 6; i++) c.check(g.NewEntity(TT[i], &E[i]), "new", "NewEntity fails");
    c.check(g.NewEntity(t, &E[7]), "new", fmt("NewEntity(%d) fails", t)); IGES_ENTITY* x = E[7];
    string ap = applies(t); if (t == 124) ap = "tu"; if (t == 504) ap = "lbu"; if (t == 180 || t == 186) ap += "h"; if (t == 406) ap += "bhu";
    auto on = [&](char a) { return ap.find(a) != string::npos; };
    auto who = [&](IGES_ENTITY* p) { if (!p) return 0; for (int i = 1; i < 8; i++) if (E[i] == p) return i; return -1; };
    auto get = [&]() { Reg r; IGES_LINEFONT_PATTERN f; IGES_COLOR q; bool b; IGES_STAT_DEPENDS d; IGES_STAT_USE u; IGES_STAT_HIER h; IGES_ENTITY* p = 0;
        r.form = x->GetEntityForm(); r.font = x->GetLineFontPattern(f) ? f : -99; r.level = -99; int l; if (x->GetLevel(l)) r.level = l; r.color = x->GetColor(q) ? q : -99; x->GetLineWeightNum(r.weight); x->GetVisibility(b); r.vis = b; x->GetDependency(d); r.dep = d; x->GetEntityUse(u); r.use = u; x->GetHierarchy(h); r.hier = h; x->GetEntitySubscript(r.sub); x->GetLabel(r.label);
        if (r.label != x->GetLabel()) r.label = "two labels";
        r.t = x->GetTransform(&p) ? who(p) : (p ? -2 : 0); r.c = x->GetColorEntity(&p) ? who(p) : (p ? -2 : 0);
        if (x->GetLineFontPatternEntity(&p) || p) r.font = -1; if (x->GetLevelEntity(&p) || p) r.level = -1; if (x->GetView(&p) || p) r.t = -3; if (x->GetLabelAssoc(&p) || p) r.t = -4; 
        return r; };
    Reg m = get(); string hist = fmt("%d:", t);
    c.check(m.t == 0 && m.c == 0 && m.label.empty() && m.level == 0 && m.weight == 0 && m.sub == 0 && m.vis == 1, fmt("default:%d", t), "a new entity has " + show(m));
    for (Op o : seq) {
        Reg w = m; int want = -1; bool got = false; int v = o.v;   // want: -1 either, 0 refused, 1 accepted
        hist += fmt(" %c%d", o.a, v); IGES_ENTITY* p = strchr("TCFLVAS", o.a) ? E[v] : 0; if (strchr("TCFLVAS", o.a) && v && !p) continue;   // deleted target
        c.site(fmt("%d:%c", t, o.a));
        switch (o.a) {
        case 'm': got = x->SetEntityForm(v); if (t == 180 && v == 0 && m.form == 1) want = 0; else want = formFixed(t) ? (t == 314 ? -1 : formOk(t, v)) : formOk(t, v); if (want == 1 && !formFixed(t)) w.form = v; break;
        case 'f': got = x->SetLineFontPattern((IGES_LINEFONT_PATTERN)v); if (on('f')) { want = v >= 0 && v <= 5; if (want) w.font = v; } break;
        case 'l': got = x->SetLevel(v); if (on('l')) { want = v >= 0; if (want) w.level = v; } break;
        case 'c': got = x->SetColor((IGES_COLOR)v); if (on('c')) { want = v >= (t == 314) && v <= 8; if (want) w.color = v, w.c = 0; } break;
        case 'w': got = x->SetLineWeightNum(v); if (on('w')) { want = v >= 0; if (want) w.weight = std::min(v, 5); } break;
        case 'b': got = x->SetVisibility(v); if (on('b') && t != 308 && t != 314) { want = 1; w.vis = v; } break;
        case 'd': got = x->SetDependency((IGES_STAT_DEPENDS)v); if (on('d')) { want = v >= 0 && v <= 3; if (t == 314) want = -1; else if (want) w.dep = v; } break;
        case 'u': got = x->SetEntityUse((IGES_STAT_USE)v); if (on('u')) { want = v >= 0 && v <= 6; if (want) w.use = v; } break;
        case 'h': got = x->SetHierarchy((IGES_STAT_HIER)v); if (on('h') && t != 314) { want = v >= 0 && v <= 2; if (want) w.hier = v; } break;
        case 's': got = x->SetEntitySubscript(v); want = v >= 0 && v <= 99999999; if (want) w.sub = v; break;
        case 'n': got = x->SetLabel(LAB[v]); want = 1; w.label = string(LAB[v]).substr(0, 8); break;
        case 'T': got = x->SetTransform(p); if (on('t')) { want = v == 0 || v == 1 || v == 2; if (want) w.t = v; } break;
        case 'C': got = x->SetColor(p); if (on('c') && t != 314) { want = v == 0 || v == 3 || v == 4; if (want) { w.c = v; w.color = v ? -99 : 0; } } break;
        case 'F': got = x->SetLineFontPattern(p); if (on('f')) { want = v == 0; if (want) w.font = 0; } break;
        case 'L': got = x->SetLevel(p); if (on('l')) { want = v == 0; if (want) w.level = 0; } break;
        case 'V': got = x->SetView(p); if (v && on('t') && t != 124) want = 0; break;
        case 'A': got = x->SetLabelAssoc(p); if (v && on('t') && t != 124) want = 0; break;
        case 'S': got = x->SetStructure(p); want = 0; break;
        case 'x': if (!E[v]) continue; { IGES_ENTITY* e = E[v]; E[v] = 0; got = g.DelEntity(e); want = 1; if (w.t == v) w.t = 0; if (w.c == v) { w.c = 0; w.color = m.color; } } break;
        }
        c.say(hist); c.transition();
        c.check(want < 0 || got == (want == 1), fmt("result:%d:%c", t, o.a), fmt("%s: returned %d, should be %d", hist.c_str(), got, want));
        Reg r = get();
        if (o.a == 'x' && m.c == v) { c.check(r.color != -99 && r.color >= 0 && r.color <= 8, fmt("deleted-colour:%d", t), hist + ": after the colour entity is deleted there is neither a number nor an entity: " + show(r)); w.color = r.color; }
        if (!(r == w)) c.fail(fmt("value:%d:%c", t, o.a), hist + fmt(" (returned %d): now\n ", got) + show(r) + "\ninstead of\n " + show(w));
        m = r; c.state(mc::hstr(fmt("%d ", t) + show(r))); c.validated();
        if (got == false) c.outcome("refused"); else c.outcome("accepted");
    }
    c.nontrivial(mc::hstr(hist)); c.outcome(fmt("type %d", t));
}
MC_MAIN(explore, 2, 10)
