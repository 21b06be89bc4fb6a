// C17: IDF boards and libraries.  Every board of a family is written by an independent generator, read by IDF3_BOARD, compared through the public
// accessors, written again in both units, parsed by an independent strict reader, read back; edited by every short sequence of API calls; and damaged
// at every line and token.
#include "mc.hpp"
#include "idf.hpp"
#include <sys/stat.h>
#include <unistd.h>
#include <memory>
#include <idf_parser.h>
#include "idfboards.hpp"
using namespace idf; using mc::Ctx;
static string slurp(const string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void spill(const string& p, const string& s) { std::ofstream f(p, std::ios::binary); f << s; }
struct Quiet { std::streambuf* o; std::stringstream s; Quiet() { o = std::cerr.rdbuf(s.rdbuf()); } ~Quiet() { std::cerr.rdbuf(o); } };

// ---- what the library says it holds ------------------------------------------------------------------------------------
static Loop loopOf(IDF_OUTLINE* o) { Loop l; bool first = true; for (auto* s : *o) { if (first) l.push_back({s->startPoint.x, s->startPoint.y, 0}); first = false; l.push_back({s->endPoint.x, s->endPoint.y, s->angle}); } return l; }
static vector<Loop> loopsOf(const BOARD_OUTLINE& b) { vector<Loop> v; for (auto* o : *b.GetOutlines()) v.push_back(loopOf(o)); return v; }
static vector<string> commOf(BOARD_OUTLINE& b) { return vector<string>(b.GetComments()->begin(), b.GetComments()->end()); }
static Drill drillOf(IDF_DRILL_DATA* d) { return {d->GetDrillDia(), d->GetDrillXPos(), d->GetDrillYPos(), d->GetDrillPlating() == IDF3::PTH ? "PTH" : "NPTH", d->GetDrillRefDes(), d->GetDrillHoleType(), OWN[d->GetDrillOwner()]}; }
static Board held(IDF3_BOARD& b) {
    Board r; r.name = b.GetBoardName(); BOARD_OUTLINE* o = b.GetBoardOutline(); Sec x; x.kind = "BOARD_OUTLINE"; x.owner = OWN[o->GetOwner()]; x.h = o->GetThickness(); x.loops = loopsOf(*o); x.comm = commOf(*o); r.secs.push_back(x);
    for (auto& p : *b.GetOtherOutlines()) { Sec y; y.kind = "OTHER_OUTLINE"; y.owner = OWN[p.second->GetOwner()]; y.h = p.second->GetThickness(); y.layer = LYR[p.second->GetSide()]; y.name = p.second->GetOutlineIdentifier(); y.loops = loopsOf(*p.second); y.comm = commOf(*p.second); r.secs.push_back(y); }
    for (auto* d : b.GetBoardDrills()) r.drills.push_back(drillOf(d));
    for (auto& p : *b.GetComponents()) {
        for (auto* d : *p.second->GetDrills()) r.drills.push_back(drillOf(d)); double X = 0, Y = 0, A = 0; IDF3::IDF_LAYER L = IDF3::LYR_TOP; bool pos = p.second->GetPosition(X, Y, A, L);
        for (auto* q : *p.second->GetOutlinesData()) { if (!q->GetOutline()) continue; double x, y, z, a; q->GetOffsets(x, y, z, a); string ref = p.second->GetRefDes(); if (ref.compare(0, 8, "NOREFDES") == 0 || ref == "~") ref = "NOREFDES"; double s = L == IDF3::LYR_BOTTOM ? -1 : 1;
            r.places.push_back({q->GetOutline()->GetGeomName(), q->GetOutline()->GetPartName(), ref, X + s * x, Y + y, z, A + s * a, pos ? LYR[L] : "?", STAT[p.second->GetPlacement()]}); }
    }
    for (auto& p : b.GetComponentOutlines()) { auto* c = p.second; Comp k; k.elec = c->GetComponentClass() == IDF3::COMP_ELEC; k.geom = c->GetGeomName(); k.part = c->GetPartName(); k.unit = c->GetUnit() == IDF3::UNIT_THOU ? "THOU" : "MM"; k.h = c->GetThickness(); k.loops = loopsOf(*c); k.comm = commOf(*c); r.comps.push_back(k); }
    return r;
}
static string brief(const Board& b) { string s = b.name; for (auto& x : b.secs) { s += "\n" + x.kind + " " + x.owner + " " + x.layer + " " + x.name + fmt(" %.7g ", x.h); for (auto& l : x.loops) s += show(l); } for (auto& d : b.drills) s += fmt("\nhole %.7g %.7g %.7g ", d.d, d.x, d.y) + d.plate + " " + d.ref + " " + d.type + " " + d.owner; for (auto& p : b.places) s += "\nplace " + p.geom + "/" + p.part + " " + p.ref + fmt(" %.7g %.7g %.7g %.6g ", p.x, p.y, p.z, p.a) + p.side + " " + p.status; for (auto& c : b.comps) s += "\ncomp " + c.geom + "/" + c.part + fmt(" %.7g", c.h); return s; }

static Board expectOf(const Board& b, const Form& f, bool mech, bool lib) {     // what a reader must hold
    Board e = b; if (f.version == 2) for (auto& p : e.places) if (p.status == "FIXED") p.status = mech ? "ECAD" : "MCAD";
    if (!lib) e.comps.clear(); for (auto& c : e.comps) c.unit = c.unit == "THOU" ? "THOU" : "MM"; return e;
}
static Board visible(Board e) { vector<Sec> s; for (auto& x : e.secs) if (x.kind == "BOARD_OUTLINE" || x.kind == "OTHER_OUTLINE") { s.push_back(x); } e.secs = s; return e; }
// an accessor-level expectation: the order within a section list does not matter, "ccw" of single outlines is as given
struct Ses { Ctx& c; string dir, what; Form f; };
static What acc() { What w; w.secs = false; w.props = false; return w; }

static bool parseOut(Ses& s, const string& stem, Board& out, bool mm, const string& tag) {
    string b = slurp(stem + ".emn"), l = slurp(stem + ".emp"); s.c.say(tag + ":\n" + b + "\n" + l);
    try { Reader r(b); r.board(out); s.c.check(r.unit == (mm ? "MM" : "THOU"), "unit/" + tag, "asked for " + string(mm ? "MM" : "THOU") + ", the file says " + r.unit); Reader q(l); q.library(out); }
    catch (Bad& e) { s.c.fail("illformed/" + tag, s.what + ": the written file is not well formed: " + e.msg); return false; }
    return true;
}
// write b (which must hold e) in both units, check the files, read them back
static void writeAndBack(Ses& s, IDF3_BOARD& b, const Board& e, const string& tag, bool free = false, bool deep = true) {
    Board before = held(b);
    for (int pass = 0; pass < (deep ? 3 : 2); pass++) {
        bool mm = pass != 1, force = pass == 2; string stem = s.dir + fmt("/out%d", pass); bool ok; { Quiet q; ok = b.WriteFile(stem + ".emn", mm, force); } s.c.transition();
        if (!ok) { s.c.fail("nowrite/" + tag, s.what + ": WriteFile failed: " + b.GetError()); return; }
        Board got; if (!parseOut(s, stem, got, mm, tag)) return; Board want = e; unused(want); if (force) for (auto& k : want.comps) k.unit = "MM"; What w; w.free = free; Tol tm = printed(false), tt = printed(true), t = mm ? tm : tt;
        string d = diff(want, got, t, tm, tt, w); if (!d.empty()) { s.c.fail("written/" + tag + (mm ? "" : "/thou"), s.what + ": the written file has " + d); return; } s.c.validated();
        for (auto& k : got.comps) for (auto& j : want.comps) if (j.geom == k.geom && j.part == k.part) s.c.check(j.unit == k.unit, "compunit/" + tag, s.what + ": component " + k.geom + " written in " + k.unit + " instead of " + j.unit);
        { w.secs = false; w.props = false; Board now = held(b), was = before; if (force) for (auto& k : was.comps) k.unit = "MM"; Tol z; z.len = mm ? 1e-4 : 1e-2; d = diff(was, now, z, z, z, w); if (!d.empty()) s.c.fail("source/" + tag, s.what + ": writing changed the board: " + d); }
        IDF3_BOARD r(b.GetCadType()); { Quiet q; ok = r.ReadFile(stem + ".emn", false); } if (!ok) { s.c.fail("reread/" + tag, s.what + ": cannot read its own file: " + r.GetError()); return; }
        d = diff(visible(want), held(r), t, tm, tt, w); if (!d.empty()) { s.c.fail("reread/" + tag, s.what + ": the file reads back with " + d); return; }
        if (pass == 0) { Quiet q; ok = r.WriteFile(s.dir + "/again.emn", mm, false); s.c.check(ok, "again/" + tag, s.what + ": cannot write again"); if (ok) { Board g2; if (parseOut(s, s.dir + "/again", g2, mm, tag)) { Tol z; z.len = z.dia = z.z = z.ang = 1e-9; d = diff(got, g2, z, z, z, What()); if (!d.empty()) s.c.fail("again/" + tag, s.what + ": the second generation has " + d); } } }
    }
}
static void oneBoard(Ctx& c, const Board& b, const Form& f, const string& what, const string& tag, bool mech = false, bool lib = true, bool noSub = false, bool free = false) {
    c.begin(); c.state(mc::hstr(what)); c.nontrivial(mc::hstr(what)); Ses s{c, c.scratch, what, f}; c.site(tag);
    Writer w(f); string bt = w.board(b); Writer v(f); string lt = v.library(b); spill(s.dir + "/in.emn", bt); if (lib) spill(s.dir + "/in.emp", lt); else unlink((s.dir + "/in.emp").c_str()); c.say(bt + "\n" + lt);
    IDF3_BOARD brd(mech ? IDF3::CAD_MECH : IDF3::CAD_ELEC); bool ok; { Quiet q; ok = brd.ReadFile(s.dir + "/in.emn", noSub); c.say(q.s.str()); } c.transition();
    if (!ok) { c.fail("refused/" + tag, what + ": a valid file is refused: " + brd.GetError()); return; } c.outcome(tag);
    Board e = expectOf(b, f, mech, lib); Board g = held(brd); Tol t;
    if (!lib) { if (noSub) e.places.clear(); else { e.comps = g.comps; std::set<string> need, have; for (auto& p : b.places) need.insert(p.geom + "\n" + p.part); for (auto& k : g.comps) { have.insert(k.geom + "\n" + k.part); c.check(!k.loops.empty(), "default/" + tag, "a substitute outline is empty"); } c.check(need == have, "default/" + tag, what + ": substitute outlines do not match the placed components"); } }
    What wa = acc(); wa.free = free; string d = diff(visible(e), g, t, t, t, wa); if (!d.empty()) { c.fail("read/" + tag, what + ": read gives " + d); return; } c.validated();
    c.check(brd.GetBoardSource() == b.source && brd.GetBoardDate() == b.date && brd.GetBoardVersion() == b.ver, "header/" + tag, what + ": board header read as '" + brd.GetBoardSource() + "' '" + brd.GetBoardDate() + "'" + fmt(" %d", brd.GetBoardVersion()));
    if (lib) c.check(brd.GetLibrarySource() == b.lsource && brd.GetLibraryDate() == b.ldate && brd.GetLibraryVersion() == b.lver, "header/" + tag, what + ": library header read as '" + brd.GetLibrarySource() + "' '" + brd.GetLibraryDate() + "'" + fmt(" %d", brd.GetLibraryVersion()));
    c.check(brd.GetUnit() == (f.unit == THOU ? IDF3::UNIT_THOU : f.unit == TNM ? brd.GetUnit() : IDF3::UNIT_MM), "header/" + tag, what + ": unit");
    writeAndBack(s, brd, e, tag, free);
}

// ---- the families --------------------------------------------------------------------------------------------------------
static void files(Ctx& c) {
    int fam = c.choose(6, "family");
    if (fam == 0) {                                     // one section of every kind and shape
        int k = c.choose(8, "kind"), sh = c.choose(NSHAPE, "shape"), cw = c.choose(k < 2 ? 4 : 2, "winding"), fi = c.choose(c.thorough ? NFORM : 5, "form"); Form f = form(fi); Board b = base(); bool dbl = k < 2 || k == 5; if (cw && dbl && k != 0 && k != 1) {}
        Loop l = wind(shape(sh, 2.54, 5.08), !cw); Sec s = mk(KIND[k], l); if (f.version == 2) { if (k == 2) s.layer = "ALL"; if (k == 4) s.layer = "BOTH"; if (k == 3) { s.layer = "TOP"; s.h = 0; } }
        bool odd = cw > 1; if (odd) { s.loops = {wind(shape(sh, 2.54, 5.08), false)}; if (cw == 3) s.loops = {square(0, 0, 76.2), wind(shape(sh, 2.54, 5.08), true)}; }   // wound the wrong way: the same curves
        if (k <= 1 && !odd) { if (cw) { s.loops = {square(0, 0, 76.2), l}; if (sh % 2) s.loops.push_back(wind(shape((sh + 3) % NSHAPE, 38.1, 38.1), false)); } } if (k == 0) b.secs[0] = s; else b.secs.push_back(s);
        oneBoard(c, b, f, fmt("%s shape %d winding %d form %d", KIND[k], sh, cw, fi), fmt("%s/shape%d%s", KIND[k], sh, cw == 0 ? "" : cw == 1 ? "cw" : cw == 2 ? "reversed" : "reversedhole"), false, true, false, odd);
    } else if (fam == 1) {                              // attributes of a section
        int k = c.choose(8, "kind"); Form f = form(c.choose(c.thorough ? 5 : 2, "form")); bool v2 = f.version == 2; Board b = base(); Sec s = mk(KIND[k], shape(0, 2.54, 5.08)); if (!v2) s.owner = OWN[c.choose(3, "owner")];
        if (k == 1) { if (!v2) s.layer = LYR[c.choose(2, "side")]; s.name = c.pick(vector<string>{"A", "heat sink", "a-b_c.1"}); s.h = c.pick(vector<double>{0, 2.54}); }
        if (k == 2 || k == 4) { if (!(v2 && k == 2)) s.layer = LYR[c.choose(v2 ? 3 : 5, "layers")]; }
        if (k == 3 || k == 6) { if (!(v2 && k == 3)) { s.layer = LYR[c.choose(3, "side")]; s.h = c.pick(vector<double>{0, 2.54, 101.6}); if (k == 3 && c.flip("no height")) s.h = NAN; } else s.h = 0, s.layer = "TOP"; }
        if (k == 7) { s.layer = LYR[c.choose(3, "side")]; s.name = c.pick(vector<string>{"G", "group one"}); }
        if (k == 0) s.h = c.pick(vector<double>{0.762, 1.6002, 25.4});
        int nc = c.choose(4, "comments"); if (nc == 1) s.comm = {"one"}; if (nc == 2) s.comm = {"one remark", "two"}; if (nc == 3) s.comm = {"same", "same", "# hash \"quote\" .HEADER"};
        if (k == 0) b.secs[0] = s; else { b.secs.push_back(s); int dup = c.choose(2, "second section"); if (dup) { Sec t = s; if (k == 1) t.name += "2"; t.comm.clear(); t.loops = {shape(1, 1.27, 2.54)}; b.secs.push_back(t); } if (k == 5) { b.secs.back().layer = ""; } }
        oneBoard(c, b, f, fmt("%s attributes: owner %s layer %s name %s height %g, %d comments, %d sections", KIND[k], s.owner.c_str(), s.layer.c_str(), s.name.c_str(), s.h, (int)s.comm.size(), (int)b.secs.size()), string(KIND[k]) + "/attributes");
    } else if (fam == 2) {                              // holes and notes
        Form f = form(c.choose(5, "form")); bool v2 = f.version == 2; Board b = base(); string ref = c.pick(vector<string>{"BOARD", "NOREFDES", "U1", "R 1", "PANEL"}), type = c.pick(vector<string>{"PIN", "VIA", "MTG", "TOOL", "custom", "my hole"}); string pl = v2 ? "PTH" : c.pick(vector<string>{"PTH", "NPTH"}), ow = v2 ? "UNOWNED" : OWN[c.choose(3, "owner")]; double d = c.pick(vector<double>{0.508, 3.175});
        b.drills = {{d, 1.27, -2.54, pl, ref, type, ow}, {0.762, 5.08, 5.08, "PTH", "BOARD", "VIA", "UNOWNED"}}; bool placed = c.flip("component placed"); if (placed) { b.comps = {part("so8", "x")}; b.places = {{"so8", "x", "U1", 2.54, 2.54, 0, 0, "TOP", "PLACED"}}; }
        if (!v2 && ref == "BOARD" && type == "PIN") { b.notes = {{1.27, 2.54, 1.524, 12.7, "text"}, {-1.27, 0, 2.54, 25.4, "longer text, with # . marks"}}; if (placed) b.ncomm = {"n1", "n2"}; b.dcomm = {"d1"}; }
        oneBoard(c, b, f, "hole " + ref + " " + type + " " + pl + " " + ow + fmt(" %g%s%s", d, placed ? " placed" : "", v2 ? " v2" : ""), "hole/" + ref);
    } else if (fam == 3) {                              // placements
        Form f = form(c.choose(5, "form")); bool v2 = f.version == 2; Board b = base(); b.comps = {part("so8", "x"), part("dip", "y z", 2, f.unit == THOU ? "THOU" : "MM")}; string ref = c.pick(vector<string>{"U1", "R 1", "NOREFDES", "a b"}), side = LYR[c.choose(2, "side")], st = v2 ? c.pick(vector<string>{"PLACED", "UNPLACED", "FIXED"}) : STAT[c.choose(4, "status")]; if (ref == "a b") ref = "placement";
        double a = c.pick(vector<double>{0, 90, -45.5, 359.999}), z = v2 ? 0 : c.pick(vector<double>{0, 1.27}); b.places = {{"so8", "x", ref, 10.16, -5.08, z, a, side, st}};
        int second = c.choose(3, "second"); if (second == 1) b.places.push_back({"dip", "y z", ref, 12.7, -2.54, v2 ? 0 : 2.54, a + 30, side, st}); if (second == 2) b.places.push_back({"dip", "y z", ref == "NOREFDES" ? ref : "Q7", 0, 0, 0, 0, side == "TOP" ? "BOTTOM" : "TOP", v2 ? "PLACED" : "ECAD"});
        int ctx = c.choose(4, "context"); bool mech = ctx == 1, lib = ctx < 2, no = ctx == 3;
        oneBoard(c, b, f, "placement " + ref + " " + side + " " + st + fmt(" %g %g second %d context %d", a, z, second, ctx), fmt("place/%s%s%s", side.c_str(), second == 1 ? "/two" : "", lib ? "" : "/nolib"), mech, lib, no);
    } else if (fam == 4) {                              // libraries
        Form f = form(c.choose(5, "form")); Board b = base(); int sh = c.choose(NSHAPE, "shape"); bool cw = c.flip("cw"); string unit = UN[c.choose(f.version == 2 ? 3 : 2, "unit")]; string g = c.pick(vector<string>{"so8", "s o", "a_b"}); Comp k = part(g, "p q", 0, unit); k.loops = {wind(shape(sh, -1.27, -1.27), !cw)}; k.elec = c.flip("mechanical") == 0; k.h = c.pick(vector<double>{0, 5.08});
        int np = f.version == 3 && k.elec ? c.choose(3, "props") : 0; if (np) k.props["RESISTANCE"] = "1.5"; if (np == 2) { k.props["my prop"] = "a b"; k.props["TOLERANCE"] = "x"; } if (c.flip("comment")) k.comm = {"remark", "more"};
        b.comps = {part("other", "c", 2), k}; b.places = {{g, "p q", "U1", 1.27, 1.27, 0, 0, "TOP", "PLACED"}, {g, "p q", "U2", 2.54, 1.27, 0, 90, "BOTTOM", "PLACED"}};
        oneBoard(c, b, f, fmt("library shape %d%s %s %s h %g %d props form v%d", sh, cw ? " cw" : "", unit.c_str(), g.c_str(), k.h, np, f.version), fmt("library/shape%d%s", sh, cw ? "cw" : ""));
    } else {                                            // everything at once, in every spelling
        int fi = c.choose(NFORM, "form"), mech = c.choose(2, "cad"), var = c.choose(7, "variant"); Form f = form(fi); Board b = rich(f.version == 2);
        if (var == 1) b.name = "a longer board name"; if (var == 2) { b.source = "some cad 1.0"; b.lsource = "x"; b.ver = 17; b.lver = 0; } if (var == 3) { b.drills.clear(); b.dcomm.clear(); } if (var == 4) { b.places.clear(); b.pcomm.clear(); } if (var == 5) { b.secs.resize(1); b.secs[0].loops.clear(); } if (var == 6) { b.comps.push_back(part("so8", "lm_358")); b.comps.push_back(part("so8_lm", "358")); b.places.push_back({"so8_lm", "358", "U9", 0, 0, 0, 0, "TOP", "PLACED"}); }
        if (var == 5) { b.notes.clear(); b.ncomm.clear(); }
        oneBoard(c, b, f, fmt("rich board form %d %s variant %d", fi, mech ? "mech" : "elec", var), var == 6 ? string("rich/samename") : fmt("rich/form%d/var%d", fi, var), mech);
    }
}

// ---- API sequences ---------------------------------------------------------------------------------------------------------
static void edits(Ctx& c) {
    bool fresh = c.flip("empty board"); Board e; IDF3_BOARD* bp = new IDF3_BOARD(IDF3::CAD_ELEC); std::unique_ptr<IDF3_BOARD> own(bp); IDF3_BOARD& b = *bp; Ses s{c, c.scratch, "", Form()}; string log = fresh ? "new board" : "board read"; int depth = c.thorough ? 4 : 3; vector<int> ops; for (int i = 0; i < depth; i++) { int o = c.choose(14, "op"); ops.push_back(o); if (o == 13) break; }
    c.begin(); Form f; Board src = base(); src.comps = {part("so8", "x"), part("dip", "y z", 2, "THOU")}; src.places = {{"so8", "x", "U1", 10.16, 5.08, 0, 90, "TOP", "PLACED"}, {"dip", "y z", "Q 2", 20.32, 5.08, 0, 30, "BOTTOM", "PLACED"}}; src.drills = {{1.016, 2.54, 2.54, "PTH", "U1", "PIN", "UNOWNED"}, {3.175, 7.62, 7.62, "NPTH", "BOARD", "MTG", "UNOWNED"}};
    if (fresh) { src.places.clear(); src.drills.clear(); }
    { Writer w(f); spill(s.dir + "/in.emn", w.board(src)); Writer v(f); spill(s.dir + "/in.emp", v.library(src)); Quiet q; if (!b.ReadFile(s.dir + "/in.emn")) { c.fail("api/read", b.GetError()); return; } } e = src;
    auto outl = [&](const char* g) -> IDF3_COMP_OUTLINE* { for (auto& p : b.GetComponentOutlines()) if (p.second->GetGeomName() == g) return p.second; return NULL; };
    int n = 0;
    for (int o : ops) {
        n++; bool ok = true, must = true; Quiet q; c.transition(); auto eu = [&](const string& r) { for (size_t i = 0; i < e.places.size(); i++) if (e.places[i].ref == r) return (int)i; return -1; };
        switch (o) {
        case 0: log += " SetBoardName"; b.SetBoardName(fmt("name %d", n)); e.name = fmt("name %d", n); break;
        case 1: log += " SetBoardThickness"; ok = b.SetBoardThickness(1.27 * n); e.secs[0].h = 1.27 * n; break;
        case 2: { log += " AddBoardOutline"; IDF_OUTLINE* p = new IDF_OUTLINE; Loop l = wind(shape(n % 2 ? 3 : 6, 2.54 * n, 12.7), n == 2); for (size_t i = 1; i < l.size(); i++) { IDF_POINT a, z; a.x = l[i - 1].x; a.y = l[i - 1].y; z.x = l[i].x; z.y = l[i].y; p->push(new IDF_SEGMENT(a, z, l[i].a, false)); } ok = b.AddBoardOutline(p); e.secs[0].loops.push_back(wind(l, false)); break; }
        case 3: { log += " DelBoardOutline(last)"; size_t k = b.GetBoardOutlinesSize(); if (k < 2) { c.check(!b.DelBoardOutline(k), "api/range", "a cutout that does not exist was deleted"); break; } ok = b.DelBoardOutline(k - 1); e.secs[0].loops.pop_back(); break; }
        case 4: { log += " AddSlot"; double an = 30 * n, w = 2.54, l = 7.62; ok = b.AddSlot(w, l, an, 25.4, 25.4); double r = an * M_PI / 180, ux = cos(r), uy = sin(r); auto pt = [&](double a, double t, double g) { return P{25.4 + a * ux - t * uy, 25.4 + a * uy + t * ux, g}; }; Loop q4 = {pt(l / 2, w / 2, 0), pt(l / 2, -w / 2, -180), pt(-l / 2, -w / 2, 0), pt(-l / 2, w / 2, -180), pt(l / 2, w / 2, 0)}; e.secs[0].loops.push_back(q4); break; }
        case 5: log += " AddBoardDrill"; ok = b.AddBoardDrill(0.889, 1.27 * n, 2.54, n % 2 ? IDF3::PTH : IDF3::NPTH, n == 2 ? "special kind" : "TOOL", IDF3::ECAD) != NULL; e.drills.push_back({0.889, 1.27 * n, 2.54, n % 2 ? "PTH" : "NPTH", "BOARD", n == 2 ? "special kind" : "TOOL", "ECAD"}); break;
        case 6: { log += " DelBoardDrill"; int k = -1; for (size_t i = 0; i < e.drills.size(); i++) if (e.drills[i].ref == "BOARD") { k = (int)i; break; } if (k < 0) { c.check(!b.DelBoardDrill(3.175, 7.62, 7.62), "api/drill", "a hole that does not exist was deleted"); break; } Drill d = e.drills[k]; ok = b.DelBoardDrill(d.d, d.x, d.y); e.drills.erase(e.drills.begin() + k); break; }
        case 7: case 8: { bool bot = o == 8; log += bot ? " AddComponent(bottom, two outlines)" : " AddComponent(top, two outlines)"; string ref = fmt("N %d", n); IDF3_COMPONENT* k = new IDF3_COMPONENT(&b); ok = k->SetRefDes(ref) && k->SetPosition(5.08, 2.54 * n, 15, bot ? IDF3::LYR_BOTTOM : IDF3::LYR_TOP) && k->SetPlacement(IDF3::PS_ECAD);
            for (int i = 0; i < 2; i++) { IDF3_COMP_OUTLINE* u = outl(i ? "dip" : "so8"); IDF3_COMP_OUTLINE_DATA* d = new IDF3_COMP_OUTLINE_DATA(k, u, i ? 1.27 : 0, i ? 2.54 : 0, 0.508, i ? 60 : 0); ok = ok && u && k->AddOutlineData(d); double sg = bot ? -1 : 1; e.places.push_back({i ? "dip" : "so8", i ? "y z" : "x", ref, 5.08 + sg * (i ? 1.27 : 0), 2.54 * n + (i ? 2.54 : 0), 0.508, 15 + sg * (i ? 60 : 0), bot ? "BOTTOM" : "TOP", "ECAD"}); }
            ok = ok && k->AddDrill(1.016, 2.54 * n, 1.27, IDF3::PTH, "PIN", IDF3::UNOWNED); e.drills.push_back({1.016, 2.54 * n, 1.27, "PTH", ref, "PIN", "UNOWNED"}); ok = ok && b.AddComponent(k); break; }
        case 9: { log += " DelComponent"; if (b.GetComponentsSize() == 0) { c.check(!b.DelComponent((size_t)0), "api/component", "a component that does not exist was deleted"); break; } string r = b.GetComponents()->begin()->first; ok = n % 2 ? b.DelComponent((size_t)0) : b.DelComponent(b.FindComponent(r)); for (size_t i = e.places.size(); i-- > 0;) if (e.places[i].ref == r) e.places.erase(e.places.begin() + i); for (size_t i = e.drills.size(); i-- > 0;) if (e.drills[i].ref == r) e.drills.erase(e.drills.begin() + i); break; }
        case 10: { log += " SetPosition"; auto* k = b.FindComponent("U1"); c.check((k != NULL) == (eu("U1") >= 0), "api/find", log + ": FindComponent(U1)"); if (!k) break; ok = !k->SetPosition(1.27 * n, -1.27, 10 * n, n % 2 ? IDF3::LYR_TOP : IDF3::LYR_BOTTOM); break; }
        case 11: { log += " SetPlacement/DelDrill"; auto* k = b.FindComponent("U1"); if (!k) break; ok = k->SetPlacement(IDF3::PS_UNPLACED); for (auto& p : e.places) if (p.ref == "U1") p.status = "UNPLACED"; for (size_t i = 0; i < e.drills.size(); i++) if (e.drills[i].ref == "U1") { ok = ok && k->DelDrill(e.drills[i].d, e.drills[i].x, e.drills[i].y); e.drills.erase(e.drills.begin() + i); break; } break; }
        case 12: { log += " DeleteOutlineData"; auto* k = b.FindComponent("Q 2"); if (!k || k->GetOutlinesSize() == 0) break; ok = k->DeleteOutlineData((size_t)0); for (size_t i = 0; i < e.places.size(); i++) if (e.places[i].ref == "Q 2") { e.places.erase(e.places.begin() + i); break; } break; }
        case 13: log += " end"; break;
        }
        if (must && !ok) { c.fail("api/refused", log + ": refused: " + b.GetError()); return; }
    }
    s.what = log; c.site("api"); c.state(mc::hstr(log)); c.nontrivial(mc::hstr(log)); c.outcome(fmt("%d edits", (int)ops.size()));
    { What w = acc(); w.free = true; Tol ta; ta.len = 1e-5; /* KiCad arcs are rounded to 1e-4 degrees */ string d = diff(visible(e), held(b), ta, ta, ta, w); if (!d.empty()) { c.fail("api/held", log + ": the board has " + d + "\n" + brief(held(b))); return; } }
    writeAndBack(s, b, e, "api", true, false);
}

// ---- damage ------------------------------------------------------------------------------------------------------------------
static void damage(Ctx& c) {
    static std::map<int, std::pair<string, string>> memo; int which = c.choose(3, "file"), lib = c.choose(2, "library"); Form f = form(which == 0 ? 0 : which == 1 ? 3 : 12); Board b = rich(f.version == 2); if (!memo.count(which)) { Writer w(f); string x = w.board(b); Writer v(f); memo[which] = {x, v.library(b)}; }
    string bt = memo[which].first, lt = memo[which].second, &t = lib ? lt : bt; vector<string> lines; { std::stringstream ss(t); string l; while (std::getline(ss, l)) lines.push_back(l); }
    int ln = c.choose((int)lines.size(), "line"), op = c.choose(5, "damage"); string what = fmt("%s %d line %d ", lib ? "library" : "board", which, ln);
    bool unknown = false; auto join = [&] { string r; for (auto& l : lines) r += l + "\n"; return r; };
    if (op == 0) { int cut = c.choose(3, "cut"); string l = lines[ln]; lines.resize(ln); t = join() + (cut == 0 ? "" : cut == 1 ? l.substr(0, l.size() / 2) : l); what += fmt("truncated %d", cut); }
    else if (op == 1) { int k = c.choose(4, "move"); string l = lines[ln]; if (k == 0) lines.erase(lines.begin() + ln); else if (k == 1) lines.insert(lines.begin() + ln, l); else if (k == 2) { if (ln + 1 < (int)lines.size()) std::swap(lines[ln], lines[ln + 1]); } else lines.insert(lines.begin() + ln, "# a comment here"); t = join(); what += fmt("line %s", k == 0 ? "deleted" : k == 1 ? "doubled" : k == 2 ? "swapped" : "commented"); }
    else if (op == 4) { if (lib || lines[ln].compare(0, 5, which == 2 ? ".END_" : ".END_") || ln + 1 == (int)lines.size()) return; int k = c.choose(2, "unknown"); vector<string> u = k ? vector<string>{".FUTURE_SECTION ECAD", "1 2.5 \"text\"", ".END_FUTURE_SECTION"} : vector<string>{".FUTURE"}; lines.insert(lines.begin() + ln + 1, u.begin(), u.end()); t = join(); what += "unknown section"; unknown = true; }
    else {
        static const char* SUB[] = {"", "-1", "0", "x", "\"", "\"\"", ".END_PLACEMENT", ".NOTES", "nan", "1e999", "99999999999", "NOREFDES", "BOTTOM", "BOARD", "\"q r\"", "1", "360", "\xe9", "extra extra"}; vector<std::pair<size_t, size_t>> tok; const string& l = lines[ln]; for (size_t k = 0; k < l.size();) { if (l[k] == ' ') { k++; continue; } size_t z = l[k] == '"' ? l.find('"', k + 1) : l.find(' ', k); if (z == string::npos) z = l.size(); else if (l[k] == '"') z++; tok.push_back({k, z - k}); k = z; }
        if (tok.empty()) return; int ti = c.choose((int)tok.size(), "token"), si = c.choose(19, "value"); if (op == 3 && si % 3 != 0 && !c.thorough) { c.skip(); return; } string v = SUB[si]; string n = l; n.replace(tok[ti].first, tok[ti].second, op == 2 ? v : v + " " + l.substr(tok[ti].first, tok[ti].second)); lines[ln] = n; t = join(); what += fmt("token %d %s '%s'", ti, op == 2 ? "replaced by" : "preceded by", v.c_str());
    }
    c.begin(); c.state(mc::hstr(what)); Ses s{c, c.scratch, what, f}; c.site("damage"); spill(s.dir + "/in.emn", bt); spill(s.dir + "/in.emp", lt); c.say(t);
    IDF3_BOARD brd(IDF3::CAD_ELEC); bool ok; { Quiet q; ok = brd.ReadFile(s.dir + "/in.emn"); } c.transition(); c.outcome(ok ? "accepted" : "refused");
    if (!ok) {
        c.check(!brd.GetError().empty(), "damage/error", what + ": refused without an error message"); Board h = held(brd); c.check(h.name.empty() && h.drills.empty() && h.places.empty() && h.comps.empty() && h.secs.size() == 1 && h.secs[0].loops.empty() && h.secs[0].comm.empty() && brd.GetComponentsSize() == 0 && brd.GetUnit() == IDF3::UNIT_MM, "damage/leftover", what + ": a refused file leaves " + brief(h));
        Form g; Board r = rich(false); Writer w(g), v(g); spill(s.dir + "/ok.emn", w.board(r)); spill(s.dir + "/ok.emp", v.library(r)); { Quiet q; ok = brd.ReadFile(s.dir + "/ok.emn"); } if (!ok) { c.fail("damage/after", what + ": afterwards a valid file is refused: " + brd.GetError()); return; } string d = diff(visible(r), held(brd), Tol(), Tol(), Tol(), acc()); if (!d.empty()) c.fail("damage/after", what + ": afterwards a valid file reads as " + d);
        return;
    }
    if (unknown) { Form g = form(which == 0 ? 0 : which == 1 ? 3 : 12); string d = diff(visible(expectOf(b, g, false, true)), held(brd), Tol(), Tol(), Tol(), acc()); c.check(d.empty(), "damage/unknown", what + ": accepted, but " + d); }
    c.nontrivial(mc::hstr(what)); bool w; { Quiet q; w = brd.WriteFile(s.dir + "/out.emn"); } if (!w) { c.fail("damage/nowrite", what + ": accepted, but cannot be written: " + brd.GetError()); return; }
    c.say(slurp(s.dir + "/out.emn") + slurp(s.dir + "/out.emp")); IDF3_BOARD r(IDF3::CAD_ELEC); { Quiet q; ok = r.ReadFile(s.dir + "/out.emn"); } if (!ok) { c.fail("damage/reread", what + ": accepted and written, but the result is refused: " + r.GetError()); return; }
    Tol t2 = printed(false); What wh = acc(); wh.free = true; Board hb = held(brd), hr = held(r); if (hb.name.empty()) hb.name = "BOARD WITH NO NAME"; unused(hb); unused(hr); string d = diff(hb, hr, t2, t2, printed(true), wh); if (!d.empty()) c.fail("damage/reread", what + ": reads back with " + d); c.validated();
}
// ---- destinations that cannot be written ----------------------------------------------------------------------------------
static void faults(Ctx& c) {
    int k = c.choose(6, "fault"), big = c.choose(2, "big"), mm = c.choose(2, "unit"); c.begin(); string d = c.scratch; Board b = rich(false); if (big) for (int i = 0; i < 2000; i++) { b.drills.push_back({0.508, 0.254 * i, 1.27, "PTH", "BOARD", "VIA", "ECAD"}); b.comps.push_back(part(fmt("g%d", i % 300), fmt("p%d", i / 300))); }
    b.comps.erase(b.comps.begin() + 3, b.comps.end()); if (big) for (int i = 0; i < 200; i++) b.comps.push_back(part(fmt("g%d", i), "p")); Form f; Writer w(f), v(f); spill(d + "/in.emn", w.board(b)); spill(d + "/in.emp", v.library(b)); IDF3_BOARD brd(IDF3::CAD_ELEC); bool ok; { Quiet q; ok = brd.ReadFile(d + "/in.emn"); } if (!ok) { c.fail("fault/read", brd.GetError()); return; } Board before = held(brd);
    string stem = d + "/bad"; for (const char* x : {".emn", ".emp"}) { unlink((stem + x).c_str()); rmdir((stem + x).c_str()); }
    string what; if (k == 0) { stem = d + "/nodir/bad"; what = "directory missing"; } if (k == 1) { if (symlink("/dev/full", (stem + ".emn").c_str())) {} what = "board on a full device"; } if (k == 2) { if (symlink("/dev/full", (stem + ".emp").c_str())) {} what = "library on a full device"; } if (k == 3) { mkdir((stem + ".emn").c_str(), 0755); what = "board name is a directory"; } if (k == 4) { mkdir((stem + ".emp").c_str(), 0755); what = "library name is a directory"; } if (k == 5) { stem = ""; what = "empty name"; }
    if (k == 5) { char cwd[4096]; if (!getcwd(cwd, sizeof cwd) || chdir(d.c_str())) return; { Quiet q; ok = brd.WriteFile("", mm); } if (chdir(cwd)) {} } else { Quiet q; ok = brd.WriteFile(stem + ".emn", mm); } c.transition(); c.state(mc::hstr(what + fmt("%d%d", big, mm))); c.outcome(what);
    c.check(!ok, "fault/" + what, what + (big ? " (large board)" : "") + ": WriteFile reports success"); if (!ok) c.check(!brd.GetError().empty(), "fault/error", what + ": no error message"); c.nontrivial(mc::hstr(what));
    Tol z; z.len = 1e-2; string df = diff(before, held(brd), z, z, z, acc()); c.check(df.empty(), "fault/source", what + ": the board changed: " + df);
    { Quiet q; ok = brd.WriteFile(d + "/good.emn", mm); } c.check(ok, "fault/after", what + ": a later write fails"); if (ok) { Board got; Ses s{c, d, what, f}; if (parseOut(s, d + "/good", got, mm, "fault")) { Tol t = printed(!mm); Board ex = expectOf(b, f, false, true); unused(ex); df = diff(ex, got, t, printed(false), printed(true)); c.check(df.empty(), "fault/after", what + ": a later write has " + df); } c.validated(); }
}
static void explore(Ctx& c) { switch (c.choose(4, "part")) { case 0: files(c); break; case 1: edits(c); break; case 2: damage(c); break; default: faults(c); } }
MC_MAIN(explore, 3, 20)
