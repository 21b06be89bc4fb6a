// IDF boards and component libraries: an independent description, a generator of files and a reader of files.  Lengths in mm.
#pragma once
#include "mc.hpp"
#include <fstream>
namespace idf {
using std::string; using std::vector; using mc::fmt;
struct P { double x, y, a; };                       // end point of a segment and its included angle; the first point has angle 0
typedef vector<P> Loop;
struct Sec { string kind, owner = "UNOWNED", layer, name; double h = NAN; vector<Loop> loops; vector<string> comm; };
struct Comp { bool elec = true; string geom, part; string unit = "MM"; double h = 0; vector<Loop> loops; std::map<string, string> props; vector<string> comm; };
struct Drill { double d, x, y; string plate, ref, type, owner; };
struct Note { double x, y, h, l; string text; };
struct Place { string geom, part, ref; double x, y, z, a; string side, status; };
struct Board {
    string name = "board", source = "source", date = "2020/01/02.3:4:5", lsource = "lib", ldate = "2021/1/1.0:0:0"; int ver = 3, lver = 4;
    vector<Sec> secs; vector<Drill> drills; vector<Note> notes; vector<Place> places; vector<Comp> comps; vector<string> dcomm, ncomm, pcomm; bool hasDrills = true;
};
enum Unit { MM, THOU, TNM };
static const char* UN[] = {"MM", "THOU", "TNM"}; static const double UF[] = {1, 0.0254, 0.00001};
struct Form { int version = 3; Unit unit = MM; string ver = "3.0", eol = "\n", sep = " ", pad; bool lower = false, quote = true, last = true, blank = false; int order = 0; };

struct Writer {
    const Form& f; string s; explicit Writer(const Form& f) : f(f) {}
    string kw(string t) const { if (f.lower) for (char& c : t) c = tolower(c); return t; }
    string str(const string& t) const { bool need = t.empty() || t.find_first_of(" \t") != string::npos; return f.quote || need ? "\"" + t + "\"" : t; }
    string num(double v, Unit u) const { return fmt("%.9g", v / UF[u]); }
    void line(const vector<string>& v) { s += f.pad; for (size_t i = 0; i < v.size(); i++) s += (i ? f.sep : "") + v[i]; s += f.eol; if (f.blank) s += f.eol; }
    void comm(const vector<string>& v) { for (auto& c : v) s += "#" + string(f.pad.empty() ? " " : "") + c + f.eol; }
    void loops(const vector<Loop>& l, bool single, Unit u) { for (size_t i = 0; i < l.size(); i++) for (auto& p : l[i]) line({fmt("%d", single ? (int)(l[i].size() > 2 && ccw(l[i]) <= 0) : (int)i), num(p.x, u), num(p.y, u), fmt("%.6g", p.a)}); }
    static double ccw(const Loop& l) {      // twice the signed area: the polygon and the segments cut off by the arcs
        double s = 0; for (size_t i = 1; i < l.size(); i++) { double dx = l[i].x - l[i - 1].x, dy = l[i].y - l[i - 1].y, a = l[i].a * M_PI / 180; s += l[i - 1].x * l[i].y - l[i].x * l[i - 1].y;
            if (fabs(l[i].a) > 0.005) { double r2 = (dx * dx + dy * dy) / (2 - 2 * cos(a)); s += r2 * (a - sin(a)); } } return s;
    }
    void header(const char* type, const string& src, const string& date, int ver) { line({kw(".HEADER")}); line({kw(type), f.ver, str(src), date, fmt("%d", ver)}); }
    string board(const Board& b) {
        header("BOARD_FILE", b.source, b.date, b.ver); line({str(b.name), kw(UN[f.unit])}); line({kw(".END_HEADER")});
        for (auto& x : b.secs) if (x.kind == "BOARD_OUTLINE") sec(x);
        vector<int> parts; for (size_t i = 0; i < b.secs.size(); i++) if (b.secs[i].kind != "BOARD_OUTLINE") parts.push_back((int)i);
        parts.push_back(-1); parts.push_back(-2); if (f.order) std::reverse(parts.begin(), parts.end());
        for (int i : parts) {
            if (i >= 0) sec(b.secs[i]);
            else if (i == -1) { if (!b.hasDrills) continue; comm(b.dcomm); line({kw(".DRILLED_HOLES")}); for (auto& d : b.drills) { if (f.version == 3) line({num(d.d, f.unit), num(d.x, f.unit), num(d.y, f.unit), kw(d.plate), str(d.ref), str(d.type), kw(d.owner)}); else line({num(d.d, f.unit), num(d.x, f.unit), num(d.y, f.unit), str(d.type), str(d.ref)}); } line({kw(".END_DRILLED_HOLES")}); }
            else if (!b.notes.empty()) { comm(b.ncomm); line({kw(".NOTES")}); for (auto& n : b.notes) line({num(n.x, f.unit), num(n.y, f.unit), num(n.h, f.unit), num(n.l, f.unit), "\"" + n.text + "\""}); line({kw(".END_NOTES")}); }
        }
        if (!b.places.empty()) {
            comm(b.pcomm); line({kw(".PLACEMENT")});
            for (auto& p : b.places) { line({str(p.geom), str(p.part), str(p.ref)}); if (f.version == 3) line({num(p.x, f.unit), num(p.y, f.unit), num(p.z, f.unit), fmt("%.6g", p.a), kw(p.side), kw(p.status)}); else line({num(p.x, f.unit), num(p.y, f.unit), fmt("%.6g", p.a), kw(p.side), kw(p.status)}); }
            line({kw(".END_PLACEMENT")});
        }
        return finish();
    }
    string finish() { if (!f.last) while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back(); return s; }
    void sec(const Sec& x) {
        comm(x.comm); if (f.version == 3) line({kw("." + x.kind), kw(x.owner)}); else line({kw("." + x.kind)});
        string hh = std::isnan(x.h) ? "" : num(x.h, f.unit);
        if (x.kind == "BOARD_OUTLINE") line({hh});
        else if (x.kind == "OTHER_OUTLINE") { if (f.version == 3) line({str(x.name), hh, kw(x.layer)}); else line({str(x.name), hh}); }
        else if (x.kind == "ROUTE_KEEPOUT" || (x.kind == "ROUTE_OUTLINE" && f.version == 3)) line({kw(x.layer)});
        else if (x.kind == "PLACE_KEEPOUT" || (x.kind == "PLACE_OUTLINE" && f.version == 3)) { if (hh.empty()) line({kw(x.layer)}); else line({kw(x.layer), hh}); }
        else if (x.kind == "PLACE_REGION") line({kw(x.layer), str(x.name)});
        loops(x.loops, x.kind != "BOARD_OUTLINE" && x.kind != "OTHER_OUTLINE", f.unit); line({kw(".END_" + x.kind)});
    }
    string library(const Board& b) {
        header("LIBRARY_FILE", b.lsource, b.ldate, b.lver); line({kw(".END_HEADER")});
        for (auto& c : b.comps) {
            string k = c.elec ? "ELECTRICAL" : "MECHANICAL"; Unit u = c.unit == "MM" ? MM : c.unit == "THOU" ? THOU : TNM; comm(c.comm); line({kw("." + k)}); line({str(c.geom), str(c.part), kw(c.unit), num(c.h, u)}); loops(c.loops, true, u);
            if (c.elec && f.version == 3) for (auto& p : c.props) line({kw("PROP"), str(p.first), str(p.second)});
            line({kw(".END_" + k)});
        }
        return finish();
    }
};

struct Bad { string msg; };
struct Reader {                                     // strict: version 3 as the specification describes it
    struct Line { vector<string> t; vector<bool> q; bool comment; string raw; };
    vector<Line> L; size_t at = 0;
    explicit Reader(const string& s) {
        size_t i = 0; int n = 0; while (i < s.size()) { n++; size_t e = s.find('\n', i); if (e == string::npos) throw Bad{fmt("line %d is not terminated", n)}; string r = s.substr(i, e - i); i = e + 1; Line l; l.raw = r; l.comment = !r.empty() && r[0] == '#';
            for (unsigned char c : r) if (c < 32 || c > 126) throw Bad{fmt("line %d: character %d", n, c)};
            if (l.comment) { string t = r.substr(1); while (!t.empty() && t[0] == ' ') t.erase(0, 1); while (!t.empty() && t.back() == ' ') t.pop_back(); l.t.push_back(t); L.push_back(l); continue; }
            for (size_t k = 0; k < r.size();) { if (r[k] == ' ') { k++; continue; } string t; bool q = r[k] == '"'; if (q) { size_t z = r.find('"', k + 1); if (z == string::npos) throw Bad{"unterminated string: " + r}; t = r.substr(k + 1, z - k - 1); k = z + 1; if (k < r.size() && r[k] != ' ') throw Bad{"no space after a string: " + r}; } else { size_t z = r.find(' ', k); if (z == string::npos) z = r.size(); t = r.substr(k, z - k); if (t.find('"') != string::npos) throw Bad{"misplaced quote: " + r}; k = z; } l.t.push_back(t); l.q.push_back(q); }
            if (!l.t.empty()) L.push_back(l);
        }
    }
    const Line& next(size_t n, const char* what) { if (at >= L.size()) throw Bad{string("file ends before ") + what}; const Line& l = L[at++]; if (l.comment) throw Bad{string("comment within a section, before ") + what}; if (n && l.t.size() != n) throw Bad{fmt("%s has %d fields, not %d: %s", what, (int)l.t.size(), (int)n, l.raw.c_str())}; return l; }
    static double num(const string& t) { char* e; double v = strtod(t.c_str(), &e); if (t.empty() || *e || !std::isfinite(v) || isalpha((unsigned char)t.back())) throw Bad{"not a number: '" + t + "'"}; return v; }
    static string one(const string& t, const char* set) { if ((string(" ") + set + " ").find(" " + t + " ") == string::npos) throw Bad{"'" + t + "' is not one of " + set}; return t; }
    static int whole(const string& t) { double v = num(t); if (v != floor(v)) throw Bad{"not an integer: " + t}; return (int)v; }
    vector<string> comments() { vector<string> v; while (at < L.size() && L[at].comment) v.push_back(L[at++].t[0]); return v; }
    void header(const char* type, string& src, string& date, int& ver) { if (next(1, "header").t[0] != ".HEADER") throw Bad{"no header"}; const Line& l = next(5, "header record 2"); if (l.t[0] != type || l.t[1] != "3.0") throw Bad{"header: " + l.raw}; src = l.t[2]; date = l.t[3]; ver = whole(l.t[4]); }
    vector<Loop> loops(double f, bool single, const string& end) {
        vector<Loop> v; int cur = -1;
        for (;;) { const Line& l = next(0, end.c_str()); if (l.t[0] == end && !l.q[0] && l.t.size() == 1) break; if (l.t[0] == "PROP") { at--; break; } if (l.t.size() != 4) throw Bad{"outline point: " + l.raw}; int i = whole(l.t[0]);
            if (i != cur) { if (single ? cur != -1 || (i != 0 && i != 1) : i != cur + 1) throw Bad{"loop index: " + l.raw}; cur = i; v.push_back({}); }
            v.back().push_back({num(l.t[1]) * f, num(l.t[2]) * f, num(l.t[3])}); }
        for (size_t k = 0; k < v.size(); k++) {
            Loop& o = v[k]; if (o.size() < 2 || o[0].a != 0) throw Bad{"outline of one point or with an arc at its first point"}; bool circle = o.size() == 2 && fabs(fabs(o[1].a) - 360) < 1e-9;
            if (circle) { if (o[1].a != 360) throw Bad{"circle with angle -360"}; continue; }
            if (o.size() < 3) throw Bad{"outline of two points"}; if (o.back().x != o[0].x || o.back().y != o[0].y) throw Bad{"outline not closed"};
            for (auto& p : o) if (fabs(p.a) >= 360) throw Bad{"included angle out of range"};
            double w = Writer::ccw(o); if (single ? (w > 0) != (cur == 0) : (w > 0) != (k == 0)) throw Bad{fmt("loop %d winds the wrong way", (int)(single ? cur : k))};
        }
        return v;
    }
    void board(Board& b) {
        header("BOARD_FILE", b.source, b.date, b.ver); const Line& r3 = next(2, "header record 3"); b.name = r3.t[0]; double f = one(r3.t[1], "MM THOU") == "MM" ? 1 : 0.0254; b.hasDrills = false; if (next(1, "header end").t[0] != ".END_HEADER") throw Bad{"no end of header"};
        unit = r3.t[1]; bool placed = false;
        for (int n = 0;; n++) {
            vector<string> cm = comments(); if (at >= L.size()) { if (!cm.empty()) throw Bad{"comments at the end of the file"}; break; } if (placed) throw Bad{"a section after the placement"};
            const Line& h = next(0, "section"); string k = h.t[0]; if (n == 0 && k != ".BOARD_OUTLINE") throw Bad{"the second section is not the board outline"};
            if (k == ".DRILLED_HOLES") { if (b.hasDrills) throw Bad{"two hole sections"}; b.hasDrills = true; b.dcomm = cm; for (;;) { const Line& l = next(0, "hole"); if (l.t[0] == ".END_DRILLED_HOLES") break; if (l.t.size() != 7) throw Bad{"hole: " + l.raw}; b.drills.push_back({num(l.t[0]) * f, num(l.t[1]) * f, num(l.t[2]) * f, one(l.t[3], "PTH NPTH"), l.t[4], l.t[5], one(l.t[6], "ECAD MCAD UNOWNED")}); } continue; }
            if (k == ".NOTES") { b.ncomm = cm; for (;;) { const Line& l = next(0, "note"); if (l.t[0] == ".END_NOTES") break; if (l.t.size() != 5 || !l.q[4]) throw Bad{"note: " + l.raw}; b.notes.push_back({num(l.t[0]) * f, num(l.t[1]) * f, num(l.t[2]) * f, num(l.t[3]) * f, l.t[4]}); } continue; }
            if (k == ".PLACEMENT") { placed = true; b.pcomm = cm; for (;;) { const Line& l = next(0, "placement"); if (l.t[0] == ".END_PLACEMENT" && !l.q[0]) break; if (l.t.size() != 3) throw Bad{"placement record 2: " + l.raw}; const Line& m = next(6, "placement record 3"); b.places.push_back({l.t[0], l.t[1], l.t[2], num(m.t[0]) * f, num(m.t[1]) * f, num(m.t[2]) * f, num(m.t[3]), one(m.t[4], "TOP BOTTOM"), one(m.t[5], "PLACED UNPLACED ECAD MCAD")}); } continue; }
            Sec x; x.kind = k.substr(1); if (h.t.size() != 2) throw Bad{"section line: " + h.raw}; x.owner = one(h.t[1], "ECAD MCAD UNOWNED"); x.comm = cm;
            one(x.kind, "BOARD_OUTLINE OTHER_OUTLINE ROUTE_OUTLINE PLACE_OUTLINE ROUTE_KEEPOUT VIA_KEEPOUT PLACE_KEEPOUT PLACE_REGION"); if ((n == 0) != (x.kind == "BOARD_OUTLINE")) throw Bad{"two board outlines"};
            if (x.kind == "BOARD_OUTLINE") x.h = num(next(1, "thickness").t[0]) * f;
            else if (x.kind == "OTHER_OUTLINE") { const Line& l = next(3, "outline record 2"); x.name = l.t[0]; x.h = num(l.t[1]) * f; x.layer = one(l.t[2], "TOP BOTTOM"); }
            else if (x.kind == "ROUTE_OUTLINE" || x.kind == "ROUTE_KEEPOUT") x.layer = one(next(1, "layers").t[0], "TOP BOTTOM BOTH INNER ALL");
            else if (x.kind == "PLACE_OUTLINE" || x.kind == "PLACE_KEEPOUT") { const Line& l = next(0, "side"); x.layer = one(l.t[0], "TOP BOTTOM BOTH"); if (l.t.size() == 2) x.h = num(l.t[1]) * f; else if (l.t.size() > 2 || x.kind == "PLACE_KEEPOUT") throw Bad{"height: " + l.raw}; if (x.h < 0) throw Bad{"negative height: " + l.raw}; }
            else if (x.kind == "PLACE_REGION") { const Line& l = next(2, "side and group"); x.layer = one(l.t[0], "TOP BOTTOM BOTH"); x.name = l.t[1]; }
            x.loops = loops(f, x.kind != "BOARD_OUTLINE" && x.kind != "OTHER_OUTLINE", ".END_" + x.kind); b.secs.push_back(x);
        }
    }
    void library(Board& b) {
        header("LIBRARY_FILE", b.lsource, b.ldate, b.lver); if (next(1, "header end").t[0] != ".END_HEADER") throw Bad{"no end of header"};
        for (;;) {
            vector<string> cm = comments(); if (at >= L.size()) { if (!cm.empty()) throw Bad{"comments at the end of the file"}; break; }
            Comp c; c.comm = cm; const Line& h = next(1, "component"); c.elec = one(h.t[0], ".ELECTRICAL .MECHANICAL") == ".ELECTRICAL"; const Line& l = next(4, "component record 2"); c.geom = l.t[0]; c.part = l.t[1]; c.unit = one(l.t[2], "MM THOU"); double f = c.unit == "MM" ? 1 : 0.0254; c.h = num(l.t[3]) * f;
            string end = c.elec ? ".END_ELECTRICAL" : ".END_MECHANICAL"; c.loops = loops(f, true, end);
            while (at < L.size() && L[at].t[0] == "PROP") { const Line& p = next(3, "property"); if (!c.props.insert({p.t[1], p.t[2]}).second) throw Bad{"property twice"}; if (at < L.size() && L[at].t[0] != "PROP" && next(1, "component end").t[0] != end) throw Bad{"no " + end}; }
            b.comps.push_back(c);
        }
    }
    string unit;
};

// ---- comparison ---------------------------------------------------------------------------------------------------
struct Tol { double len = 1e-7, dia = 1e-7, z = 1e-7, ang = 1e-7; };
inline Tol printed(bool thou) { Tol t; t.len = thou ? 0.0254 * 0.05 + 1e-9 : 0.5e-5 + 1e-9; t.dia = thou ? t.len : 0.5e-3 + 1e-9; t.z = thou ? t.len : 0.5e-3 + 1e-9; t.ang = 0.5e-3 + 1e-9; return t; }
inline bool near(double a, double b, double e) { return (std::isnan(a) && std::isnan(b)) || fabs(a - b) <= e * 1.0000001; }
inline bool circular(const Loop& l) { return l.size() == 2 && fabs(fabs(l[1].a) - 360) < 0.01; }
inline bool sameLoop(const Loop& a, const Loop& b, const Tol& t) { if (a.size() != b.size()) return false; bool c = circular(a) && circular(b); for (size_t i = 0; i < a.size(); i++) if (!near(a[i].x, b[i].x, t.len) || !near(a[i].y, b[i].y, t.len) || (!c && !near(a[i].a, b[i].a, t.ang))) return false; return true; }
inline Loop reversed(const Loop& a) { Loop r; for (size_t i = a.size(); i-- > 0;) r.push_back({a[i].x, a[i].y, i + 1 < a.size() ? -a[i + 1].a : 0}); return r; }
inline Loop rotated(const Loop& a, size_t k) { Loop r; size_t n = a.size() - 1; for (size_t i = 0; i <= n; i++) { P p = a[(i + k) % n == 0 ? (i ? n : 0) : (i + k) % n]; if (!i) p.a = 0; r.push_back(p); } return r; }
inline bool sameCurve(const Loop& a, const Loop& b, const Tol& t) { if (sameLoop(a, b, t)) return true; if (circular(a)) return false; for (const Loop& c : {a, reversed(a)}) for (size_t k = 0; k + 1 < c.size(); k++) if (sameLoop(rotated(c, k), b, t)) return true; return false; }
inline string show(const Loop& l) { string s; for (auto& p : l) s += fmt("(%.9g %.9g %.9g)", p.x, p.y, p.a); return s; }
inline string cs(const vector<string>& v) { string s; for (auto& x : v) s += "[" + x + "]"; return s; }
template <class T> string pairUp(const char* what, vector<T> a, vector<T> b, const std::function<string(const T&, const T&)>& diff) {     // as multisets; "" or a difference
    if (a.size() != b.size()) return fmt("%d %ss instead of %d", (int)b.size(), what, (int)a.size());
    for (auto& x : a) { string first; bool hit = false; for (size_t i = 0; i < b.size(); i++) { string d = diff(x, b[i]); if (d.empty()) { b.erase(b.begin() + i); hit = true; break; } if (first.empty()) first = d; } if (!hit) return string(what) + ": " + first; } return "";
}
inline string diffLoops(const vector<Loop>& a, const vector<Loop>& b, const Tol& t, bool free) { if (a.size() != b.size()) return fmt("%d loops instead of %d", (int)b.size(), (int)a.size()); for (size_t i = 0; i < a.size(); i++) if (!(free ? sameCurve(a[i], b[i], t) : sameLoop(a[i], b[i], t))) return fmt("loop %d is ", (int)i) + show(b[i]) + " instead of " + show(a[i]); return ""; }
inline string field(const char* n, const string& a, const string& b) { return a == b ? "" : string(n) + " is '" + b + "' instead of '" + a + "'"; }
inline string fieldn(const char* n, double a, double b, double e) { return near(a, b, e) ? "" : fmt("%s is %.9g instead of %.9g", n, b, a); }
#define IDF_TRY(x) { string z_ = (x); if (!z_.empty()) return z_; }
inline string diffSec(const Sec& a, const Sec& b, const Tol& t, bool free) { string k = a.kind + ": "; IDF_TRY(field("kind", a.kind, b.kind)); string r = field("owner", a.owner, b.owner); if (r.empty()) r = field("layers", a.layer, b.layer); if (r.empty()) r = field("name", a.name, b.name); if (r.empty()) r = fieldn("height", a.h, b.h, t.len); if (r.empty()) r = field("comments", cs(a.comm), cs(b.comm)); if (r.empty()) r = diffLoops(a.loops, b.loops, t, free); return r.empty() ? r : k + r; }
inline string diffDrill(const Drill& a, const Drill& b, const Tol& t) { IDF_TRY(fieldn("diameter", a.d, b.d, t.dia)); IDF_TRY(fieldn("x", a.x, b.x, t.len)); IDF_TRY(fieldn("y", a.y, b.y, t.len)); IDF_TRY(field("plating", a.plate, b.plate)); IDF_TRY(field("reference", a.ref, b.ref)); IDF_TRY(field("type", a.type, b.type)); return field("owner", a.owner, b.owner); }
inline string diffNote(const Note& a, const Note& b, const Tol& t) { IDF_TRY(field("text", a.text, b.text)); IDF_TRY(fieldn("x", a.x, b.x, t.len)); IDF_TRY(fieldn("y", a.y, b.y, t.len)); IDF_TRY(fieldn("height", a.h, b.h, t.len)); return fieldn("length", a.l, b.l, t.len); }
inline string diffPlace(const Place& a, const Place& b, const Tol& t) { IDF_TRY(field("reference", a.ref, b.ref)); IDF_TRY(field("geometry", a.geom, b.geom)); IDF_TRY(field("part", a.part, b.part)); IDF_TRY(fieldn("x", a.x, b.x, t.len)); IDF_TRY(fieldn("y", a.y, b.y, t.len)); IDF_TRY(fieldn("z", a.z, b.z, t.z)); IDF_TRY(fieldn("angle", a.a, b.a, t.ang)); IDF_TRY(field("side", a.side, b.side)); return field("status", a.status, b.status); }
inline string ps(const std::map<string, string>& m) { string s; for (auto& p : m) s += "[" + p.first + "=" + p.second + "]"; return s; }
inline string diffComp(const Comp& a, const Comp& b, const Tol& tm, const Tol& tt, bool free, bool props) { const Tol& t = b.unit == "THOU" ? tt : tm; IDF_TRY(field("geometry", a.geom, b.geom)); IDF_TRY(field("part", a.part, b.part)); IDF_TRY(field("class", a.elec ? "electrical" : "mechanical", b.elec ? "electrical" : "mechanical")); IDF_TRY(fieldn("height", a.h, b.h, t.len)); IDF_TRY(field("comments", cs(a.comm), cs(b.comm))); if (props) IDF_TRY(field("properties", ps(a.props), ps(b.props))); return diffLoops(a.loops, b.loops, t, free); }
struct What { bool secs = true, comments = true, props = true, free = false, units = false; };
inline string diff(const Board& a, const Board& b, const Tol& t, const Tol& tm, const Tol& tt, What w = What()) {
    IDF_TRY(field("board name", a.name, b.name));
    IDF_TRY(pairUp<Sec>("section", a.secs, b.secs, [&](const Sec& x, const Sec& y) { return diffSec(x, y, t, w.free); }));
    IDF_TRY(pairUp<Drill>("hole", a.drills, b.drills, [&](const Drill& x, const Drill& y) { return diffDrill(x, y, t); }));
    IDF_TRY(pairUp<Place>("placement", a.places, b.places, [&](const Place& x, const Place& y) { return diffPlace(x, y, t); }));
    IDF_TRY(pairUp<Comp>("component", a.comps, b.comps, [&](const Comp& x, const Comp& y) { return diffComp(x, y, tm, tt, w.free, w.props); }));
    if (w.secs) { IDF_TRY(pairUp<Note>("note", a.notes, b.notes, [&](const Note& x, const Note& y) { return diffNote(x, y, t); }));
        IDF_TRY(field("hole comments", cs(a.dcomm), cs(b.dcomm))); IDF_TRY(field("note comments", cs(a.ncomm), cs(b.ncomm))); IDF_TRY(field("placement comments", cs(a.pcomm), cs(b.pcomm))); }
    return "";
}
}
