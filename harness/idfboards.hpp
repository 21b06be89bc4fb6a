// Boards and spellings of IDF files shared by the harnesses.
#pragma once
#include "idf.hpp"
namespace idf {
static const char* OWN[] = {"UNOWNED", "MCAD", "ECAD"}; static const char* LYR[] = {"TOP", "BOTTOM", "BOTH", "INNER", "ALL"}; static const char* STAT[] = {"UNPLACED", "PLACED", "MCAD", "ECAD"};
// ---- building blocks ----------------------------------------------------------------------------------------------------
static Loop square(double x, double y, double s) { return {{x, y, 0}, {x + s, y, 0}, {x + s, y + s, 0}, {x, y + s, 0}, {x, y, 0}}; }
static void unused(Board& b) { for (size_t i = b.comps.size(); i-- > 0;) { bool used = false; for (auto& q : b.places) if (q.geom == b.comps[i].geom && q.part == b.comps[i].part) used = true; if (!used) b.comps.erase(b.comps.begin() + i); } }    // outlines no component refers to are not written
static const int NSHAPE = 10;
static Loop shape(int i, double x, double y) {
    Loop l; switch (i) {
    case 0: return square(x, y, 10.16); case 1: return {{x, y, 0}, {x + 20.32, y, 0}, {x + 5.08, y + 10.16, 0}, {x, y, 0}};
    case 2: return {{x + 10.16, y, 0}, {x + 12.7, y, 360}};                                                                              // circle
    case 3: return {{x, y, 0}, {x + 10.16, y, 0}, {x + 10.16, y + 10.16, 180}, {x, y + 10.16, 0}, {x, y, 180}};                          // slot
    case 4: return {{x, y, 0}, {x + 10.16, y, 180}, {x, y, 180}};                                                                        // two arcs
    case 5: return {{x, y, 0}, {x + 10.16, y, 0}, {x + 10.16, y + 10.16, -90}, {x, y + 10.16, 0}, {x, y, 45}};
    case 6: return {{x, y, 0}, {x + 10.16, y, 0}, {x + 10.16, y + 10.16, 0}, {x + 5.08, y + 10.16, 0}, {x + 5.08, y + 5.08, 0}, {x, y + 5.08, 0}, {x, y, 0}};
    case 7: return {{x, y, 0}, {x + 5.08, y, 270}, {x, y, 90}};                                                                          // major and minor arc
    case 8: return {{x, y, 0}, {x + 5.08, y, 300}, {x, y, 0}};                                                                           // major arc and its chord
    case 9: return {{x, y, 0}, {x + 10.16, y, 0}, {x + 10.16, y + 0.254, 0}, {x + 0.254, y + 0.254, 0}, {x + 0.254, y + 10.16, 0}, {x, y + 10.16, 0}, {x, y, 0}};
    } return l;
}
static Loop wind(const Loop& l, bool ccw) { return circular(l) || (Writer::ccw(l) > 0) == ccw ? l : reversed(l); }
static const char* KIND[] = {"BOARD_OUTLINE", "OTHER_OUTLINE", "ROUTE_OUTLINE", "PLACE_OUTLINE", "ROUTE_KEEPOUT", "VIA_KEEPOUT", "PLACE_KEEPOUT", "PLACE_REGION"};
static Sec mk(const string& kind, const Loop& l) { Sec s; s.kind = kind; s.loops = {l}; if (kind == "BOARD_OUTLINE") s.h = 1.6002; else if (kind == "OTHER_OUTLINE") { s.h = 2.54; s.layer = "TOP"; s.name = "heat sink"; } else if (kind == "ROUTE_OUTLINE") s.layer = "ALL"; else if (kind == "PLACE_OUTLINE") { s.layer = "TOP"; s.h = 12.7; } else if (kind == "ROUTE_KEEPOUT") s.layer = "INNER"; else if (kind == "PLACE_KEEPOUT") { s.layer = "BOTTOM"; s.h = 0; } else if (kind == "PLACE_REGION") { s.layer = "BOTH"; s.name = "the group"; } return s; }
static Board base() { Board b; b.secs.push_back(mk("BOARD_OUTLINE", square(0, 0, 50.8))); return b; }
static Comp part(const string& g, const string& p, int shp = 0, const string& unit = "MM") { Comp c; c.geom = g; c.part = p; c.h = 3.81; c.unit = unit; c.loops = {wind(shape(shp, -2.54, 1.27), true)}; return c; }
static Board rich(bool v2) {
    Board b = base(); b.secs[0].loops.push_back(wind(shape(3, 20.32, 20.32), false)); b.secs[0].loops.push_back(shape(2, 5.08, 5.08)); b.secs[0].comm = {"first", "second remark"};
    for (int k = 1; k < 8; k++) b.secs.push_back(mk(KIND[k], shape(k % 2 ? 0 : 5, 2.54 * k, 1.27)));
    b.secs[3].comm = {"where parts go"}; b.drills = {{0.762, 2.54, 3.81, "PTH", "BOARD", "VIA", "ECAD"}, {3.175, 5.08, 5.08, "NPTH", "BOARD", "MTG", "MCAD"}, {1.016, -7.62, 7.62, "PTH", "U1", "PIN", "UNOWNED"}, {0.508, 1.27, 2.54, "NPTH", "J 2", "my hole", "ECAD"}}; b.dcomm = {"holes"};
    b.notes = {{1.27, 2.54, 3.81, 5.08, "a note"}}; b.ncomm = {"notes"}; b.pcomm = {"places"};
    b.comps = {part("so8", "lm358"), part("TO 220", "x y", 2, "THOU"), part("dip", "74hc00", 3)}; b.comps[0].props = {{"CAPACITANCE", "100.0"}, {"my prop", "my value"}}; b.comps[0].comm = {"an amplifier"}; b.comps[2].elec = false; b.comps[2].h = 0;
    b.places = {{"so8", "lm358", "U1", 10.16, 12.7, 0, 90, "TOP", "PLACED"}, {"TO 220", "x y", "J 2", 15.24, -2.54, 1.27, 45.5, "BOTTOM", "ECAD"}, {"dip", "74hc00", "NOREFDES", 0, 0, 0, 0, "TOP", "UNPLACED"}, {"so8", "lm358", "NOREFDES", 2.54, 0, 0, -30, "BOTTOM", "MCAD"}};
    if (v2) { b.notes.clear(); b.ncomm.clear(); for (auto& s : b.secs) { s.owner = "UNOWNED"; if (s.kind == "OTHER_OUTLINE") s.layer = "TOP"; if (s.kind == "ROUTE_OUTLINE") s.layer = "ALL"; if (s.kind == "ROUTE_KEEPOUT") s.layer = "BOTH"; if (s.kind == "PLACE_OUTLINE") { s.layer = "TOP"; s.h = 0; } } for (auto& d : b.drills) { d.plate = "PTH"; d.owner = "UNOWNED"; } for (auto& p : b.places) { p.z = 0; if (p.status == "MCAD" || p.status == "ECAD") p.status = "FIXED"; } for (auto& c : b.comps) c.props.clear(); }
    return b;
}
static const int NFORM = 17;
static Form form(int i) {
    Form f; switch (i) { case 0: break; case 1: f.unit = THOU; break; case 2: f.version = 2; f.ver = "2.0"; break; case 3: f.version = 2; f.ver = "2.0"; f.unit = THOU; break; case 4: f.version = 2; f.ver = "2.0"; f.unit = TNM; break;
    case 5: f.eol = "\r\n"; break; case 6: f.sep = "\t"; break; case 7: f.sep = "   "; f.pad = "  "; break; case 8: f.lower = true; break; case 9: f.quote = false; break; case 10: f.last = false; break; case 11: f.blank = true; break; case 12: f.order = 1; break; case 13: f.ver = "3"; break; case 14: f.ver = "3"; f.unit = THOU; f.last = false; break; case 15: f.eol = "\r\n"; f.last = false; f.order = 1; f.unit = THOU; break; case 16: f.version = 2; f.ver = "2"; f.unit = TNM; f.lower = true; f.quote = false; break; }
    return f;
}
}
