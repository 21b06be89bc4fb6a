// Independent oracle for IGES 5.3 fixed-format files: a plain description of a file (Model), a writer of
// legal files in many spellings (synth), and a strict reader (parse).  Uses nothing of the library.
#pragma once
#include "mc.hpp"
#include <fstream>
namespace igs {
using std::string; using std::vector; using mc::fmt;

// k: I integer, R dimensionless real, L length real, S text, P pointer (i = entity index, -1 = null),
//    N negated pointer, D defaulted (empty) item
struct Tok { char k; long i; double r; string s; };
inline Tok I(long v) { return {'I', v, 0, ""}; }
inline Tok R(double v) { return {'R', 0, v, ""}; }
inline Tok L(double v) { return {'L', 0, v, ""}; }
inline Tok Q(double v) { return {'Q', 0, v, ""}; }   // square of a length
inline Tok S(const string& v) { return {'S', 0, 0, v}; }
inline Tok P(int e) { return {'P', e, 0, ""}; }
inline Tok N(int e) { return {'N', e, 0, ""}; }
inline Tok D() { return {'D', 0, 0, ""}; }
struct Attr { bool ptr = false; int v = 0; Attr() {} Attr(int n) : v(n) {} static Attr p(int e) { Attr a; a.ptr = true; a.v = e; return a; } };
struct Ent {
    int type = 0, form = 0;
    Attr font, level, color; int view = -1, trans = -1, lassoc = -1; // entity index or -1
    int blank = 0, dep = 0, use = 0, hier = 0, weight = 0, sub = 0; string label;
    vector<Tok> pd; vector<int> assoc, props; vector<string> comm;
    Ent() {} Ent(int t, int f = 0) : type(t), form(f) {}
};
struct Glob {
    char pd = ',', rd = ';';
    string ssid = "prodSS", fname = "x.igs", native = "nat sys", prever = "gen 1.0"; int ib = 32, fe = 38, fs = 6, de = 308, ds = 15;
    string rsid = "prodRS"; double scale = 1; int units = 2; string uname = "MM"; int lwg = 1; double lw = 0.1;
    string created = "20200102.030405"; double res = 1e-8; double maxc = 0; string author = "au", org = "og"; int ver = 11, std = 0;
    string modified = "20200102.030406", note = "";
};
struct Model { vector<string> start{"start line"}; Glob g; vector<Ent> e; };

inline const char* unitName(int u) { static const char* n[] = {"", "IN", "MM", "", "FT", "MI", "M", "KM", "MIL", "UM", "CM", "UIN"}; return n[u]; }
inline double unitMM(int u) { static const double n[] = {0, 25.4, 1, 1, 304.8, 1609344., 1000., 1e6, .0254, .001, 10., 2.54e-5}; return n[u]; }

// ---- spelling options for synth
struct Spell {
    bool explicitDelim = false;  // 1H,,1H;, instead of defaults
    int real = 0;                // 0 %.17g; 1 always exponent E; 2 exponent D; 3 leading +; 4 lower-case e; 5 no leading zero / trailing dot
    int wrap = 0;                // 0 fill lines; 1 one item per line; 2 blank before every item; 3 strings broken wherever the line ends, items start late in the line; 4 two items per line
    bool blankDefaults = false;  // omit items that equal their default
    bool trailing = false;       // omit trailing default globals (end record early)
    string eol = "\n";
    bool dePad = false;          // left-justify? (illegal) - unused
    bool blankZero = false;      // DE zero fields left blank
    bool extras = false;         // write explicit 0,0 association/property counts
    unsigned long defG = 0;      // bit n: default global field n (only where legal)
    int ints = 0;                // 1 leading +, 2 leading zeros
    bool statBlank = false;      // status number with leading blanks
    bool seqZero = false;        // sequence numbers, pointers and counts zero filled
    bool noLastEol = false;      // no line terminator at the end of the file
    int padRec = -2, padItem = 0, padCol = 0;   // start item padItem of record padRec (-1 global, else entity) at column padCol
    bool cutG = false;           // stop the global record after the last non-default field
};

inline string realStr(double v, int style) {
    string s;
    if (style == 1 || style == 2 || style == 4) { s = fmt("%.16e", v); size_t p = s.find('e'); s[p] = style == 1 ? 'E' : style == 2 ? 'D' : 'e'; return s; }
    for (int p = 1; p <= 17; p++) { s = fmt("%.*g", p, v); if (strtod(s.c_str(), 0) == v) break; }
    size_t e = s.find('e');
    if (e != string::npos) { s[e] = 'E'; if (s.find('.') == string::npos) s.insert(e, "."); }
    else if (s.find('.') == string::npos) s += style == 5 ? "." : ".0";
    if (style == 3 && v >= 0) s = "+" + s;
    if (style == 5) { if (s.compare(0, 2, "0.") == 0 && s.size() > 2) s = s.substr(1); else if (s.compare(0, 3, "-0.") == 0 && s.size() > 3) s = "-" + s.substr(2); }
    return s;
}

// lays items out on lines of w columns
struct Layout {
    int w; vector<string> lines; string cur; const Spell& sp; int nOnLine = 0;
    Layout(int w_, const Spell& s) : w(w_), sp(s) {}
    void flush() { cur.append(w - cur.size(), ' '); lines.push_back(cur); cur.clear(); nOnLine = 0; }
    int padItem = -1, padCol = 0, at = 0;
    void item(const string& text, char delim, bool str, int head) {   // head: columns that may not be split (count + H)
        string t = text + delim;
        bool fixedPos = w == 72 && at < 2;   // the delimiters open the global section without blanks
        if (!fixedPos && !cur.empty() && (sp.wrap == 1 || (sp.wrap == 4 && nOnLine >= 2))) flush();
        if (at++ == padItem) { if (cur.size() > (size_t)padCol) flush(); cur.append(padCol - cur.size(), ' '); }
        if (sp.wrap == 2 && !fixedPos && cur.size() < (size_t)w) cur += ' ';
        if (!str) {
            if (cur.size() + t.size() > (size_t)w) flush();
            cur += t;
        } else {
            if (cur.size() + head > (size_t)w) flush();
            size_t i = 0;
            while (i < t.size()) { size_t n = std::min((size_t)w - cur.size(), t.size() - i); if (n == 0) { flush(); continue; } cur += t.substr(i, n); i += n; }
        }
        nOnLine++;
    }
};
inline string hs(const string& s) { return s.empty() ? "" : fmt("%zuH", s.size()) + s; }
inline string sec(const string& body, char c, int n, bool z = false) { return body + c + fmt(z ? "%07d" : "%7d", n); }
inline string intStr(long v, int style) { return style == 1 && v >= 0 ? fmt("+%ld", v) : style == 2 ? fmt("%s%03ld", v < 0 ? "-" : "", labs(v)) : fmt("%ld", v); }

inline int de(int idx) { return 2 * idx + 1; }
inline string synth(const Model& m, const Spell& sp = Spell()) {
    string out; char pd = m.g.pd, rd = m.g.rd; int n = 0;
    auto put = [&](const string& l) { out += l + sp.eol; };
    for (auto s : m.start) { s.resize(72, ' '); put(sec(s, 'S', ++n, sp.seqZero)); }
    int nS = n; n = 0;
    const Glob& g = m.g; Layout G(72, sp); if (sp.padRec == -1) { G.padItem = sp.padItem; G.padCol = sp.padCol; }
    struct F { string t; bool str; bool isDef; };
    vector<F> f;
    auto fs = [&](const string& s, bool def = false) { f.push_back({hs(s), true, def}); };
    auto fi = [&](long v, bool def = false) { f.push_back({intStr(v, sp.ints), false, def}); };
    auto fr = [&](double v, bool def = false) { f.push_back({realStr(v, sp.real), false, def}); };
    f.push_back({(pd == ',' && !sp.explicitDelim) ? string() : string("1H") + pd, true, pd == ','});
    f.push_back({(rd == ';' && !sp.explicitDelim) ? string() : string("1H") + rd, true, rd == ';'});
    fs(g.ssid); fs(g.fname); fs(g.native); fs(g.prever); fi(g.ib); fi(g.fe); fi(g.fs); fi(g.de); fi(g.ds);
    fs(g.rsid, g.rsid == g.ssid); fr(g.scale, g.scale == 1); fi(g.units, g.units == 1); fs(g.uname, g.units != 3); fi(g.lwg, g.lwg == 1); fr(g.lw);
    fs(g.created); fr(g.res); fr(g.maxc, g.maxc == 0); fs(g.author, g.author.empty()); fs(g.org, g.org.empty()); fi(g.ver, g.ver == 11 || g.ver == 3); fi(g.std, g.std == 0);
    fs(g.modified, g.modified.empty()); fs(g.note, g.note.empty());
    size_t last = f.size() - 1;
    for (size_t i = 0; i < f.size(); i++) if ((sp.defG >> i) & 1) { if (!f[i].isDef) throw mc::Prune(); f[i].t.clear(); }
    if (sp.cutG) while (f[last].t.empty() || (((sp.defG >> last) & 1))) last--;
    for (size_t i = 0; i <= last; i++) {
        string t = f[i].t; size_t h = t.find('H');
        G.item(t, i == last ? rd : pd, f[i].str && !t.empty(), f[i].str && !t.empty() ? (int)h + 1 : 0);
    }
    if (!G.cur.empty()) G.flush();
    for (auto& l : G.lines) put(sec(l, 'G', ++n, sp.seqZero));
    int nG = n;
    // parameter data first (line counts)
    vector<vector<string>> pls; 
    for (size_t k = 0; k < m.e.size(); k++) {
        const Ent& e = m.e[k]; Layout Q(64, sp); if (sp.padRec == (int)k) { Q.padItem = sp.padItem; Q.padCol = sp.padCol; }
        vector<Tok> t = e.pd;
        if (!e.assoc.empty() || !e.props.empty() || sp.extras) {
            t.push_back(I(e.assoc.size())); for (int a : e.assoc) t.push_back(P(a));
            t.push_back(I(e.props.size())); for (int a : e.props) t.push_back(P(a));
        }
        if (t.empty() && e.type == 0) { pls.push_back({}); continue; }
        t.insert(t.begin(), I(e.type));
        for (size_t i = 0; i < t.size(); i++) {
            string s; bool str = false; int head = 0;
            switch (t[i].k) {
            case 'I': s = i ? intStr(t[i].i, sp.ints) : fmt("%ld", t[i].i); break;
            case 'R': case 'L': case 'Q': s = realStr(t[i].r, sp.real); break;
            case 'S': s = hs(t[i].s); str = !s.empty(); head = s.find('H') + 1; break;
            case 'P': s = fmt("%d", t[i].i < 0 ? 0 : de(t[i].i)); break;
            case 'N': s = fmt("%d", -de(t[i].i)); break;
            case 'D': break;
            case 'X': s = t[i].s; break;   // raw text
            }
            if (sp.wrap == 1 && i == 1 && false) {}
            Q.item(s, i + 1 == t.size() ? rd : pd, str, head);
        }
        if (!Q.cur.empty()) Q.flush();
        for (auto c : e.comm) { c.resize(64, ' '); Q.lines.push_back(c); }
        pls.push_back(Q.lines);
    }
    int p = 1; n = 0;
    auto fld = [&](long v, bool zeroOk = true) { return (v == 0 && zeroOk && sp.blankZero) ? string(8, ' ') : fmt("%8ld", v); };
    for (size_t k = 0; k < m.e.size(); k++) {
        const Ent& e = m.e[k]; auto at = [&](const Attr& a) { return fld(a.ptr ? -de(a.v) : a.v); };
        auto pp = [&](int i) { return fld(i < 0 ? 0 : de(i)); };
        string l1 = fld(e.type, false) + fld(pls[k].empty() ? 0 : p, false) + fld(0) + at(e.font) + at(e.level) + pp(e.view) + pp(e.trans) + pp(e.lassoc) + (sp.statBlank ? fmt("%8d", e.blank * 1000000 + e.dep * 10000 + e.use * 100 + e.hier) : fmt("%02d%02d%02d%02d", e.blank, e.dep, e.use, e.hier));
        string lab = e.label; lab = string(8 - lab.size(), ' ') + lab;
        string l2 = fld(e.type, false) + fld(e.weight, false) + at(e.color) + fld(pls[k].size(), false) + fld(e.form) + string(16, ' ') + lab + fld(e.sub);
        put(sec(l1, 'D', ++n, sp.seqZero)); put(sec(l2, 'D', ++n, sp.seqZero)); p += pls[k].size();
    }
    int nD = n; n = 0;
    for (size_t k = 0; k < m.e.size(); k++) for (auto& l : pls[k]) put(sec(l + fmt(sp.seqZero ? " %07d" : "%8d", de(k)), 'P', ++n, sp.seqZero));
    put(sec(fmt(sp.seqZero ? "S%07dG%07dD%07dP%07d" : "S%7dG%7dD%7dP%7d", nS, nG, nD, n) + string(40, ' '), 'T', 1, sp.seqZero));
    if (sp.noLastEol) out.resize(out.size() - sp.eol.size());
    return out;
}

// ---- strict reader
struct PTok { string raw; bool str = false; bool empty = false; };
struct PEnt { int de[20]; string label; vector<PTok> pd; vector<string> comm; int lines = 0; };
struct File { vector<string> start; vector<PTok> g; vector<PEnt> e; char pd, rd; };
struct Bad { string key, msg; };
inline void bad(const string& key, const string& msg) { throw Bad{key, msg}; }

inline bool intField(const string& f, long& v) {   // right-justified integer field or blank
    size_t i = f.find_first_not_of(' ');
    if (i == string::npos) { v = 0; return true; }
    char* e; errno = 0; v = strtol(f.c_str() + i, &e, 10);
    return *e == 0 && !errno && f.back() != ' ';
}
inline bool legalInt(const string& s) { size_t i = (s[0] == '+' || s[0] == '-') ? 1 : 0; if (i >= s.size()) return false; for (; i < s.size(); i++) if (!isdigit((unsigned char)s[i])) return false; return true; }
inline bool legalReal(const string& s) {
    size_t i = 0, d = 0; bool dot = false, ex = false;
    if (s[i] == '+' || s[i] == '-') i++;
    for (; i < s.size(); i++) { if (isdigit((unsigned char)s[i])) d++; else if (s[i] == '.' && !dot) dot = true; else break; }
    if (!d) return false;
    if (i < s.size()) { if (s[i] != 'E' && s[i] != 'D') return false; ex = true; i++; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++; if (i >= s.size()) return false; for (; i < s.size(); i++) if (!isdigit((unsigned char)s[i])) return false; }
    return dot || ex;
}
inline double realVal(string s) { for (auto& c : s) if (c == 'D') c = 'E'; return strtod(s.c_str(), 0); }

// items of one record laid on lines of w columns; returns column after the record delimiter
inline size_t items(const string& data, int w, char pd, char rd, vector<PTok>& out, const string& where, bool globals = false) {
    size_t i = 0;
    for (;;) {
        while (i < data.size() && data[i] == ' ') i++;
        if (i >= data.size()) bad("record-not-terminated", where + ": no record delimiter");
        PTok t; size_t j = i;
        while (j < data.size() && isdigit((unsigned char)data[j])) j++;
        if (j > i && j < data.size() && data[j] == 'H') {
            long n = atol(data.substr(i, j - i).c_str());
            if (i / w != j / w) bad("split-count", where + ": count of a string broken across lines");
            if (n < 1 || j + 1 + n >= data.size() + 1) bad("string-overrun", where + ": string longer than the record");
            t.str = true; t.raw = data.substr(j + 1, n); i = j + 1 + n;
            // a delimiter must follow directly
            if (i >= data.size() || (data[i] != pd && data[i] != rd)) bad("string-count", where + ": string '" + t.raw + "' is not followed by a delimiter");
        } else {
            size_t st = i;
            while (i < data.size() && data[i] != pd && data[i] != rd) i++;
            if (i >= data.size()) bad("record-not-terminated", where + ": no record delimiter after '" + data.substr(st) + "'");
            t.raw = data.substr(st, i - st);
            if (st / w != i / w) bad("split-item", where + ": item '" + t.raw + "' broken across lines");
            while (!t.raw.empty() && t.raw.back() == ' ') t.raw.pop_back();
            if (t.raw.find(' ') != string::npos) bad("blank-in-item", where + ": item '" + t.raw + "' contains blanks");
            t.empty = t.raw.empty();
        }
        out.push_back(t);
        if (data[i] == rd) return i + 1;
        i++;
    }
}

inline File parse(const string& bytes) {
    File F; F.pd = ','; F.rd = ';';
    vector<string> L; size_t a = 0;
    while (a < bytes.size()) { size_t b = bytes.find('\n', a); if (b == string::npos) bad("no-newline", "last line has no terminator"); L.push_back(bytes.substr(a, b - a)); a = b + 1; }
    const string order = "SGDPT"; int o = 0; int cnt[5] = {0, 0, 0, 0, 0};
    vector<string> G, Dl, Pl; string T;
    for (size_t k = 0; k < L.size(); k++) {
        const string& l = L[k]; string at = fmt("line %zu '%s'", k + 1, l.c_str());
        if (l.size() != 80) bad("line-length", at + fmt(" has %zu columns", l.size()));
        for (unsigned char ch : l) if (ch < 32 || ch > 126) bad("line-chars", at + " holds a control character");
        size_t s = order.find(l[72]); if (s == string::npos) bad("section-letter", at);
        if ((int)s < o) bad("section-order", at); o = s;
        long seq; if (!intField(l.substr(73), seq) || seq != ++cnt[s]) bad(string("sequence-") + l[72], at + fmt(" should have sequence %d", cnt[s]));
        string body = l.substr(0, 72);
        if (s == 0) F.start.push_back(body); else if (s == 1) G.push_back(body); else if (s == 2) Dl.push_back(body); else if (s == 3) Pl.push_back(body); else T = body;
    }
    if (cnt[4] != 1 || !cnt[0] || !cnt[1] || !cnt[2] || cnt[2] % 2) bad("sections", fmt("sections have %d %d %d %d %d lines", cnt[0], cnt[1], cnt[2], cnt[3], cnt[4]));
    for (int i = 0; i < 4; i++) { long v; if (T[8 * i] != order[i] || !intField(T.substr(8 * i + 1, 7), v) || v != cnt[i]) bad("terminate-counts", "'" + T + fmt("' but section %c has %d lines", order[i], cnt[i])); }
    if (T.substr(32).find_first_not_of(' ') != string::npos) bad("terminate-tail", T);
    string gd; for (auto& g : G) gd += g;
    size_t i = 0;
    if (gd[0] != ',') { if (gd.compare(0, 2, "1H") || gd[3] != gd[2]) bad("global-delims", gd); F.pd = gd[2]; i = 4; } else i = 1;
    if (gd[i] != F.pd) { if (gd.compare(i, 2, "1H") || gd[i + 3] != F.pd) bad("global-delims", gd); F.rd = gd[i + 2]; i += 4; } else i++;
    { string pre(i, ' '); size_t e = items(pre + gd.substr(i), 72, F.pd, F.rd, F.g, "global section"); if (gd.find_first_not_of(' ', e) != string::npos) bad("global-tail", gd.substr(e)); if (gd.size() - e >= 72) bad("global-empty-line", "blank global line"); }
    int nE = Dl.size() / 2; size_t pl = 0;
    for (int k = 0; k < nE; k++) {
        PEnt E; string a1 = Dl[2 * k], a2 = Dl[2 * k + 1]; string where = fmt("entity %d (DE %d)", k, de(k));
        for (int q = 0; q < 18; q++) {
            string fl = (q < 9 ? a1 : a2).substr((q % 9) * 8, 8); long v = 0;
            if (q == 14 || q == 15) { if (fl != "        ") bad("de-reserved", where + " reserved field holds '" + fl + "'"); }
            else if (q == 16) { E.label = fl; }
            else if (!intField(fl, v)) bad("de-field", where + fmt(" field %d holds '%s'", q + 1, fl.c_str()));
            E.de[q] = (int)v;
        }
        string lab = E.label; size_t b = lab.find_first_not_of(' '); E.label = b == string::npos ? "" : lab.substr(b, lab.find_last_not_of(' ') - b + 1);
        if (E.de[0] != E.de[9]) bad("de-type", where + " type differs between lines");
        E.lines = E.de[12];
        if (E.de[1] != (int)pl + 1) bad("pd-pointer", where + fmt(" points to parameter line %d, its data starts at %zu", E.de[1], pl + 1));
        if (E.lines < 1 || pl + E.lines > Pl.size()) bad("pd-count", where + fmt(" claims %d parameter lines", E.lines));
        string data; 
        for (int q = 0; q < E.lines; q++) {
            const string& l = Pl[pl + q]; long v;
            if (!intField(l.substr(64, 8), v) || v != de(k)) bad("pd-back-pointer", where + " parameter line " + fmt("%zu", pl + q + 1) + " points back to '" + l.substr(64, 8) + "'");
            data += l.substr(0, 64);
        }
        size_t e = items(data, 64, F.pd, F.rd, E.pd, where + fmt(" type %d", E.de[0]));
        size_t used = (e + 63) / 64;
        if (data.substr(e, used * 64 - e).find_first_not_of(' ') != string::npos) bad("pd-tail", where + " text after the record: " + data.substr(e));
        for (size_t q = used; q < (size_t)E.lines; q++) E.comm.push_back(data.substr(q * 64, 64));
        if (E.pd.empty() || E.pd[0].raw != fmt("%d", E.de[0])) bad("pd-type", where + " parameter data starts with " + E.pd[0].raw);
        E.pd.erase(E.pd.begin());
        pl += E.lines; F.e.push_back(E);
    }
    if (pl != Pl.size()) bad("pd-orphan-lines", fmt("%zu parameter lines, entities own %zu", Pl.size(), pl));
    return F;
}

// ---- comparison of a parsed file with what it must say
inline string trim(string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
inline bool close(double a, double b, double res) { return fabs(a - b) <= std::max(res * 1.0000001, 1e-13 * std::max(fabs(a), fabs(b))); }
inline string cmpTok(const Tok& x, const PTok& y, double cf, double res) {
    switch (x.k) {
    case 'I': if (y.empty) return x.i == 0 ? "" : fmt("default instead of %ld", x.i); if (y.str || !legalInt(y.raw) || atol(y.raw.c_str()) != x.i) return fmt("'%s' instead of integer %ld", y.raw.c_str(), x.i); return "";
    case 'P': case 'N': { long w = x.i < 0 ? 0 : de(x.i); if (x.k == 'N') w = -w; if (y.empty) return w == 0 ? "" : fmt("default instead of pointer %ld", w); if (y.str || !legalInt(y.raw) || atol(y.raw.c_str()) != w) return fmt("'%s' instead of pointer %ld", y.raw.c_str(), w); return ""; }
    case 'R': case 'L': case 'Q': { double w = x.k == 'L' ? x.r * cf : x.k == 'Q' ? x.r * cf * cf : x.r; if (y.empty) return fabs(w) <= res ? "" : fmt("default instead of %.17g", w); if (y.str || !legalReal(y.raw)) return fmt("'%s' is not a real (expected %.17g)", y.raw.c_str(), w); if (!close(realVal(y.raw), w, res)) return fmt("%s instead of %.17g", y.raw.c_str(), w); return ""; }
    case 'S': if (x.s.empty() ? !y.empty : (!y.str || y.raw != x.s)) return fmt("%s'%s' instead of text '%s'", y.str ? "text " : "", y.raw.c_str(), x.s.c_str()); return "";
    case 'A': if (y.empty || y.str || !(legalInt(y.raw) || legalReal(y.raw))) return fmt("'%s' is not a number", y.raw.c_str()); return "";
    case 'D': return y.empty ? "" : fmt("'%s' instead of a default", y.raw.c_str());
    }
    return "?";
}
// expected globals are those of a rewritten file (units mm, scale 1 when normalise)
struct Expect { double cf = 1; int units = 2; double scale = 1; double res = 1e-8; bool unitsName = true; };
inline Expect normalised(const Model& m) {
    Expect x; x.res = m.g.res;
    x.cf = (m.g.units == 3 ? 1 : unitMM(m.g.units)) / m.g.scale; x.res = m.g.res * x.cf; x.units = m.g.units == 3 ? 3 : 2; x.scale = 1;
    return x;
}
inline void cmpStart(const Model& m, const File& f) {
    if (f.start.size() != m.start.size()) bad("start-lines", fmt("%zu start lines instead of %zu", f.start.size(), m.start.size()));
    for (size_t i = 0; i < m.start.size(); i++) if (trim(f.start[i]) != trim(m.start[i])) bad("start-text", "start line '" + f.start[i] + "' instead of '" + m.start[i] + "'");
}
inline void cmpGlob(const Model& m, const File& f, const Expect& x, const string& fname) {
    const Glob& g = m.g;
    if (f.pd != g.pd || f.rd != g.rd) bad("delimiters", fmt("delimiters %c %c instead of %c %c", f.pd, f.rd, g.pd, g.rd));
    vector<PTok> t = f.g; while (t.size() < 24) { PTok e; e.empty = true; t.push_back(e); }
    if (t.size() != 24) bad("global-count", fmt("%zu global items", t.size() + 2));
    auto ck = [&](int n, const Tok& w) { string e = cmpTok(w, t[n - 3], 1, 0); if (!e.empty()) bad(fmt("global-%d", n), fmt("global field %d: ", n) + e); };
    ck(3, S(g.ssid)); ck(4, S(fname)); ck(5, S(g.native));
    if (!t[3].str || t[3].raw.compare(0, 7, "libIGES")) bad("global-6", "preprocessor version " + t[3].raw);
    ck(7, I(32)); ck(8, I(38)); ck(9, I(6)); ck(10, I(308)); ck(11, I(15)); ck(12, S(g.rsid)); ck(13, R(x.scale)); ck(14, I(x.units));
    ck(15, S(x.units == 3 ? g.uname : unitName(x.units))); ck(16, I(g.lwg)); 
    { string e = cmpTok(R(g.lw), t[14], 1, x.res); if (!e.empty()) bad("global-17", "global field 17 (maximum line width): " + e); }
    ck(18, S(g.created));
    { string e = cmpTok(R(x.res), t[16], 1, x.res * 1e-5); if (!e.empty()) bad("global-19", "global field 19 (resolution): " + e); }
    ck(21, S(g.author)); ck(22, S(g.org)); ck(23, I(11)); ck(24, I(g.std));
    if (!t[22].str || (t[22].raw.size() != 15 && t[22].raw.size() != 13)) bad("global-25", "modification date '" + t[22].raw + "'");
    ck(26, S(g.note));
}
inline void cmpEnts(const Model& m, const File& f, const Expect& x) {
    if (f.e.size() != m.e.size()) { string s; for (auto& e : f.e) s += fmt(" %d", e.de[0]); bad("entity-count", fmt("%zu entities instead of %zu:", f.e.size(), m.e.size()) + s); }
    for (size_t k = 0; k < m.e.size(); k++) {
        const Ent& e = m.e[k]; const PEnt& p = f.e[k]; string w = fmt("entity %zu type %d form %d: ", k, e.type, e.form), ky = fmt("%d", e.type);
        auto ck = [&](const char* n, long got, long want) { if (got != want) bad(ky + "-" + n, w + fmt("%s is %ld instead of %ld", n, got, want)); };
        auto at = [&](const Attr& a) { return a.ptr ? -de(a.v) : a.v; }; auto pp = [&](int i) { return i < 0 ? 0 : de(i); };
        ck("type", p.de[0], e.type); ck("structure", p.de[2], 0); ck("linefont", p.de[3], at(e.font)); ck("level", p.de[4], at(e.level)); ck("view", p.de[5], pp(e.view));
        ck("transform", p.de[6], pp(e.trans)); ck("labelassoc", p.de[7], pp(e.lassoc));
        ck("blank", p.de[8] / 1000000, e.blank); ck("dependency", p.de[8] / 10000 % 100, e.dep); ck("use", p.de[8] / 100 % 100, e.use); ck("hierarchy", p.de[8] % 100, e.hier);
        ck("weight", p.de[10], e.weight); ck("color", p.de[11], at(e.color)); ck("form", p.de[13], e.form); ck("subscript", p.de[17], e.sub);
        if (p.label != e.label) bad(ky + "-label", w + "label '" + p.label + "' instead of '" + e.label + "'");
        size_t np = e.pd.size();
        vector<Tok> t = e.pd;
        if (!e.assoc.empty() || !e.props.empty() || p.pd.size() > np) {
            t.push_back(I(e.assoc.size())); for (int a : e.assoc) t.push_back(P(a));
            if (!e.props.empty() || p.pd.size() > t.size()) { t.push_back(I(e.props.size())); for (int a : e.props) t.push_back(P(a)); }
        }
        for (size_t i = 0; i < t.size(); i++) {
            if (i >= p.pd.size()) { if (t[i].k == 'D' || ((t[i].k == 'I' || t[i].k == 'P') && t[i].i <= 0) ) continue; bad(ky + "-pd-short", w + fmt("only %zu of %zu parameters", p.pd.size(), t.size())); }
            string er = cmpTok(t[i], p.pd[i], x.cf, x.res);
            if (!er.empty()) bad(ky + fmt("-pd%zu", i < np ? std::min(i, (size_t)20) : 99), w + fmt("parameter %zu: ", i + 1) + er);
        }
        if (p.pd.size() > t.size()) bad(ky + "-pd-long", w + fmt("%zu parameters instead of %zu (extra '%s')", p.pd.size(), t.size(), p.pd[t.size()].raw.c_str()));
        if (p.comm.size() != e.comm.size()) bad("comment-count", w + fmt("%zu comment lines instead of %zu", p.comm.size(), e.comm.size()));
        for (size_t i = 0; i < e.comm.size(); i++) if (trim(p.comm[i]) != trim(e.comm[i])) bad("comment-text", w + "comment '" + p.comm[i] + "' instead of '" + e.comm[i] + "'");
    }
}
inline string slurp(const string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
inline void spill(const string& f, const string& d) { FILE* o = fopen(f.c_str(), "wb"); fwrite(d.data(), 1, d.size(), o); fclose(o); }
}
