// C10: encode/decode of integer, real and Hollerith fields.
#include "mc.hpp"
#include <fstream>
#include <core/iges_io.h>
using namespace mc;
using std::string;

static bool legalReal(const string& s) {
    size_t i = 0; int dig = 0; bool dot = false, ex = false;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
    while (i < s.size() && (isdigit(s[i]) || s[i] == '.')) { if (s[i] == '.') { if (dot) return false; dot = true; } else dig++; i++; }
    if (!dig) return false;
    if (i < s.size() && (s[i] == 'E' || s[i] == 'D')) { ex = true; i++; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++; int k = 0; while (i < s.size() && isdigit(s[i])) { i++; k++; } if (!k) return false; }
    return i == s.size() && (dot || ex);
}
static double val(string s) { for (auto& c : s) if (c == 'D') c = 'E'; return (double)strtold(s.c_str(), nullptr); }

static const std::vector<double> MANT = {1, 1.5, 2.5, 9, 9.5, 9.99999, 9.999999999999, 1.00000001, 1.000000000001, 3.14159265358979, 2.7182818284590451, 7.0710678118654755, 9.999, 9.9995, 1.23456789012345, 4.9999999999999, 8.00000000000001, 6.25};
static const std::vector<double> RES = {1e-15, 1e-12, 1e-10, 1e-8, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 1};
static const std::vector<string> TAIL = {"", "1.5,", "5HABCDE;", " ", "E5,", "-3;"};

static std::vector<char> delims() { std::vector<char> v; for (char c = 33; c < 127; c++) if (!isdigit(c) && !strchr("+-.DEH", c)) v.push_back(c); return v; }

static void reals(Ctx& c) {
    int neg = c.choose(2, "sign"), e = c.choose(c.thorough ? 121 : 61, "exp"), m = c.choose(MANT.size() + 1, "mant"), r = c.choose(RES.size(), "res");
    int ex = c.thorough ? (e - 60) : (e - 30);
    if (c.thorough && (e == 0 || e == 120)) ex = e ? 290 : -290;
    double v = m == (int)MANT.size() ? 0.0 : MANT[m] * pow(10.0, ex);
    if (neg) v = -v;
    bool rd = c.flip("rd");
    char pd = ',', rdl = ';';
    string t;
    c.say(fmt("FormatPDREal(%.17g, res %g)", v, RES[r]));
    c.site("format-real");
    bool ok = FormatPDREal(t, v, rd ? rdl : pd, RES[r]);
    c.check(ok, "real-refused", fmt("value %.17g res %g refused", v, RES[r]));
    c.check(!t.empty() && t.back() == (rd ? rdl : pd), "real-delim", "encoded field does not end with its delimiter: " + t);
    string body = t.substr(0, t.size() - 1);
    c.check(legalReal(body), "real-spelling", fmt("%.17g res %g encoded as illegal real '%s'", v, RES[r], body.c_str()));
    double tol = std::max(RES[r], fabs(v) * 1e-15);
    c.check(fabs(val(body) - v) <= tol, "real-precision", fmt("%.17g res %g encoded as %s: off by %g", v, RES[r], body.c_str(), fabs(val(body) - v)));
    c.check(t.size() <= 64, "real-length", "field longer than a line: " + t);
    string tail = c.pick(TAIL, "tail"); int off = c.choose(3, "offset");
    string data = string(off * 5, 'x') + t + tail;
    int idx = off * 5; double p = -77; bool eor = false;
    c.site("parse-real");
    ok = ParseReal(data, idx, p, eor, pd, rdl, NULL);
    c.check(ok, "real-reread", "encoded real rejected: " + t);
    c.check(p == val(body), "real-value", fmt("'%s' decoded as %.17g", body.c_str(), p));
    c.check(idx == off * 5 + (int)t.size(), "real-cursor", fmt("cursor %d after '%s' at %d", idx, t.c_str(), off * 5));
    c.check(eor == rd, "real-eor", "end-of-record flag wrong after " + t);
    c.nontrivial(hstr(data)); c.outcome(body.find('E') != string::npos ? "real:E" : body.find('D') != string::npos ? "real:D" : "real:fixed");
}

static void ints(Ctx& c) {
    static const std::vector<long> V = {0, 1, -1, 9, 10, -9, -10, 99, 1234567, 9999999, 10000000, 99999999, 100000000, -9999999, -10000000, 2147483647L, -2147483648L, 12345678, -1234567};
    int v = (int)c.pick(V, "v"); int field = c.choose(10, "field");
    string o = "keep";
    c.say(fmt("FormatDEInt(%d) field %d", v, field));
    c.site("format-int");
    bool ok = FormatDEInt(o, v);
    bool fits = v <= 99999999 && v >= -9999999;
    c.check(ok == fits, "deint-range", fmt("FormatDEInt(%d) returned %d", v, ok));
    if (ok) {
        c.check(o.size() == 8, "deint-width", "width of '" + o + "'");
        c.check(atol(o.c_str()) == v, "deint-text", fmt("%d encoded '%s'", v, o.c_str()));
        string line(80, ' '); line.replace(field * 8, 8, o);
        if (field > 0) line[field * 8 - 1] = '7';
        if (field < 9) line[field * 8 + 8] = '7';
        int r = 4242, d = 5;
        c.check(DEItemToInt(line, field, r, c.flip("default") ? &d : NULL), "deint-reread", "'" + o + "' rejected");
        c.check(r == v, "deint-value", fmt("'%s' decoded %d", o.c_str(), r));
        c.nontrivial(hstr(line));
        // adjacent fields do not bleed
        if (field < 9) { int q = 4242; bool k = DEItemToInt(line.substr(0, 8 * (field + 1)), field, q, NULL); c.check(k && q == v, "deint-short", "field at end of a short record"); }
    } else c.outcome("deint:refused");
    // free-form
    string t = std::to_string(v); bool rd = c.flip("rd"); t += rd ? ';' : ',';
    string tail = c.pick(TAIL, "tail"); string data = "zz" + t + tail; int idx = 2, p = 0; bool eor = false;
    c.site("parse-int");
    c.check(ParseInt(data, idx, p, eor, ',', ';', NULL), "int-rejected", t);
    c.check(p == v && idx == 2 + (int)t.size() && eor == rd, "int-value", fmt("'%s' decoded %d cursor %d eor %d", t.c_str(), p, idx, eor));
    c.nontrivial(hstr(data)); c.outcome("int:ok");
}

// split fixed lines written by the section writers
static bool lines(Ctx& c, const string& out, int width, char sec, int de, int first, string& data, int& count) {
    size_t p = 0; int n = first; data.clear(); count = 0;
    while (p < out.size()) {
        size_t q = out.find('\n', p);
        if (q == string::npos) c.fail("line-noeol", "unterminated line");
        string l = out.substr(p, q - p); p = q + 1;
        if (l.size() != 80) c.fail("line-width", fmt("line of %zu columns: '%s'", l.size(), l.c_str()));
        if (l[72] != sec) c.fail("line-section", "section letter of: " + l);
        if (atoi(l.substr(73).c_str()) != n) c.fail("line-seq", fmt("sequence %s expected %d", l.substr(73).c_str(), n));
        if (sec == 'P') { if (atoi(l.substr(64, 8).c_str()) != de) c.fail("line-de", "back pointer of: " + l); }
        data += l.substr(0, width); n++; count++;
    }
    return true;
}

static string content(int kind, int len) {
    string s; const char* abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"; const char* tricky = ",;5H,;1.0;H,9H";
    for (int i = 0; i < len; i++) s += kind == 0 ? abc[i % 26] : kind == 1 ? tricky[i % 14] : (i == 0 || i == len - 1) ? ' ' : 'a' + i % 26;
    return s;
}

static void strings(Ctx& c) {
    bool par = c.flip("section P"); int width = par ? 64 : 72;
    int pre = c.choose(width + 1, "columns used");
    int len = c.choose(c.thorough ? 240 : 90, "len"); if (!c.thorough && len >= 80) len = 120 + (len - 80) * 11;
    int kind = c.choose(3, "content"); bool rd = c.flip("rd");
    string s = content(kind, len);
    string out, f(pre, '1'); if (pre) f[pre - 1] = ',';
    int index = 17, de = 4321; char d = rd ? ';' : ',';
    c.say(fmt("Add%sHStr len=%d pre=%d kind=%d %s", par ? "PD" : "Sec", len, pre, kind, rd ? "last" : "more"));
    c.site("add-hstr");
    bool ok = par ? AddPDHStr(s, f, out, index, de, ',', ';', d) : AddSecHStr(s, f, out, index, ',', ';', d);
    c.check(ok, "hstr-refused", "string refused");
    string more;
    if (!rd) { // follow with an integer item that ends the record
        more = "42;"; string t = more;
        ok = par ? AddPDItem(t, f, out, index, de, ',', ';') : AddSecItem(t, f, out, index, ',', ';');
        c.check(ok, "item-refused", "item after string refused");
    }
    c.check(f.empty(), "hstr-unflushed", "record end left data unwritten: '" + f + "'");
    string data; int n; lines(c, out, width, par ? 'P' : 'G', de, 17, data, n);
    c.check(index == 17 + n, "hstr-index", fmt("sequence counter %d after %d lines", index, n));
    // decode by hand: skip prefix, then blanks used as padding (only if string count did not fit)
    size_t p = pre; string hc = len ? std::to_string(len) + "H" : "";
    if (len) { size_t room = width - pre; if (hc.size() > room) { c.check(data.substr(pre, room) == string(room, ' '), "hstr-pad", "padding"); p = width; } }
    else if (pre == width) p = width;
    c.check(data.compare(p, hc.size(), hc) == 0, "hstr-count", "count not found at its place: " + data.substr(p, 12));
    if (len) c.check(p / width == (p + hc.size() - 1) / width, "hstr-count-split", "count split over lines");
    c.check(data.compare(p + hc.size(), len, s) == 0, "hstr-text", "text altered");
    c.check(data[p + hc.size() + len] == d, "hstr-delim", "delimiter missing");
    // library decode
    int idx = (int)p; string got = "?"; bool eor = false;
    c.site("parse-hstr");
    c.check(ParseHString(data, idx, got, eor, ',', ';'), "hstr-reread", "encoded string rejected");
    c.check(got == s, "hstr-value", "decoded '" + got + "'");
    c.check(eor == rd, "hstr-eor", "end flag");
    c.check(idx == (int)(p + hc.size() + len + 1), "hstr-cursor", "cursor");
    if (!rd) { // the integer afterwards: either right there or on the next line
        size_t q = idx; while (q < data.size() && data[q] == ' ') q++;
        c.check(data.compare(q, 3, "42;") == 0, "item-place", "item after the string is missing");
        c.check(q / width == (q + 2) / width, "item-split", "item broken over lines");
        int v = 0; eor = false; idx = (int)q; c.check(ParseInt(data, idx, v, eor, ',', ';') && v == 42 && eor, "item-value", "item after string");
    }
    c.nontrivial(hstr(out)); c.outcome(fmt("hstr:%d lines", n > 3 ? 3 : n));
}

// sequences of items of every length: never split, order kept, lines full-width
static void items(Ctx& c) {
    bool par = c.flip("section P"); int width = par ? 64 : 72; int n = c.thorough ? 4 : 3;
    static const std::vector<int> L = {1, 2, 3, 7, 15, 20, 31, 32, 33, 63, 64, 65, 71, 72, 73};
    string f, out, want; int index = 9999997 - (c.flip("near limit") ? 0 : 9999990); int first = index; std::vector<string> its;
    for (int i = 0; i < n; i++) { int l = c.pick(L, "len"); if (l > width) { string t(l - 1, '1'); t += ','; string f0 = f, o0 = out; bool ok = par ? AddPDItem(t, f, out, index, 9999, ',', ';') : AddSecItem(t, f, out, index, ',', ';'); c.check(!ok, "item-too-long", "item longer than a line accepted"); c.check(out == o0, "item-too-long-out", "refused item changed the output"); c.outcome("item:refused"); return; }
        string t(l - 1, '0' + i + 1); t += i == n - 1 ? ';' : ','; its.push_back(t); }
    for (auto t : its) {
        string t2 = t; c.site("add-item");
        int need = f.size() + t.size() > (size_t)width ? 1 : 0; (void)need;
        bool ok = par ? AddPDItem(t2, f, out, index, 9999, ',', ';') : AddSecItem(t2, f, out, index, ',', ';');
        if (!ok) { c.check(index > 9999990, "item-refused", "item refused"); c.outcome("item:limit"); return; }
    }
    c.check(f.empty(), "item-unflushed", "record not finished");
    string data; int k; lines(c, out, width, par ? 'P' : 'G', 9999, first, data, k);
    c.check(index == first + k, "item-index", "sequence counter");
    size_t p = 0;
    for (auto& t : its) {
        while (p < data.size() && data[p] == ' ') p++;
        c.check(data.compare(p, t.size(), t) == 0, "item-text", "item lost or altered");
        c.check(p / width == (p + t.size() - 1) / width, "item-split", "item broken over lines");
        p += t.size();
    }
    c.check(data.find_first_not_of(' ', p) == string::npos, "item-trail", "stray text");
    c.nontrivial(hstr(out)); c.outcome("items:ok");
}

// all delimiter pairs
static void delimPairs(Ctx& c) {
    static const std::vector<char> D = delims();
    char pd = c.pick(D, "pd"), rd = c.pick(D, "rd"); if (pd == rd) c.skip();
    int which = c.choose(4, "order");
    string s = string("x") + pd + rd + ",;y";
    string f, out, t; int index = 1; bool ok = true; c.site("delims");
    c.say(fmt("pd=%c rd=%c order %d", pd, rd, which));
    for (int i = 0; i < 4 && ok; i++) {
        int k = (i + which) % 4; char d = i == 3 ? rd : pd;
        if (k == 0) ok = AddPDHStr(s, f, out, index, 7, pd, rd, d);
        else if (k == 1) { ok = FormatPDREal(t, -1234.5678, d, 1e-6) && AddPDItem(t, f, out, index, 7, pd, rd); }
        else if (k == 2) { t = string("-271") + d; ok = AddPDItem(t, f, out, index, 7, pd, rd); }
        else { t = string(1, d); ok = AddPDItem(t, f, out, index, 7, pd, rd); }
    }
    c.check(ok, "delim-write", fmt("pd=%c rd=%c refused", pd, rd));
    string data; int n; lines(c, out, 64, 'P', 7, 1, data, n);
    int idx = 0; bool eor = false;
    for (int i = 0; i < 4; i++) {
        int k = (i + which) % 4; c.check(!eor, "delim-early", "early end of record"); eor = false;
        if (k == 0) { string g; c.check(ParseHString(data, idx, g, eor, pd, rd) && g == s, "delim-str", fmt("pd=%c rd=%c string '%s'", pd, rd, g.c_str())); }
        else if (k == 1) { double v; c.check(ParseReal(data, idx, v, eor, pd, rd) && fabs(v + 1234.5678) < 1e-6, "delim-real", fmt("pd=%c rd=%c", pd, rd)); }
        else if (k == 2) { int v; c.check(ParseInt(data, idx, v, eor, pd, rd) && v == -271, "delim-int", fmt("pd=%c rd=%c", pd, rd)); }
        else { int v = 1, d = 99; c.check(ParseInt(data, idx, v, eor, pd, rd, &d) && v == 99, "delim-default", fmt("pd=%c rd=%c", pd, rd)); }
    }
    c.check(eor, "delim-eor", "no end of record");
    c.nontrivial(hstr(out)); c.outcome("delims:ok");
}

struct Spell { const char* txt; int kind; bool ok; double v; }; // kind 0 int 1 real
static void spellings(Ctx& c) {
    static const std::vector<Spell> S = {
        {"1", 0, 1, 1}, {"+1", 0, 1, 1}, {"-0", 0, 1, 0}, {" 12", 0, 1, 12}, {"0012", 0, 1, 12}, {"2147483647", 0, 1, 2147483647.0}, {"-2147483648", 0, 1, -2147483648.0},
        {"2147483648", 0, 0, 0}, {"-2147483649", 0, 0, 0}, {"99999999999", 0, 0, 0}, {"4294967297", 0, 0, 0}, {"99999999999999999999999", 0, 0, 0}, {"abc", 0, 0, 0}, {"-", 0, 0, 0}, {"+", 0, 0, 0}, {".", 0, 0, 0},
        {"1.", 1, 1, 1}, {".5", 1, 1, 0.5}, {"-.5", 1, 1, -0.5}, {"+1.5", 1, 1, 1.5}, {"1E3", 1, 1, 1000}, {"1.5D3", 1, 1, 1500}, {"1.5D+3", 1, 1, 1500}, {"1.5E-3", 1, 1, 0.0015}, {"-1.D-2", 1, 1, -0.01}, {" 2.5", 1, 1, 2.5}, {"1D0", 1, 1, 1}, {"0.", 1, 1, 0}, {"-0.0", 1, 1, 0}, {"3", 1, 1, 3}, {"1.7976931348623157D308", 1, 1, 1.7976931348623157e308}, {"000001.25", 1, 1, 1.25}, {"1.25E+00", 1, 1, 1.25},
        {"1E999", 1, 0, 0}, {"D5", 1, 0, 0}, {"x", 1, 0, 0}, {"-", 1, 0, 0}, {".", 1, 0, 0}};
    auto& s = c.pick(S, "spelling"); bool rd = c.flip("rd"); string tail = c.pick(TAIL, "tail"); bool dft = c.flip("default given");
    char pd = c.flip("alt") ? '/' : ','; char rdl = pd == '/' ? '#' : ';';
    string t = string(s.txt) + (rd ? rdl : pd); string data = t + tail; int idx = 0; bool eor = false; int iv = 31337, di = 5; double dv = 31337, dd = 5;
    c.say("'" + data + "'"); c.site("spelling");
    bool ok = s.kind ? ParseReal(data, idx, dv, eor, pd, rdl, dft ? &dd : NULL) : ParseInt(data, idx, iv, eor, pd, rdl, dft ? &di : NULL);
    c.check(ok == s.ok, fmt("spelling-%s", s.txt), fmt("'%s' as %s: %s", s.txt, s.kind ? "real" : "integer", ok ? "accepted" : "rejected"));
    if (ok) { double v = s.kind ? dv : iv; c.check(v == s.v, fmt("spelling-value-%s", s.txt), fmt("'%s' decoded as %.17g", s.txt, v)); c.check(idx == (int)t.size() && eor == rd, "spelling-cursor", fmt("'%s' cursor %d eor %d", s.txt, idx, eor)); c.outcome("spelling:ok"); }
    else { c.check((s.kind ? dv == 31337 : iv == 31337), "spelling-clobber", "rejected field changed the result"); c.outcome("spelling:rejected"); }
    c.nontrivial(hstr(data, s.kind));
}
static void defaults(Ctx& c) {
    int k = c.choose(4, "kind"); bool rd = c.flip("rd"), dft = c.flip("default"); string tail = c.pick(TAIL, "tail"); int off = c.choose(3);
    string data = string(off, 'q') + (rd ? ";" : ",") + tail; int idx = off; bool eor = false; int iv = 9, di = 5; double dv = 9, dd = 5.5; string sv = "old"; bool ok;
    c.site("default");
    if (k == 0) ok = ParseInt(data, idx, iv, eor, ',', ';', dft ? &di : NULL); else if (k == 1) ok = ParseReal(data, idx, dv, eor, ',', ';', dft ? &dd : NULL);
    else if (k == 2) ok = ParseHString(data, idx, sv, eor, ',', ';'); else ok = ParseLString(data, idx, sv, eor, ',', ';');
    bool want = k >= 2 || dft; c.check(ok == want, "default-accept", fmt("kind %d default %d: %d", k, dft, ok));
    if (ok) { c.check(k == 0 ? iv == 5 : k == 1 ? dv == 5.5 : sv.empty(), "default-value", "defaulted field value"); c.check(idx == off + 1 && eor == rd, "default-cursor", "cursor"); }
    c.nontrivial(hstr(data, k * 2 + dft)); c.outcome("default");
}
static void hmalformed(Ctx& c) {
    struct H { const char* t; bool ok; const char* v; };
    static const std::vector<H> S = {{"3HABC,", 1, "ABC"}, {"3HABC;", 1, "ABC"}, {"03HABC,", 1, "ABC"}, {"3HAB,,", 1, "AB,"}, {"1H;;", 1, ";"}, {" 3HABC,", 1, "ABC"},
        {"0H,", 0, ""}, {"-1HA,", 0, ""}, {"3HAB", 0, ""}, {"3HABC", 0, ""}, {"3HABCD,", 0, ""}, {"3h ABC,", 0, ""}, {"HABC,", 0, ""}, {"ABC,", 0, ""}, {"3 HABC,", 0, ""}, {"2147483647HA,", 0, ""}, {"2147483640HA,", 0, ""}, {"4294967297HA,", 0, ""}, {"99999999999999999999HA,", 0, ""}, {"4HABC,", 0, ""}, {"3", 0, ""}, {"3H", 0, ""}};
    auto& s = c.pick(S); int off = c.choose(4) * 16; string data = string(off, ' ') + s.t; int idx = off; bool eor = false; string g = "old";
    c.say(string("hollerith ") + s.t); c.site(string("hollerith"));
    bool ok = ParseHString(data, idx, g, eor, ',', ';');
    c.check(ok == s.ok, string("hollerith-") + s.t, fmt("'%s' %s", s.t, ok ? "accepted" : "rejected"));
    if (ok) c.check(g == s.v, string("hollerith-value-") + s.t, "decoded '" + g + "'");
    c.nontrivial(hstr(data)); c.outcome(ok ? "hollerith:ok" : "hollerith:rejected");
}
// directory-entry fields
static void defields(Ctx& c) {
    struct D { const char* t; int st; int v; }; // st 1 value 0 rejected 2 default
    static const std::vector<D> S = {{"       1", 1, 1}, {"12345678", 1, 12345678}, {"-1234567", 1, -1234567}, {"      +5", 1, 5}, {"00000012", 1, 12}, {"        ", 2, 0}, {"1       ", 0, 0}, {"     1 2", 0, 0}, {"     abc", 0, 0}, {"       -", 0, 0}, {"    1.0 ", 0, 0}, {"   1.5", 0, 0}, {"       D", 0, 0}};
    auto& s = c.pick(S); int f = c.choose(10), dft = c.choose(2), fill = c.choose(2); string t = s.t; while (t.size() < 8) t = " " + t;
    string line(80, fill ? '8' : ' '); line.replace(f * 8, 8, t); int v = 4242, d = -3; c.site("defield");
    bool ok = DEItemToInt(line, f, v, dft ? &d : NULL); bool want = s.st == 1 || (s.st == 2 && dft);
    c.check(ok == want, "defield-accept", fmt("'%s' default %d -> %d", s.t, dft, ok));
    if (ok) c.check(v == (s.st == 1 ? s.v : d), "defield-value", fmt("'%s' -> %d", s.t, v)); else c.check(v == 4242, "defield-clobber", "rejected field changed the result");
    string o; c.check(DEItemToStr(line, f, o), "destr", "string field rejected"); string w = t; size_t q = w.find_first_not_of(' '); w = q == string::npos ? "" : w.substr(q); c.check(o == w, "destr-value", "'" + t + "' -> '" + o + "'");
    c.check(!DEItemToInt(line, 10, v, &d) && !DEItemToInt(line, -1, v, &d) && !DEItemToInt(line.substr(0, f * 8 + 7), f, v, &d), "defield-bounds", "out-of-range field accepted");
    c.nontrivial(hstr(line, dft)); c.outcome("defield");
}
// physical records: line endings, lengths, section letters, sequence numbers
static void records(Ctx& c) {
    struct R { const char* tail; int idx; bool ok; };
    static const std::vector<R> T = {{"S      1", 1, 1}, {"G      2", 2, 1}, {"D      3", 3, 1}, {"P9999999", 9999999, 1}, {"T      1", 1, 1}, {"F      1", 1, 1}, {"S0000001", 1, 1}, {"S      0", 0, 0}, {"S     -1", 0, 0}, {"S       ", 0, 0}, {"X      1", 0, 0}, {"       1", 0, 0}, {"s      1", 0, 0}, {"S1      ", 0, 0}};
    auto& t = c.pick(T); int eol = c.choose(5), len = c.choose(4), pos = c.choose(2);
    string body; for (int i = 0; i < 72; i++) body += 'A' + i % 26; string line = body + t.tail; bool ok = t.ok;
    if (len == 1) { line = line.substr(1); ok = false; } if (len == 2) { line = " " + line; ok = false; } if (len == 3) { line = ""; ok = false; }
    string e = eol == 0 ? "\n" : eol == 1 ? "\r\n" : eol == 2 ? "" : eol == 3 ? "\r\r\n" : "\f\n";
    string fn = c.scratch + "/rec"; { std::ofstream o(fn, std::ios::binary); if (pos) o << body << "S      7\n"; o << line << e; if (eol != 2) o << body << "T      9" << "\n"; }
    std::ifstream in(fn, std::ios::binary); IGES_RECORD r; std::streampos ref; c.site("record");
    if (pos) c.check(ReadIGESRecord(&r, in, &ref) && r.index == 7 && r.section_type == 'S' && ref == std::streampos(0), "record-first", "first record");
    bool g = ReadIGESRecord(&r, in, &ref);
    c.check(g == ok, "record-accept", fmt("line '%s' eol %d: %d", line.c_str(), eol, g));
    if (g) { c.check(r.data == body && r.section_type == t.tail[0] && r.index == t.idx, "record-value", "record fields"); c.check(ref == std::streampos(pos ? 81 : 0), "record-pos", "reported position");
        if (eol != 2) { bool h = ReadIGESRecord(&r, in, &ref); c.check(h && r.section_type == 'T' && r.index == 9, "record-next", "record after"); } else c.check(!ReadIGESRecord(&r, in, &ref), "record-eof", "record after end of file"); }
    c.nontrivial(hstr(line + e, pos)); c.outcome(g ? "record:ok" : "record:rejected");
}

static void explore(Ctx& c) {
    switch (c.choose(10, "part")) {
        case 0: reals(c); break; case 1: ints(c); break; case 2: strings(c); break; case 3: items(c); break; case 4: delimPairs(c); break;
        case 5: spellings(c); break; case 6: defaults(c); break; case 7: hmalformed(c); break; case 8: defields(c); break; case 9: records(c); break;
    }
}
MC_MAIN(explore, 3, 10)
