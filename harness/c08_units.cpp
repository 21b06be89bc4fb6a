// C08: models in every unit and scale, read or built, under every sequence of unit and scale changes: after each change
// every length is the original one times the exact factor, everything else is unchanged.
#include "apibuild.hpp"
using namespace igs;
extern "C" time_t time(time_t* t) { if (t) *t = 1700000000; return 1700000000; }
static const double SC[] = {1, 0.5, 4, 0.03125, 1000, 25.4};
static void explore(mc::Ctx& c) {
    int via = c.choose(2, "source"), f = c.choose(NFAM, "family"), u = c.choose(11, "units") + 1, s = c.choose(u == 2 || c.thorough ? 4 : 2, "scale");
    Chooser ch = [&](int n, const char* l) { return c.choose(n, l); };
    B b(ch); int main = family(b, f, c.thorough || (u == 2 && s == 0)); Model& m = b.m; (void)main;
    m.g.units = u; m.g.uname = u == 3 ? "FURLONG" : unitName(u); m.g.scale = SC[s]; m.g.res = 1e-9;
    int depth = c.thorough ? (u <= 2 && s == 0 ? 3 : 2) : (u == 2 && s == 1) || (u == 1 && s == 0) ? 2 : 1; vector<int> ops;
    for (int d = 0; d < depth; d++) {   // operations: nothing (stop), 11 units and two invalid ones, scales
        int op = c.choose(1 + 13 + 9, "operation");
        if (d && !c.thorough && op != 0 && op != 1 && op != 3 && op != 4 && op != 8 && op != 11 && op != 14 && op != 15 && op != 19) c.skip();
        ops.push_back(op); if (op == 0) break;
    }
    c.begin();
    string fam = fmt("f%d", f), file = c.scratch + "/x.igs", o = c.scratch + "/y.igs";
    IGES g; Ents es; Expect x;
    c.say(fmt("%s %s in %s scale %g", famName(f), via ? "built" : "read", u == 3 ? "extern" : unitName(u), SC[s]));
    if (via) {
        c.site("build:" + fam);
        try { apibuild(g, m, es); } catch (NoApi&) { c.skip(); } catch (Refused& r) { c.fail("refused:" + r.what, "the interface refuses a legal model: " + r.what); }
        x.res = m.g.res; x.cf = 1; x.units = u; x.scale = SC[s];
    } else { spill(file, synth(m)); c.site("read:" + fam); c.check(g.Read(file.c_str()), "read-rejected:" + fam, "legal file rejected"); x = normalised(m); }
    double cf0 = x.cf;
    auto look = [&](const string& after) {
        c.check(g.globalData.unitsFlag == x.units, "units-flag:" + after, fmt("units flag %d instead of %d", g.globalData.unitsFlag, x.units));
        c.check(fabs(g.globalData.modelScale - x.scale) <= 1e-12 * x.scale, "scale-value:" + after, fmt("model scale %g instead of %g", g.globalData.modelScale, x.scale));
        c.check(fabs(g.globalData.minResolution - x.res) <= 1e-9 * x.res, "resolution:" + after, fmt("resolution %g instead of %g", g.globalData.minResolution, x.res));
        c.site("write:" + fam);
        c.check(g.Write(o.c_str(), true), "write-refused:" + after, "not written after " + after);
        string out = slurp(o);
        try { File F = parse(out); Model k = m; cmpGlob(k, F, x, "y.igs"); cmpEnts(k, F, x); } catch (Bad& e) { c.fail(after + ":" + e.key, e.msg + fmt(" (lengths should be the original times %.17g)\n--- original\n", x.cf) + synth(m) + "--- written\n" + out); }
        c.validated();
    };
    if (ops.size() == 1) look("load");
    for (int op : ops) {
        if (op == 0) break;
        if (op <= 13) {
            int nu2 = op - 1;   // 0 and 12 are no units
            c.site("convert:" + fam); bool got = g.ConvertUnits((IGES_UNIT)nu2);
            bool valid = nu2 >= 1 && nu2 <= 11, want = valid && (nu2 == x.units || (nu2 != 3 && x.units != 3));
            c.say(fmt("; convert to %d", nu2));
            c.check(got == want, "convert-result", fmt("ConvertUnits(%d) from %d returned %d", nu2, x.units, got));
            if (want && nu2 != x.units) { double r = unitMM(x.units) / unitMM(nu2); x.cf *= r; x.res *= r; x.units = nu2; }
        } else {
            static const double NS[] = {1, 0.5, 4, 0.0625, 3, 1e-9, 2e7, -1, 0}; double ns = NS[op - 14];
            c.site("rescale:" + fam); bool got = g.ChangeModelScale(ns); bool want = ns >= 6e-8 && ns <= 1.7e7;
            c.say(fmt("; scale %g", ns));
            c.check(got == want, "scale-result", fmt("ChangeModelScale(%g) returned %d", ns, got));
            if (want) { double r = ns / x.scale; x.cf *= r; x.res *= r; x.scale = ns; }
        }
        look(op <= 13 ? "convert" : "rescale"); c.transition();
        c.state(mc::hstr(fmt("%d %d %d %.9g %.9g", f, via, x.units, x.scale, x.cf / cf0)));
    }
    c.site("destroy:" + fam);
    c.nontrivial(mc::hstr(fmt("%d %d %d %d %.12g %d %g ", via, f, u, s, x.cf, x.units, x.scale) + synth(m))); c.outcome(famName(f)); c.outcome(via ? "built" : "read");
}
MC_MAIN(explore, 6, 30)
