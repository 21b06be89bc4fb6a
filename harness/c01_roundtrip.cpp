// C01: every entity family x option x one aspect, as a legal file or built through the interface:
// Read -> Write must say the same, and again.
#include "apibuild.hpp"
#include <memory>
using namespace igs;
extern "C" time_t time(time_t* t) { if (t) *t = 1700000000; return 1700000000; }
static void explore(mc::Ctx& c) {
    int via = c.choose(2, "source"), f = c.choose(NFAM, "family"), as = c.choose(NASPECT, "aspect");
    if (via && (as == 7 || as == 9)) c.skip();
    Chooser ch = [&](int n, const char* l) { return c.choose(n, l); };
    B b(ch);
    if (as == 10) b.mag = MAGS[c.choose(7, "magnitude")];
    c.say(fmt("%s, aspect %d, %s", famName(f), as, via ? "built" : "file"));
    int main = family(b, f, c.thorough || as == 0 || as == 8 || as == 10);
    Model keep = aspect(b, main, as, ch, c);
    c.begin();
    string fam = fmt("f%d", f), file = c.scratch + "/x.igs", file2 = c.scratch + "/sub/x.igs", vs = via ? "api:" : "";
    mkdir((c.scratch + "/sub").c_str(), 0700);
    int t = main >= 0 && main < (int)b.m.e.size() ? b.m.e[main].type : 0;
    string in;
    if (via) {
        IGES a; Ents es; c.site("build:" + fam);
        try { apibuild(a, b.m, es); } catch (NoApi&) { c.skip(); } catch (Refused& r) { c.fail("refused:" + r.what, "the interface refuses a legal model: " + r.what); }
        { vector<string> st; for (auto& s : b.m.start) if (!s.empty()) st.push_back(s); b.m.start = st; }   // AddToHeader ignores empty text
        keep = b.m; c.site("write0:" + fam);
        if (!a.Write(file.c_str(), true)) c.fail(fmt("api-write:%d:a%d", t, as), "a model built through the interface is not written\n" + synth(b.m));
        in = slurp(file);
    } else { in = synth(b.m); spill(file, in); }
    IGES g;
    c.site("read:" + fam);
    c.check(g.Read(file.c_str()), vs + fmt("read-rejected:%d:a%d", t, as), "legal file rejected:\n" + in);
    c.site("write:" + fam);
    c.check(g.Write(file2.c_str(), true), vs + fmt("write-refused:%d:a%d", t, as), "model read from a legal file was not written");
    string out = slurp(file2);
    Expect x = normalised(b.m);
    try {
        File F = parse(out); 
        cmpStart(keep, F); cmpGlob(keep, F, x, "x.igs"); cmpEnts(keep, F, x);
    } catch (Bad& e) { c.fail(vs + "first:" + e.key + fmt(":a%d", as), e.msg + "\n--- input\n" + in + "--- output\n" + out); }
    if (via && x.cf == 1 && x.units == 2) c.check(in == out, fmt("api-differs:%d:a%d", t, as), "the file read back and written differs:\n" + in + "---\n" + out);
    IGES h; c.site("reread:" + fam);
    c.check(h.Read(file2.c_str()), vs + fmt("reread-rejected:%d:a%d", t, as), "the library rejects its own output:\n" + out);
    c.check(h.Write(file.c_str(), true), vs + fmt("rewrite-refused:%d:a%d", t, as), "second write refused");
    string out2 = slurp(file);
    if (out != out2 && x.cf != 1) {   // the converted resolution itself was rounded when it was written: one more step must settle it
        try { File F = parse(out2); cmpGlob(keep, F, x, "x.igs"); cmpEnts(keep, F, x); } catch (Bad& e) { c.fail(vs + "second:" + e.key + fmt(":a%d", as), e.msg + "\n--- first\n" + out + "--- second\n" + out2); }
        IGES k; c.check(k.Read(file.c_str()) && k.Write(file2.c_str(), true), vs + "third", "its own output is refused\n" + out2); out = slurp(file2);
    }
    c.check(out == out2, vs + fmt("not-stable:%d:a%d", t, as), "second write differs:\n" + out + "---\n" + out2);
    c.site("destroy:" + fam);
    c.nontrivial(mc::hstr(out)); c.outcome(famName(f)); c.outcome(fmt("aspect %d", as)); c.outcome(via ? "built through the interface" : "from a file");
}
MC_MAIN(explore, 5, 30)
