// Stateless exhaustive explorer for harnesses that run the real library.
//
// A harness is one function  void explore(mc::Ctx&)  that builds one execution from
// ctx.choose(n, label) calls.  The engine enumerates EVERY choice sequence depth first
// (no sampling), split over worker processes by choice prefix.  The choice vector is kept in
// shared memory while an execution runs, so that a crash, sanitizer abort or hang is
// attributed to the exact execution, which is then replayed alone before it is reported.
#pragma once
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace mc {

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
inline uint64_t hstr(const std::string& s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }
inline std::string fmt(const char* f, ...) {
    va_list ap; va_start(ap, f);
    va_list aq; va_copy(aq, ap);
    int n = vsnprintf(nullptr, 0, f, aq); va_end(aq);
    std::string s(n + 1, 0); vsnprintf(&s[0], n + 1, f, ap); va_end(ap);
    s.resize(n); return s;
}

struct Prune {};
struct Fail { std::string key, msg; };

const int MAXC = 4096, NOTE = 6000;
struct Shm {                       // one per worker
    volatile int n;                // choices so far
    int c[MAXC], w[MAXC];
    volatile uint64_t evals;       // heartbeat
    volatile uint64_t beat;
    volatile int limit_s;          // limit of the running execution
    char key[256];                 // classification hint for a crash (set by ctx.site)
    char note[NOTE];               // description of running execution
    volatile int noteLen;
};

struct Stats {
    uint64_t evals = 0, nontrivial_total = 0, transitions = 0, pruned = 0, validated = 0;
    std::unordered_set<uint64_t> distinct;   // distinct non-trivial executions
    std::unordered_set<uint64_t> states;     // distinct states seen
    std::map<std::string, uint64_t> outcome; // named outcome counters
    std::vector<std::string> samples;
};

struct Ctx {
    std::vector<int> path, width;
    size_t pos = 0;
    std::vector<std::string>* labels = nullptr;
    Stats* st = nullptr;
    Shm* shm = nullptr;
    int shard = 0, nshards = 1, splitDepth = 1;
    bool replay = false, thorough = false, settled = false;
    std::string log, scratch;
    uint64_t evalno = 0;

    int choose(int n, const char* label = "") {
        if (n <= 0) throw Prune();
        int v;
        if (pos < path.size()) { v = path[pos]; width[pos] = n; if (v >= n) { if (replay) v = n - 1; else { fprintf(stderr, "mc: nondeterministic width at %zu (%s): %d of %d\n", pos, label, v, n); _exit(77); } } }
        else { v = 0; path.push_back(0); width.push_back(n); }
        if (shm && pos < (size_t)MAXC) { shm->c[pos] = v; shm->w[pos] = n; shm->n = (int)pos + 1; }
        pos++;
        if (!replay && nshards > 1 && !settled && (int)pos == splitDepth && !mine(pos)) throw Prune();
        return v;
    }
    bool flip(const char* label = "") { return choose(2, label) != 0; }
    template <class T> const T& pick(const std::vector<T>& v, const char* label = "") { return v[choose((int)v.size(), label)]; }
    bool mine(size_t k) {
        uint64_t h = 88172645463325252ull;
        for (size_t i = 0; i < k; i++) { h ^= (uint64_t)path[i] + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32; }
        return (int)((h >> 8) % nshards) == shard;
    }
    // must be called before any expensive or counted work if the execution may have < splitDepth choices
    void begin() { if (!replay && nshards > 1 && !settled && (int)pos < splitDepth) { if (!mine(pos)) throw Prune(); settled = true; } }
    // free-form step log (kept for replay and samples)
    void say(const std::string& s) {
        log += s; log += "; ";
        if (shm) { int l = std::min((int)log.size(), NOTE - 1); memcpy(shm->note, log.data(), l); shm->note[l] = 0; shm->noteLen = l; }
    }
    // classification of a crash happening from here on
    void site(const std::string& s) { if (shm) { snprintf(shm->key, sizeof shm->key, "%s", s.c_str()); } }
    void beat() { if (shm) shm->beat = shm->beat + 1; }
    void limit(int s) { if (shm) shm->limit_s = s; }
    void outcome(const std::string& s) { st->outcome[s]++; }
    void nontrivial(uint64_t h) { st->nontrivial_total++; st->distinct.insert(h); }
    void state(uint64_t h) { st->states.insert(h); }
    void transition(uint64_t k = 1) { st->transitions += k; }
    void validated(uint64_t k = 1) { st->validated += k; }
    void skip() { throw Prune(); }
    [[noreturn]] void fail(const std::string& key, const std::string& msg) { throw Fail{key, msg}; }
    void check(bool ok, const std::string& key, const std::string& msg) { if (!ok) throw Fail{key, msg}; }
};

struct Violation { std::string key, msg, note; std::vector<int> path; std::string kind; };

inline std::string jesc(const std::string& s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch == '\t') o += "\\t";
        else if (ch < 32 || ch >= 127) o += fmt("\\u%04x", ch);
        else o += ch;
    }
    return o + "\"";
}
inline std::string jvec(const std::vector<int>& v) { std::string o = "["; for (size_t i = 0; i < v.size(); i++) { if (i) o += ","; o += std::to_string(v[i]); } return o + "]"; }
inline std::vector<int> parseVec(const std::string& s) { std::vector<int> v; std::stringstream ss(s); std::string t; while (std::getline(ss, t, ',')) if (!t.empty()) v.push_back(atoi(t.c_str())); return v; }

typedef void (*ExploreFn)(Ctx&);

struct Options {
    ExploreFn fn = nullptr;
    int splitDepth = 1;      // number of leading choices used to split work
    int limit_s = 20;        // time allowed to one execution
    size_t maxViol = 60;     // distinct violation keys after which a shard stops
    int perKey = 2;
    bool quiet = true;       // send library diagnostics to /dev/null
    uint64_t maxMem = 0;
};

// ---- worker: runs DFS from `start` (inclusive) and streams results into file `out`
inline void dumpStats(const Stats& st, const std::string& file) {
    FILE* f = fopen(file.c_str(), "w");
    fprintf(f, "E %llu %llu %llu %llu %llu\n", (unsigned long long)st.evals, (unsigned long long)st.nontrivial_total, (unsigned long long)st.transitions, (unsigned long long)st.pruned, (unsigned long long)st.validated);
    for (auto h : st.distinct) fprintf(f, "D %llx\n", (unsigned long long)h);
    for (auto h : st.states) fprintf(f, "S %llx\n", (unsigned long long)h);
    for (auto& o : st.outcome) fprintf(f, "O %llu %s\n", (unsigned long long)o.second, o.first.c_str());
    for (auto& s : st.samples) { std::string t = s; std::replace(t.begin(), t.end(), '\n', ' '); fprintf(f, "X %s\n", t.c_str()); }
    fclose(f);
}
inline void loadStats(Stats& st, const std::string& file) {
    FILE* f = fopen(file.c_str(), "r"); if (!f) return;
    static char buf[1 << 16];
    while (fgets(buf, sizeof buf, f)) {
        unsigned long long a, b, c, d, e;
        if (buf[0] == 'E' && sscanf(buf + 2, "%llu %llu %llu %llu %llu", &a, &b, &c, &d, &e) == 5) { st.evals += a; st.nontrivial_total += b; st.transitions += c; st.pruned += d; st.validated += e; }
        else if (buf[0] == 'D' && sscanf(buf + 2, "%llx", &a) == 1) st.distinct.insert(a);
        else if (buf[0] == 'S' && sscanf(buf + 2, "%llx", &a) == 1) st.states.insert(a);
        else if (buf[0] == 'O') { char* p; a = strtoull(buf + 2, &p, 10); std::string n(p + 1); if (!n.empty() && n.back() == '\n') n.pop_back(); st.outcome[n] += a; }
        else if (buf[0] == 'X') { std::string n(buf + 2); if (!n.empty() && n.back() == '\n') n.pop_back(); st.samples.push_back(n); }
    }
    fclose(f);
}

inline void appendViol(const std::string& file, const Violation& v) {
    int fd = open(file.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0600);
    std::string l = "{\"kind\":" + jesc(v.kind) + ",\"key\":" + jesc(v.key) + ",\"msg\":" + jesc(v.msg.substr(0, 3000)) + ",\"note\":" + jesc(v.note.substr(0, 3000)) + ",\"path\":" + jvec(v.path) + "}\n";
    if (write(fd, l.data(), l.size()) < 0) {}
    close(fd);
}

inline bool advance(Ctx& c) {         // next path in DFS order; false when exhausted
    c.path.resize(std::min(c.path.size(), c.pos)); c.width.resize(c.path.size());
    while (!c.path.empty()) {
        if (c.path.back() + 1 < c.width.back()) { c.path.back()++; return true; }
        c.path.pop_back(); c.width.pop_back();
    }
    return false;
}

inline void quietStderr(bool q) {
    if (!q) return;
    static std::ofstream* nul = nullptr; (void)nul;
    std::cerr.setstate(std::ios_base::failbit);
    std::cout.setstate(std::ios_base::failbit);
}

// runs one execution on ctx (path preset); returns true if a violation was thrown
inline bool runOne(const Options& o, Ctx& c, Violation& v) {
    c.pos = 0; c.log.clear(); c.settled = false;
    if (c.shm) { c.shm->n = 0; c.shm->key[0] = 0; c.shm->note[0] = 0; c.shm->noteLen = 0; c.shm->limit_s = o.limit_s; c.shm->beat = c.shm->beat + 1; }
    c.width.resize(c.path.size());
    try { o.fn(c); c.st->evals++; }
    catch (Prune&) { c.st->pruned++; return false; }
    catch (Fail& f) { c.st->evals++; v.kind = "property"; v.key = f.key; v.msg = f.msg; v.note = c.log; v.path.assign(c.path.begin(), c.path.begin() + c.pos); return true; }
    catch (std::exception& e) { c.st->evals++; v.kind = "exception"; v.key = std::string("uncaught:") + (c.shm ? c.shm->key : ""); v.msg = std::string("exception escaped the library: ") + e.what(); v.note = c.log; v.path.assign(c.path.begin(), c.path.begin() + c.pos); return true; }
    return false;
}

inline void worker(const Options& o, Ctx& c, const std::string& outdir, int gen, bool skipFirst) {
    std::string vf = outdir + fmt("/viol.%d", c.shard);
    std::map<std::string, int> seen;
    bool more = true;
    static Ctx* gc; static std::string gfile; gc = &c; gfile = outdir + fmt("/stat.%d.%d", c.shard, gen);
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback([]() { if (gc) { dumpStats(*gc->st, gfile); gc->shm->evals = 0; } });
    // UBSan (abort_on_error=1) and std::terminate end in SIGABRT: keep the statistics first
    signal(SIGABRT, [](int) { if (gc) { dumpStats(*gc->st, gfile); gc->shm->evals = 0; } _exit(98); });
    if (skipFirst) { c.pos = c.path.size(); more = advance(c); }
    uint64_t sampleAt = 1;
    size_t nkeys = 0;
    while (more) {
        Violation v;
        if (runOne(o, c, v)) {
            int& k = seen[v.kind + v.key];
            if (k == 0) nkeys++;
            if (k++ < o.perKey) appendViol(vf, v);
            if (nkeys > o.maxViol) { c.st->outcome["stopped: too many distinct violations"]++; break; }
        } else if (c.st->evals == sampleAt && c.st->samples.size() < 6 && !c.log.empty()) { c.st->samples.push_back(c.log.substr(0, 400)); sampleAt = sampleAt * 7 + 3; }
        if (c.shm) { c.shm->evals = c.st->evals; }
        more = advance(c);
    }
    dumpStats(*c.st, gfile); gc = nullptr;
}

inline int mainLoop(int argc, char** argv, Options o) {
    std::string out = "/tmp/mc.out", scratchBase, rep; int jobs = 8; bool thorough = false; int only = -1; double budget = 1e18;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--out") out = argv[++i];
        else if (a == "--jobs") jobs = atoi(argv[++i]);
        else if (a == "--thorough") thorough = true;
        else if (a == "--scratch") scratchBase = argv[++i];
        else if (a == "--replay") rep = argv[++i];
        else if (a == "--limit") o.limit_s = atoi(argv[++i]);
        else if (a == "--verbose") o.quiet = false;
        else if (a == "--only") only = atoi(argv[++i]);
        else if (a == "--budget") budget = atof(argv[++i]);
    }
    if (scratchBase.empty()) { char t[] = "/tmp/mc.XXXXXX"; scratchBase = mkdtemp(t); }
    mkdir(scratchBase.c_str(), 0700);
    mkdir(out.c_str(), 0700);
    if (!rep.empty() || (argc > 1 && std::string(argv[argc - 1]) == "--replay")) {
        Stats st; Ctx c; c.st = &st; c.replay = true; c.thorough = thorough;
        if (rep != "-") c.path = parseVec(rep);
        c.scratch = scratchBase + "/replay"; mkdir(c.scratch.c_str(), 0700);
        static Shm sh; c.shm = &sh; sh.limit_s = o.limit_s;
        quietStderr(o.quiet);
        alarm(o.limit_s);
        Violation v;
        bool bad = runOne(o, c, v);
        printf("REPLAY %s\n", bad ? "FAIL" : "OK");
        printf("LOG %s\n", c.log.c_str());
        if (bad) printf("KEY %s\nMSG %s\n", v.key.c_str(), v.msg.c_str());
        for (auto& x : st.outcome) printf("OUTCOME %s\n", x.first.c_str());
        fflush(stdout);
        return bad ? 3 : 0;
    }
    // supervisor
    Shm* shm = (Shm*)mmap(nullptr, sizeof(Shm) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> pid(jobs, 0); std::vector<int> gen(jobs, 0), crashes(jobs, 0), hangs(jobs, 0);
    std::vector<double> lastT(jobs, 0); std::vector<uint64_t> lastBeat(jobs, 0);
    std::vector<bool> done(jobs, false);
    std::vector<std::vector<int>> resume(jobs), resumeW(jobs);
    std::map<std::string, int> crashKeys;
    double t0 = now(); bool complete = true;
    auto spawn = [&](int s, bool skipFirst) {
        fflush(stdout);
        shm[s].limit_s = o.limit_s + 20;
        pid_t p = fork();
        if (p == 0) {
            std::string err = out + fmt("/stderr.%d", s);
            int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600); dup2(fd, 2);
            Stats st; Ctx c; c.st = &st; c.shm = &shm[s]; c.shard = s; c.nshards = jobs; c.splitDepth = o.splitDepth; c.thorough = thorough;
            c.path = resume[s]; c.width = resumeW[s];
            c.scratch = scratchBase + fmt("/w%d", s); mkdir(c.scratch.c_str(), 0700);
            quietStderr(o.quiet);
            worker(o, c, out, gen[s], skipFirst);
            _exit(0);
        }
        pid[s] = p; lastT[s] = now(); lastBeat[s] = shm[s].beat;
    };
    for (int s = 0; s < jobs; s++) { if (only >= 0 && s != only) { done[s] = true; continue; } spawn(s, false); }
    uint64_t crashEvals = 0;
    for (;;) {
        bool all = true;
        for (int s = 0; s < jobs; s++) if (!done[s]) all = false;
        if (all) break;
        int stt; pid_t p = waitpid(-1, &stt, WNOHANG);
        double t = now();
        if (p <= 0) {
            for (int s = 0; s < jobs; s++) if (!done[s]) {
                if (shm[s].beat != lastBeat[s]) { lastBeat[s] = shm[s].beat; lastT[s] = t; }
                else if (t - lastT[s] > shm[s].limit_s) { kill(pid[s], SIGKILL); lastT[s] = t + 1000; shm[s].limit_s = -7; }
            }
            if (t - t0 > budget) { complete = false; for (int s = 0; s < jobs; s++) if (!done[s]) { kill(pid[s], SIGKILL); waitpid(pid[s], &stt, 0); done[s] = true; crashEvals += shm[s].evals; } break; }
            usleep(3000); continue;
        }
        for (int s = 0; s < jobs; s++) if (pid[s] == p && !done[s]) {
            if (WIFEXITED(stt) && WEXITSTATUS(stt) == 0) { done[s] = true; break; }
            if (WIFEXITED(stt) && WEXITSTATUS(stt) == 77) { fprintf(stdout, "ENGINE nondeterministic\n"); return 77; }
            // crash or hang in execution shm[s].c[0..n)
            Violation v; int n = shm[s].n;
            v.path.assign(shm[s].c, shm[s].c + std::min(n, MAXC));
            bool hang = shm[s].limit_s == -7;
            v.kind = hang ? "hang" : "crash";
            v.key = std::string(hang ? "hang:" : "crash:") + shm[s].key;
            v.note = shm[s].note;
            std::string err; { FILE* f = fopen((out + fmt("/stderr.%d", s)).c_str(), "r"); if (f) { std::vector<char> b(60000); size_t k = fread(b.data(), 1, b.size(), f); err.assign(b.data(), k); fclose(f); } }
            std::string sum; { size_t q = err.find("SUMMARY:"); if (q != std::string::npos) sum = err.substr(q, err.find('\n', q) - q); else { q = err.find("runtime error:"); if (q != std::string::npos) { size_t b = err.rfind('\n', q); b = b == std::string::npos ? 0 : b + 1; sum = err.substr(b, err.find('\n', q) - b); } } }
            v.msg = hang ? fmt("execution did not finish within its limit") : fmt("terminated (status 0x%x) %s", stt, sum.c_str()) + "\n" + err.substr(0, 2500);
            int& k = crashKeys[v.key + sum];
            if (k++ < o.perKey) appendViol(out + fmt("/viol.%d", s), v);
            crashEvals += shm[s].evals + 1;
            resume[s] = v.path; resumeW[s].assign(shm[s].w, shm[s].w + std::min(n, MAXC)); gen[s]++;
            static const int cap = getenv("MC_CRASHES") ? atoi(getenv("MC_CRASHES")) : 40; if (hang) hangs[s]++;
            if (++crashes[s] > cap || hangs[s] > 4) { done[s] = true; complete = false; fprintf(stdout, "NOTE shard %d stopped after too many crashes\n", s); break; }
            shm[s].evals = 0;
            spawn(s, true);
            break;
        }
    }
    Stats tot;
    for (int s = 0; s < jobs; s++) for (int g = 0; g <= gen[s]; g++) loadStats(tot, out + fmt("/stat.%d.%d", s, g));
    FILE* f = fopen((out + "/summary.json").c_str(), "w");
    fprintf(f, "{\"evaluations\":%llu,\"lost_to_crashes\":%llu,\"distinct_nontrivial\":%llu,\"states\":%llu,\"transitions\":%llu,\"validated\":%llu,\"complete\":%s,\"wall\":%.2f,\"outcomes\":{",
            (unsigned long long)(tot.evals), (unsigned long long)crashEvals, (unsigned long long)tot.distinct.size(), (unsigned long long)tot.states.size(), (unsigned long long)tot.transitions, (unsigned long long)tot.validated, complete ? "true" : "false", now() - t0);
    bool first = true;
    for (auto& x : tot.outcome) { fprintf(f, "%s%s:%llu", first ? "" : ",", jesc(x.first).c_str(), (unsigned long long)x.second); first = false; }
    fprintf(f, "},\"samples\":["); first = true; size_t ns = 0;
    for (auto& x : tot.samples) { if (ns++ > 12) break; fprintf(f, "%s%s", first ? "" : ",", jesc(x).c_str()); first = false; }
    fprintf(f, "]}\n"); fclose(f);
    return 0;
}

} // namespace mc

#define MC_MAIN(fn_, split_, limit_)                                                     \
    int main(int argc, char** argv) {                                                    \
        mc::Options o; o.fn = fn_; o.splitDepth = split_; o.limit_s = limit_;            \
        return mc::mainLoop(argc, argv, o);                                              \
    }
