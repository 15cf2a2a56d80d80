// A small stateless model checker: exhaustive depth-first exploration of the tree of choices that a
// harness makes through Ctx::choose(), with worker processes, crash/hang containment and exact replay.
//
//   * an *execution* is one run of a scenario; its identity is the list of choices it made;
//   * every execution of the bounded space is run exactly once (workers claim disjoint subtrees);
//   * a violation, a crash (signal, sanitizer report, uncaught exception) or a hang is recorded with the
//     choice trace, which replays it exactly:   <harness> --replay <scenario> <c0,c1,...>
//   * distinct states are counted exactly in a shared table of 64-bit fingerprints.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <atomic>
#include <functional>
#include <set>
#include <sstream>
#include <string>
#include <typeinfo>
#include <vector>
#include <chrono>
#include <exception>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>

namespace mc {
struct Prune {};                       // this execution is outside the space (not counted)
struct Skip {};                        // subtree owned by another worker
struct Violated { std::string key, msg; };

inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32; return h ? h : 1; }
inline uint64_t hash(const std::string& s, uint64_t h = 1469598103934665603ull) { return hash_bytes(s.data(), s.size(), h); }

static const int MAXTRACE = 8192, MAXKEY = 600, MAXNOTE = 6000, MAXVIOL = 40;
struct Viol { char key[MAXKEY]; char msg[3000]; int len; int trace[1024]; int kind; };
struct WShared {
    std::atomic<long> beat, execs, trans, valid, evals, pruned; std::atomic<int> done; long prefix; long myprefix;
    int len; int trace[MAXTRACE]; int width[MAXTRACE]; char key[MAXKEY]; int nviol; Viol viol[MAXVIOL]; char note[MAXNOTE]; int nsamp; char samp[4][MAXNOTE];
    std::atomic<int> phase_off; // nonzero: the watchdog is suspended
    std::atomic<long> limit_ms; // per-execution limit override
};
static const uint64_t TBL = 1ull << 24; static const long CLAIMS = 1l << 23;
struct Shared { std::atomic<uint64_t> nstates; std::atomic<int> full; std::atomic<int> stop; std::atomic<uint64_t> tbl[TBL]; std::atomic<uint8_t> claim[CLAIMS]; std::atomic<long> claimsover; };

struct Opt { bool thorough = false; int workers = 8; double budget = 0; long timeout_ms = 10000; std::string out; long memlimit_mb = 3000; int deviations = -1; /* at most so many choices differ from the first alternative */ };

class Ctx {
  public:
    bool thorough = false; bool replay = false; std::string tag; const Opt* opt = nullptr;
    WShared* w = nullptr; Shared* sh = nullptr; int depth = 3;
    std::vector<int> trace, width; size_t pos = 0; bool claimed = false;
    std::ostringstream notes;
    int choose(int n, const char* = "") {
        if (n <= 0) throw Prune{};
        int c;
        if (pos < trace.size()) { c = trace[pos]; width[pos] = n; if (c >= n) { if (replay) throw Prune{}; fprintf(stderr, "mc: nondeterministic harness: choice %zu has %d options, wanted %d\n", pos, n, c); throw Violated{"nondeterminism", "the harness did not replay: a choice had fewer options than before"}; } }
        else { c = 0; trace.push_back(0); width.push_back(n); }
        if (!replay && opt && opt->deviations >= 0) { int k = 0; for (size_t i = 0; i < pos; i++) k += trace[i] != 0; if (k >= opt->deviations) n = 1; width[pos] = n; }
        if (w && pos < (size_t)MAXTRACE) { w->trace[pos] = c; w->width[pos] = n; w->len = (int)pos + 1; }
        pos++;
        if (!replay && (int)pos == depth) claim();
        return c;
    }
    bool flip(const char* l = "") { return choose(2, l) == 1; }
    template<class T> const T& pick(const std::vector<T>& v, const char* l = "") { return v[choose((int)v.size(), l)]; }
    void claim() {
        if (claimed) return;
        long idx = ++w->prefix;
        if (idx >= CLAIMS) { sh->claimsover++; idx = idx % CLAIMS; }
        if (w->myprefix == w->prefix) { claimed = true; return; }
        uint8_t z = 0; if (!sh->claim[idx].compare_exchange_strong(z, 1)) throw Skip{};
        w->myprefix = w->prefix; claimed = true;
    }
    void state(uint64_t h) {
        if (!sh) return; if (!h) h = 1; uint64_t i = (h * 0x9E3779B97F4A7C15ull) >> 40; // 24 bits
        for (int probe = 0; probe < 256; probe++, i = (i + 1) & (TBL - 1)) { uint64_t v = sh->tbl[i].load(std::memory_order_relaxed); if (v == h) return;
            if (v == 0) { uint64_t z = 0; if (sh->tbl[i].compare_exchange_strong(z, h)) { sh->nstates++; return; } if (z == h) return; } }
        sh->full = 1;
    }
    void state(const std::string& s) { state(hash(s)); }
    void step(long n = 1) { if (w) w->trans += n; }
    void validated(long n = 1) { if (w) w->valid += n; }
    void evals(long n = 1) { if (w) w->evals += n; }
    void beat() { if (w) w->beat++; }
    // what is being tried (identifies a crash or a hang; known findings are matched on it)
    void key(const std::string& k) { tag = k; if (w) { strncpy(w->key, k.c_str(), MAXKEY - 1); w->key[MAXKEY - 1] = 0; } }
    void note(const std::string& s) { if (notes.tellp() < MAXNOTE - 200) notes << s << "\n"; if (replay) { printf("  %s\n", s.c_str()); fflush(stdout); } else if (w) { size_t l = strlen(w->note); if (l + s.size() + 2 < (size_t)MAXNOTE) { memcpy(w->note + l, s.data(), s.size()); w->note[l + s.size()] = '\n'; w->note[l + s.size() + 1] = 0; } } }
    [[noreturn]] void fail(const std::string& key, const std::string& msg) { throw Violated{key, msg}; }
    void check(bool ok, const std::string& key, const std::string& msg) { if (!ok) fail(key, msg); }
    void prune() { throw Prune{}; }
};

struct Scenario { std::string name; std::function<void(Ctx&)> fn; int depth = 3; long timeout_ms = 0; };

inline std::string jesc(const std::string& s) { std::string o; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c >= 127) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
inline std::string show(const std::string& s) { std::string o = "\""; char b[8]; for (unsigned char c : s) { if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c == '\r') o += "\\r"; else if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c >= 127) { snprintf(b, 8, "\\x%02x", c); o += b; } else o += c; } return o + "\""; }

inline double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

inline void put_viol(WShared* w, const std::string& key, const std::string& msg, const int* tr, int len, int kind) {
    for (int i = 0; i < w->nviol; i++) if (key.substr(0, MAXKEY - 1) == w->viol[i].key) return;
    if (w->nviol >= MAXVIOL) return; Viol& v = w->viol[w->nviol];
    strncpy(v.key, key.c_str(), MAXKEY - 1); v.key[MAXKEY - 1] = 0; strncpy(v.msg, msg.c_str(), 2999); v.msg[2999] = 0;
    v.len = len < 1024 ? len : 1024; memcpy(v.trace, tr, v.len * sizeof(int)); v.kind = kind; w->nviol++;
}

// returns 0 ok, 1 violated
inline int run_one(Ctx& c, const Scenario& s, std::string& key, std::string& msg) {
    c.pos = 0; c.claimed = false; c.notes.str(""); c.tag.clear(); if (c.w) { c.w->key[0] = 0; c.w->len = 0; c.w->note[0] = 0; c.w->beat++; }
    try { s.fn(c); return 0; }
    catch (Violated& v) { key = v.key; msg = v.msg; return 1; }
    catch (Prune&) { return 2; } catch (Skip&) { return 3; }
    catch (std::exception& e) { key = c.tag + "|exception"; msg = std::string("uncaught exception ") + typeid(e).name() + ": " + e.what(); return 1; }
    catch (...) { key = c.tag + "|exception"; msg = "uncaught exception of an unknown type"; return 1; }
}

inline void worker(const Scenario& s, const Opt& o, WShared* w, Shared* sh, std::vector<int> start, bool restarted, double deadline) {
    Ctx c; c.opt = &o; c.thorough = o.thorough; c.w = w; c.sh = sh; c.depth = s.depth; c.trace = start; c.width.assign(start.size(), 0);
    if (restarted) { // recover the widths of the prefix from shared memory
        for (size_t i = 0; i < start.size(); i++) c.width[i] = w->width[i]; }
    bool first = true;
    for (;;) {
        if (!(first && !restarted)) {
            // advance to the next trace
            size_t n = c.pos; if (first && restarted) n = c.trace.size();
            c.trace.resize(n); c.width.resize(n);
            while (!c.trace.empty() && c.trace.back() + 1 >= c.width.back()) { c.trace.pop_back(); c.width.pop_back(); }
            if (c.trace.empty()) break;
            c.trace.back()++;
            // when the position that changed lies above the claim depth, the prefix changes; otherwise we stay inside it
            if ((int)c.trace.size() > s.depth || (first && restarted && false)) { w->prefix--; }  // claim() will re-count the same prefix
        }
        first = false;
        if (sh->stop || (deadline > 0 && now() > deadline)) { sh->stop = 1; break; }
        std::string key, msg; int r = run_one(c, s, key, msg);
        if (r != 3 && !c.claimed) { // the execution ended above the claim depth
            try { c.claim(); } catch (Skip&) { continue; } }
        if (r == 3) continue;
        if (r == 2) { w->pruned++; continue; }
        w->execs++;
        long e = w->execs; if (w->nsamp < 4 && (e == 1 || e == 7 || e == 211 || e == 5003)) { std::string t = c.notes.str(); strncpy(w->samp[w->nsamp], t.c_str(), MAXNOTE - 1); w->nsamp++; }
        if (r == 1) { if (!c.notes.str().empty()) msg += "\n" + c.notes.str(); put_viol(w, key, msg, c.trace.data(), (int)c.pos, 0); if (w->nviol >= MAXVIOL) { sh->stop = 1; break; } }
    }
    w->done = 1;
}

inline std::string tail_of(const std::string& f) {
    FILE* p = fopen(f.c_str(), "r"); if (!p) return ""; std::string all; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) { all.append(b, n); if (all.size() > 4000000) all.erase(0, all.size() - 2000000); } fclose(p);
    size_t q = all.find("ERROR: "); size_t q2 = all.find("runtime error: "); if (q2 < q) q = q2; if (q != std::string::npos) { size_t st = q > 120 ? q - 120 : 0; return all.substr(st, 900); }
    return all.size() > 500 ? all.substr(all.size() - 500) : all;
}

// monitor mode: what is done with each execution of a scenario instead of just running it
inline std::function<void(Ctx&, const std::function<void(Ctx&)>&)> g_monitor;
inline int main_(int argc, char** argv, const std::string& prop, std::vector<Scenario> sc) {
    if (g_monitor) for (auto& s : sc) { auto f = s.fn; s.fn = [f](Ctx& c) { g_monitor(c, f); }; }
    Opt o; std::vector<std::string> only; std::string logdir = "/tmp"; 
    for (int i = 1; i < argc; i++) { std::string a = argv[i];
        if (a == "--thorough") o.thorough = true; else if (a == "--workers") o.workers = atoi(argv[++i]); else if (a == "--budget") o.budget = atof(argv[++i]);
        else if (a == "--out") o.out = argv[++i]; else if (a == "--only") only.push_back(argv[++i]); else if (a == "--timeout") o.timeout_ms = atol(argv[++i]); else if (a == "--logdir") logdir = argv[++i];
        else if (a == "--deviations") o.deviations = atoi(argv[++i]);
        else if (a == "--mem") o.memlimit_mb = atol(argv[++i]);
        else if (a == "--replay") { std::string n = argv[++i], t = i + 1 < argc ? argv[i + 1] : ""; i++;
            for (auto& s : sc) if (s.name == n) { Ctx c; c.opt = &o; c.thorough = o.thorough; c.replay = true; std::stringstream ss(t); std::string x; while (std::getline(ss, x, ',')) if (!x.empty()) c.trace.push_back(atoi(x.c_str())); c.width.assign(c.trace.size(), 0);
                std::string k, m; int r = run_one(c, s, k, m); if (r == 1) { printf("VIOLATED key=%s\n%s\n", k.c_str(), m.c_str()); return 1; } printf(r == 2 ? "PRUNED\n" : "OK\n"); return 0; }
            printf("no such scenario\n"); return 2; }
    }
    bool asan = false;
#if defined(__SANITIZE_ADDRESS__)
    asan = true;
#endif
    if (!asan) { rlimit rl; rl.rlim_cur = rl.rlim_max = (rlim_t)o.memlimit_mb << 20; setrlimit(RLIMIT_DATA, &rl); }
    { rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl); }
    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED) { perror("mmap"); return 2; }
    std::ostringstream js; js << "{\"property\":\"" << prop << "\",\"scenarios\":["; bool anyviol = false, firsts = true; long tot_states0 = 0;
    double t_end = o.budget > 0 ? now() + o.budget : 0; size_t left = 0; for (auto& s : sc) if (only.empty() || std::find(only.begin(), only.end(), s.name) != only.end()) left++;
    for (auto& s : sc) {
        if (!only.empty() && std::find(only.begin(), only.end(), s.name) == only.end()) continue;
        double t0 = now(); long tmo = s.timeout_ms ? s.timeout_ms : o.timeout_ms;
        double deadline = 0; if (t_end > 0) { double rem = t_end - t0; deadline = t0 + (rem > 0 ? rem / left * 1.0 : 0.01); if (left == 1) deadline = t_end; } left--;
        int W = o.workers; WShared* ws = (WShared*)mmap(nullptr, sizeof(WShared) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        memset((void*)sh->claim, 0, sizeof sh->claim); sh->stop = 0; sh->claimsover = 0;
        std::vector<pid_t> pid(W, 0); std::vector<long> lastbeat(W, -1); std::vector<double> lastt(W, 0); std::vector<int> crashes(W, 0);
        long ppid_ = getpid(); auto lf = [&, ppid_](int k) { return logdir + "/mc_w" + std::to_string(ppid_) + "_" + std::to_string(k) + ".log"; };
        auto launch = [&](int k, std::vector<int> start, bool re) { fflush(stdout); pid_t p = fork(); if (p == 0) { int fd = open(lf(k).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 2); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); setpgid(0, 0);
                worker(s, o, &ws[k], sh, start, re, deadline); _exit(0); } pid[k] = p; lastbeat[k] = -1; lastt[k] = now(); };
        for (int k = 0; k < W; k++) { ws[k].myprefix = -1; launch(k, {}, false); }
        int alive = W; int ncrash = 0, nhang = 0;
        while (alive > 0) {
            usleep(5000);
            for (int k = 0; k < W; k++) if (pid[k]) {
                int st; pid_t r = waitpid(pid[k], &st, WNOHANG); bool hang = false;
                if (r == 0) { long b = ws[k].beat; if (b != lastbeat[k]) { lastbeat[k] = b; lastt[k] = now(); }
                    else if (now() - lastt[k] > tmo / 1000.0) { kill(-pid[k], SIGKILL); kill(pid[k], SIGKILL); waitpid(pid[k], &st, 0); hang = true; r = pid[k]; } else continue; }
                if (r == pid[k]) {
                    if (ws[k].done && !hang) { pid[k] = 0; alive--; continue; }
                    // crash or hang: record it and go on behind it
                    std::string msg; char b[120];
                    if (hang) { snprintf(b, sizeof b, "no result within %.1f s (hang)", tmo / 1000.0); msg = b; }
                    else if (WIFSIGNALED(st)) { snprintf(b, sizeof b, "the process died with signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); msg = b; }
                    else { snprintf(b, sizeof b, "the process exited with status %d", WEXITSTATUS(st)); msg = b; }
                    msg += "\n" + std::string(ws[k].note) + "\n" + tail_of(lf(k));
                    int len = ws[k].len; std::string key = ws[k].key[0] ? std::string(ws[k].key) + (hang ? "|hang" : "|crash") : std::string(hang ? "hang" : "crash");
                    put_viol(&ws[k], key, msg, ws[k].trace, len, hang ? 2 : 1); ws[k].execs++; ncrash++; nhang += hang;
                    std::vector<int> tr(ws[k].trace, ws[k].trace + len);
                    if (ncrash >= 40 || nhang >= 6 || ws[k].nviol >= MAXVIOL || tr.empty()) { sh->stop = 1; ws[k].done = 1; pid[k] = 0; alive--; if (tr.empty() || true) continue; }
                    launch(k, tr, true);
                } } }
        long ex = 0, trn = 0, val = 0, ev = 0, pr = 0; for (int k = 0; k < W; k++) { ex += ws[k].execs; trn += ws[k].trans; val += ws[k].valid; ev += ws[k].evals; pr += ws[k].pruned; unlink(lf(k).c_str()); }
        long st = (long)sh->nstates.load() - tot_states0; tot_states0 = sh->nstates.load();
        js << (firsts ? "" : ",") << "{\"name\":\"" << s.name << "\",\"executions\":" << ex << ",\"transitions\":" << trn << ",\"validated\":" << val << ",\"evaluations\":" << ev << ",\"pruned\":" << pr << ",\"states\":" << st
           << ",\"states_saturated\":" << (sh->full.load() ? "true" : "false") << ",\"complete\":" << ((sh->stop || sh->claimsover) ? "false" : "true") << ",\"wall_s\":" << (now() - t0) << ",\"samples\":["; firsts = false; int ns = 0;
        std::set<std::string> sseen; for (int q = 0; q < 4 && ns < 4; q++) for (int k = 0; k < W && ns < 4; k++) if (q < ws[k].nsamp && ws[k].samp[q][0] && sseen.insert(ws[k].samp[q]).second) { js << (ns++ ? "," : "") << "\"" << jesc(std::string(ws[k].samp[q]).substr(0, 1500)) << "\""; }
        js << "],\"violations\":["; std::set<std::string> seen; bool f2 = true;
        for (int k = 0; k < W; k++) for (int v = 0; v < ws[k].nviol; v++) { Viol& x = ws[k].viol[v]; if (!seen.insert(x.key).second) continue; anyviol = true; js << (f2 ? "" : ",") << "{\"kind\":" << x.kind << ",\"key\":\"" << jesc(x.key) << "\",\"msg\":\"" << jesc(x.msg) << "\",\"trace\":\""; f2 = false; for (int q = 0; q < x.len; q++) js << (q ? "," : "") << x.trace[q]; js << "\"}"; }
        js << "]}"; munmap(ws, sizeof(WShared) * W);
        printf("  %-28s executions %-9ld states %-9ld transitions %-10ld %s%s %.1fs violations %zu\n", s.name.c_str(), ex, st, trn, (sh->stop || sh->claimsover) ? "INCOMPLETE" : "complete", sh->full ? " (state table saturated)" : "", now() - t0, seen.size()); fflush(stdout);
    }
    js << "]}\n"; if (!o.out.empty()) { FILE* f = fopen(o.out.c_str(), "w"); fputs(js.str().c_str(), f); fclose(f); }
    return anyviol ? 1 : 0;
}
}
#include <algorithm>
#endif
