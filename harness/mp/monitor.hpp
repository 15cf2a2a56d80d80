// Schedule monitor: with MC_MONITOR, every execution of an explorer is run with its parallel loops watched for unordered conflicting
// accesses, and run again under other schedules; what it finds must not depend on the schedule.
#pragma once
#include "race.h"
#include <algorithm>
#include <dlfcn.h>
namespace mp { namespace watch {
typedef std::vector<std::pair<std::string, std::vector<double>>> Captured;
inline Captured* g_capture = nullptr; inline long g_epoch = 0;
inline std::string where(const void* pc) { static std::map<const void*, std::string> memo; auto it = memo.find(pc); if (it != memo.end()) return it->second; char exe[512]; ssize_t l = readlink("/proc/self/exe", exe, 511); if (l <= 0) return "?"; exe[l] = 0; char cmd[700]; uintptr_t off = (uintptr_t)pc - 1; Dl_info i; if (dladdr(pc, &i) && i.dli_fbase && (uintptr_t)i.dli_fbase > 0x400000) off -= (uintptr_t)i.dli_fbase;
    snprintf(cmd, sizeof cmd, "addr2line -i -s -e %s 0x%lx 2>/dev/null", exe, (unsigned long)off); std::string out; if (FILE* p = popen(cmd, "r")) { char b[300]; while (fgets(b, 300, p)) { std::string s = b; while (!s.empty() && (s.back() == '\n' || s.back() == ' ')) s.pop_back(); auto q = s.find(" (disc"); if (q != std::string::npos) s.resize(q); if (s.find("matar.h") == std::string::npos && s.find("stl_") == std::string::npos) { out = s; break; } if (out.empty()) out = s; } pclose(p); } return memo[pc] = out.empty() ? "?" : out; }
struct End { int kind = 0; std::string key, msg; };   // 0 passed, 1 violated, 2 pruned
inline End attempt(Ctx& c, const std::function<void(Ctx&)>& f) { End e; g_epoch++; try { f(c); } catch (Violated& v) { e.kind = 1; e.key = v.key; e.msg = v.msg; } catch (Prune&) { e.kind = 2; } return e; }
inline void permute3(std::vector<long>& p) { std::vector<long> q; long n = p.size(); for (long s = 0; s < 3; s++) for (long i = (s + 1) % 3; i < n; i += 3) q.push_back(p[i]); p = q; }
inline double g_tol = 1e-7;
inline std::string differ(const Captured& a, const Captured& b) { if (a.size() != b.size()) return "number of runs or arrays " + std::to_string(a.size()) + " and " + std::to_string(b.size());
    for (size_t i = 0; i < a.size(); i++) { if (a[i].second.size() != b[i].second.size()) return a[i].first + ": sizes " + std::to_string(a[i].second.size()) + " and " + std::to_string(b[i].second.size()); double s = 0; for (double d : a[i].second) if (std::isfinite(d)) s = std::max(s, std::fabs(d)); for (size_t k = 0; k < a[i].second.size(); k++) { double x = a[i].second[k], y = b[i].second[k]; if (std::isfinite(x) != std::isfinite(y) || (std::isfinite(x) && std::fabs(x - y) > g_tol * s + 1e-12)) return a[i].first + "[" + std::to_string(k) + "]: " + num(x) + " and " + num(y) + " (array up to " + num(s) + ")"; } } return ""; }
inline void monitor(Ctx& c, const std::function<void(Ctx&)>& f) {
    struct R { ~R() { race::g_on = false; race::stop(); g_capture = nullptr; mcshim::g_order = 0; mcshim::g_chunks = 1; mcshim::g_permute = nullptr; } } r_;
    Captured base; race::install(); race::reset(); race::g_on = true; g_capture = &base; End e0 = attempt(c, f); race::g_on = false; race::stop();
    if (race::g_races) { auto& r = race::g_found[0]; std::string a = where(r.pc), b = where(r.other); std::string m; for (size_t k = 0; k < race::g_found.size() && k < 3; k++) { auto& q = race::g_found[k]; c.beat(); m += std::string(q.write ? "\n  write " : "\n  read ") + where(q.pc) + " and " + (q.owrite ? "write " : "read ") + where(q.other) + " in two iterations of a loop of " + std::to_string(q.n); }
        throw Violated{"race|" + a + "|" + b, "iterations of a parallel loop use the same element without an order:" + m}; }
    if (race::g_lost) throw Violated{"monitor", "the table of accesses overflowed"};
    if (e0.kind == 2) throw Prune{};
    c.step(mcshim::g_loops); mcshim::g_loops = 0; c.evals(race::g_accesses);
    static const char* N[3] = {"backward", "in three partial results", "with a stride of three"};
    for (int s = 0; s < 3; s++) { Captured got; g_capture = &got; mcshim::g_order = s == 0 ? mcshim::Reverse : s == 2 ? mcshim::Hook : mcshim::Forward; mcshim::g_chunks = s == 1 ? 3 : 1; mcshim::g_permute = permute3; size_t p = c.pos; c.pos = 0; End e = attempt(c, f); g_capture = nullptr;
        if (e.kind == 2) { c.pos = p; continue; }
        if (e.kind != e0.kind) throw Violated{"outcome differs", std::string("loops executed forward: ") + (e0.kind ? "fails: " + e0.key + ": " + e0.msg : "passes") + "; executed " + N[s] + ": " + (e.kind ? "fails: " + e.key + ": " + e.msg : "passes")};
        if (e.kind == 0) { std::string d = differ(base, got); if (!d.empty()) throw Violated{"state differs", std::string("loops executed forward and ") + N[s] + " end in different states: " + d}; }
        c.pos = p; c.validated(); }
}
template<class A> inline void grab(const char* name, A& a) { if (a.size() == 0) return; std::vector<double> v(a.size()); for (size_t i = 0; i < v.size(); i++) v[i] = (double)a.pointer()[i]; g_capture->push_back({name, v}); }
} using watch::g_capture; using watch::grab; using watch::g_epoch;
struct InstallMonitor { InstallMonitor() { mc::g_monitor = watch::monitor; } };
static InstallMonitor g_installMonitor;
}
