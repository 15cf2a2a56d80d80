// Coherence monitor: with MC_SEPARATE, every execution of an explorer is run with one copy of each array and again with separate host
// and device copies, as on a GPU; a forgotten update shows as a different outcome, state or output file.
#pragma once
#include <algorithm>
namespace mp { namespace watch {
typedef std::vector<std::pair<std::string, std::vector<double>>> Captured;
inline Captured* g_capture = nullptr; inline long g_epoch = 0; inline std::map<std::string, std::string>* g_files = nullptr;
struct End { int kind = 0; std::string key, msg; };
inline End attempt(Ctx& c, const std::function<void(Ctx&)>& f) { End e; g_epoch++; try { f(c); } catch (Violated& v) { e.kind = 1; e.key = v.key; e.msg = v.msg; } catch (Prune&) { e.kind = 2; } return e; }
inline std::string differ(const Captured& a, const Captured& b) { if (a.size() != b.size()) return "number of runs or arrays " + std::to_string(a.size()) + " and " + std::to_string(b.size());
    for (size_t i = 0; i < a.size(); i++) { if (a[i].second.size() != b[i].second.size()) return a[i].first + ": sizes " + std::to_string(a[i].second.size()) + " and " + std::to_string(b[i].second.size()); for (size_t k = 0; k < a[i].second.size(); k++) { double x = a[i].second[k], y = b[i].second[k]; if (x != y && !(std::isnan(x) && std::isnan(y))) return a[i].first + "[" + std::to_string(k) + "]: " + num(x) + " and " + num(y); } } return ""; }
inline void monitor(Ctx& c, const std::function<void(Ctx&)>& f) {
    struct R { ~R() { mcshim::g_separate = true; g_capture = nullptr; g_files = nullptr; } } r_;
    Captured one, two; std::map<std::string, std::string> f1, f2; mcshim::g_separate = false; g_capture = &one; g_files = &f1; End a = attempt(c, f);
    if (a.kind == 2) throw Prune{};
    mcshim::g_separate = true; g_capture = &two; g_files = &f2; c.pos = 0; End b = attempt(c, f); g_capture = nullptr; g_files = nullptr;
    c.step(mcshim::g_loops); mcshim::g_loops = 0; c.validated();
    if (a.kind != b.kind) throw Violated{"outcome differs", std::string("with one copy of each array: ") + (a.kind ? "fails: " + a.key + ": " + a.msg : "passes") + "; with separate host and device copies: " + (b.kind == 1 ? "fails: " + b.msg + "\nin " + b.key : b.kind ? "left out" : "passes")};
    if (a.kind) return;
    std::string d = differ(one, two); if (!d.empty()) throw Violated{"state differs", "one copy and separate copies of the arrays end in different states: " + d};
    for (auto& q : f1) { auto it = f2.find(q.first); if (it == f2.end()) throw Violated{"output differs", "no file " + q.first + " with separate copies of the arrays"}; if (it->second != q.second) { size_t k = 0; while (k < q.second.size() && k < it->second.size() && q.second[k] == it->second[k]) k++; size_t o = k > 60 ? k - 60 : 0; throw Violated{"output differs", "file " + q.first + " differs: one copy ..." + q.second.substr(o, 120) + "... separate copies ..." + it->second.substr(o, 120)}; } c.evals(); }
    if (f1.size() != f2.size()) throw Violated{"output differs", "other files with separate copies of the arrays"};
}
template<class A> inline void grab(const char* name, A& a) { if (a.size() == 0) return; std::vector<double> v(a.size()); for (size_t i = 0; i < v.size(); i++) v[i] = (double)a.pointer()[i]; g_capture->push_back({name, v}); }
inline void files() { if (!g_files) return; std::error_code e; for (auto& p : std::filesystem::recursive_directory_iterator(scratch(), e)) if (p.is_regular_file()) (*g_files)[std::to_string(g_capture ? g_capture->size() : 0) + p.path().string().substr(scratch().size())] = get(p.path().string()); }
} using watch::g_capture; using watch::grab; using watch::g_epoch;
struct InstallMonitor { InstallMonitor() { mc::g_monitor = watch::monitor; } };
static InstallMonitor g_installMonitor;
}
