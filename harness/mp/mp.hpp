// Common parts of the explorers of apps/multiphysics: silence, containment of exit() and of failures, scratch files, decks.
#pragma once
#include "mc.hpp"
#include <cmath>
#include <fstream>
#include <filesystem>
#include <iostream>
#include <map>
#include <memory>
#include <numeric>
#include <setjmp.h>
#include "matar.h"
#include "mcshim.h"
#include "ELEMENTS.h"
#include "Yaml.hpp"
#include "simulation_parameters.hpp"
#include "state.hpp"
#include "material.hpp"
#include "boundary_conditions.hpp"
extern "C" void __real_exit(int) __attribute__((noreturn));
namespace mp {
using namespace mc;
inline jmp_buf g_jb; inline bool g_in = false; inline int g_code = 0;
// per-process scratch directory; also the working directory
inline const std::string& scratch() { static std::string d; static pid_t owner = 0; if (owner != getpid()) { owner = getpid(); const char* s = getenv("VERIF_SCRATCH"); d = std::string(s ? s : "/tmp") + "/p" + std::to_string(getpid()); mkdir(d.c_str(), 0755); if (chdir(d.c_str())) {} } return d; }
inline void put(const std::string& f, const std::string& t) { std::ofstream o(f, std::ios::binary); o << t; }
inline std::string get(const std::string& f) { std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
inline void wipe() { std::error_code e; for (auto& p : std::filesystem::directory_iterator(scratch(), e)) std::filesystem::remove_all(p.path(), e); }
struct Quiet { int s1; Quiet() { std::cout.flush(); fflush(stdout); s1 = dup(1); static int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); } ~Quiet() { std::cout.flush(); fflush(stdout); dup2(s1, 1); close(s1); } };
struct Outcome { bool ok = true, exited = false; int code = 0; std::string what; };
// runs f silently; refusal (exception, exit) is an outcome, a Violated passes through. exit() leaves by longjmp.
template<class F> Outcome guarded(F f) { scratch(); Quiet q; Outcome o; g_in = true; struct R { ~R() { g_in = false; mcshim::g_depth = 0; if (mcshim::g_on_end) mcshim::g_on_end(); } } r;
    if (setjmp(g_jb)) { o.ok = false; o.exited = true; o.code = g_code; o.what = "exit " + std::to_string(g_code); return o; }
    try { f(); } catch (Violated&) { throw; } catch (Prune&) { throw; } catch (mcshim::Failure& e) { o.ok = false; o.code = -2; o.what = "library failure: " + e.what; } catch (std::exception& e) { o.ok = false; o.code = -1; o.what = e.what(); } catch (Yaml::Exception* e) { o.ok = false; o.what = "yaml"; }
    return o; }
inline bool near(double a, double b, double t = 1e-12, double s = 1) { return std::fabs(a - b) <= t * (s + std::fabs(b)); }
inline std::string num(double d) { std::ostringstream o; o.precision(12); o << d; return o.str(); }
inline std::string vec(const std::vector<double>& v) { std::string s; for (double d : v) s += (s.empty() ? "" : " ") + num(d); return s; }
}
// system(): the code under test only makes directories and clears its own files; done in process, and only below the scratch directory
namespace mp { inline int shell(const char* cmd) { std::string s = cmd ? cmd : "", a; auto sp = s.find(' '); if (sp == std::string::npos) return 1; a = s.substr(sp + 1); s = s.substr(0, sp); if (a.empty() || a[0] == '/' || a.find("..") != std::string::npos) return 1; scratch();
    if (s == "mkdir") return mkdir(a.c_str(), 0755) ? 1 : 0;
    if (s == "rm" && a.back() == '*') { std::string dir = a.substr(0, a.rfind('/')), pre = a.substr(a.rfind('/') + 1); pre.pop_back(); int n = 0; std::error_code e; std::vector<std::filesystem::path> v; for (auto& p : std::filesystem::directory_iterator(dir, e)) if (p.is_regular_file() && p.path().filename().string().compare(0, pre.size(), pre) == 0) v.push_back(p.path()); for (auto& p : v) { std::filesystem::remove(p, e); n++; } return n ? 0 : 1; }
    return 1; } }
#define MP_EXIT extern "C" int __wrap_system(const char* c) { return mp::shell(c); } extern "C" void __wrap_exit(int r) { if (mp::g_in) { mp::g_code = r; longjmp(mp::g_jb, 1); } __real_exit(r); }
#ifdef MC_MONITOR
#include "monitor.hpp"
#endif
#ifdef MC_SEPARATE
#include "coherence.hpp"
#endif
