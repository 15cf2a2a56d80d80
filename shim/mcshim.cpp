#include "mcshim.h"
#include <cstdio>
#include <cstdlib>
#include <sstream>
namespace mcshim {
int g_order = 0, g_chunks = 1, g_depth = 0; long g_loops = 0, g_iters = 0;
bool g_separate = true;
loop_begin_t g_on_begin = nullptr; loop_iter_t g_on_iter = nullptr; loop_end_t g_on_end = nullptr;
void (*g_permute)(std::vector<long>&) = nullptr;
void fail(const std::string& m) { throw Failure{m}; }
void fail_index(const char* name, const char* why, int n, const size_t* d, int m, const size_t* a) {
    std::ostringstream s; s << why << " on array '" << name << "': extents ("; for (int i = 0; i < n; i++) s << (i ? "," : "") << d[i];
    s << ") index ("; for (int i = 0; i < m; i++) s << (i ? "," : "") << (long)a[i]; s << ")"; throw Failure{s.str()}; }
void kokkos_abort(const char* m) { throw Failure{std::string("Kokkos::abort: ") + m}; }
#ifndef MCSHIM_RACE
void* arena_alloc(size_t n) { return calloc(1, n); } void arena_free(void* p) { free(p); }
AtomicScope::AtomicScope() {} AtomicScope::~AtomicScope() {}
#endif
}
