// Runtime of the MATAR/Kokkos stand-in: allocation arena, failure reporting, and the loop scheduler.
#ifndef VERIF_MCSHIM_H
#define VERIF_MCSHIM_H
#include <cstddef>
#include <vector>
#include <string>
#include <functional>
namespace mcshim {
struct Failure { std::string what; };                 // thrown by fail()/kokkos_abort
[[noreturn]] void fail(const std::string& m);
[[noreturn]] void fail_index(const char* name, const char* why, int n, const size_t* d, int m, const size_t* a);
[[noreturn]] void kokkos_abort(const char* m);
void* arena_alloc(size_t n); void arena_free(void* p);
struct AtomicScope { AtomicScope(); ~AtomicScope(); };
// how a parallel loop's iterations are scheduled
enum Order { Forward = 0, Reverse = 1, Hook = 2 };
extern int g_order;                                   // Order
extern int g_chunks;                                  // number of partial results of a reduction (>=1)
extern long g_loops, g_iters;                         // parallel loops / iterations executed
typedef void (*loop_begin_t)(long n); typedef void (*loop_iter_t)(long i); typedef void (*loop_end_t)();
extern loop_begin_t g_on_begin; extern loop_iter_t g_on_iter; extern loop_end_t g_on_end;
// Hook order: fills the permutation for a loop of n iterations
extern void (*g_permute)(std::vector<long>& p);
extern int g_depth;
extern bool g_separate;                               // with MCSHIM_SEPARATE: arrays made from now on have a host copy of their own
template<class F> void run_for(long lo, long hi, const F& f) {
    if (hi <= lo) return;
    if (g_depth > 0) { for (long i = lo; i < hi; i++) f(i); return; }   // nested: sequential
    struct D { D() { g_depth++; } ~D() { g_depth--; } } d_;
    g_loops++; g_iters += hi - lo;
    if (g_on_begin) g_on_begin(hi - lo);
    struct E { ~E() { if (g_on_end) g_on_end(); } } e_;
    if (g_order == Forward) for (long i = lo; i < hi; i++) { if (g_on_iter) g_on_iter(i - lo); f(i); }
    else if (g_order == Reverse) for (long i = hi; i-- > lo;) { if (g_on_iter) g_on_iter(i - lo); f(i); }
    else { std::vector<long> p(hi - lo); for (long i = 0; i < hi - lo; i++) p[i] = i; if (g_permute) g_permute(p); for (long i : p) { if (g_on_iter) g_on_iter(i); f(lo + i); } }
}
template<class T, class F, class J> T run_reduce(long lo, long hi, T id, const F& f, const J& join) {
    T acc = id; if (hi <= lo) return acc;
    if (g_depth > 0) { for (long i = lo; i < hi; i++) f(i, acc); return acc; }
    struct D { D() { g_depth++; } ~D() { g_depth--; } } d_;
    g_loops++; g_iters += hi - lo;
    if (g_on_begin) g_on_begin(hi - lo);
    struct E { ~E() { if (g_on_end) g_on_end(); } } e_;
    long n = hi - lo; long k = g_chunks < 1 ? 1 : g_chunks; if (k > n) k = n;
    if (k == 1) { for (long q = 0; q < n; q++) { long i = (g_order == Reverse) ? n - 1 - q : q; if (g_on_iter) g_on_iter(i); f(lo + i, acc); } return acc; }
    std::vector<T> part(k, id);
    for (long c = 0; c < k; c++) { long cc = (g_order == Reverse) ? k - 1 - c : c; for (long i = cc * n / k; i < (cc + 1) * n / k; i++) { if (g_on_iter) g_on_iter(i); f(lo + i, part[cc]); } }
    for (long c = 0; c < k; c++) join(acc, part[(g_order == Reverse) ? k - 1 - c : c]);
    return acc;
}
}
#endif
