// Stand-in for LANL MATAR (and the small part of Kokkos that Fierro uses), written for /verif.
//
//  * arrays are reference counted handles, as in MATAR (a copy aliases the same storage);
//  * every index is checked: an access outside the declared extents calls mcshim::fail();
//  * DUAL arrays (DCArrayKokkos, ...) have one storage (as Kokkos on a CPU), or, when compiled with
//    -DMCSHIM_SEPARATE, separate host and device storage, so that a forgotten update_host/device shows;
//  * parallel loops hand their iterations to mcshim::run_for / run_reduce, whose schedule is chosen by
//    the explorer (forward, reverse, an explicit permutation, a chunked reduction tree).
#ifndef VERIF_MATAR_H
#define VERIF_MATAR_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <math.h>   // the library includes these C headers, which put the overloads of abs for real numbers into the global namespace
#include <stdlib.h>
#include <cfloat>
#include <climits>
#include <cassert>
#include <string>
#include <vector>
#include <list>
#include <memory>
#include <limits>
#include <type_traits>
#include <utility>
#include <functional>
#include <algorithm>
#include <iostream>
#include <fstream>
#include <sstream>
#include <chrono>
#include <stdexcept>
#include <map>
#include "mcshim.h"

#ifndef HAVE_KOKKOS
#define HAVE_KOKKOS 1
#endif
#define KOKKOS_FUNCTION
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FORCEINLINE_FUNCTION inline
#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [=, *this]
#define KOKKOS_IMPL_DO_NOT_USE_PRINTF printf
#define MATAR_KOKKOS_INIT
#define MATAR_KOKKOS_FINALIZE
#define MATAR_INITIALIZE(...)
#define MATAR_FINALIZE(...)
#define MATAR_FENCE() Kokkos::fence()

namespace Kokkos {
struct LayoutLeft {}; struct LayoutRight {}; struct LayoutStride {};
struct Serial {}; struct OpenMP {}; struct HostSpace {};
struct DefaultExecutionSpace { using array_layout = LayoutRight; using memory_space = HostSpace; };
using DefaultHostExecutionSpace = DefaultExecutionSpace;
inline void initialize() {} inline void initialize(int&, char**) {} inline void finalize() {} inline void fence() {}
inline void fence(const std::string&) {}
[[noreturn]] inline void abort(const char* m) { mcshim::kokkos_abort(m); }
template<class T, class U> inline void atomic_add(T* p, U v) { mcshim::AtomicScope a; *p += (T)v; }
template<class T, class U> inline void atomic_sub(T* p, U v) { mcshim::AtomicScope a; *p -= (T)v; }
template<class T> inline void atomic_increment(T* p) { mcshim::AtomicScope a; ++*p; }
template<class T> inline void atomic_inc(T* p) { mcshim::AtomicScope a; ++*p; }
template<class T> inline void atomic_decrement(T* p) { mcshim::AtomicScope a; --*p; }
template<class T, class U> inline T atomic_fetch_add(T* p, U v) { mcshim::AtomicScope a; T o = *p; *p += (T)v; return o; }
template<class T, class U> inline void atomic_max(T* p, U v) { mcshim::AtomicScope a; if (*p < (T)v) *p = (T)v; }
template<class T, class U> inline void atomic_min(T* p, U v) { mcshim::AtomicScope a; if ((T)v < *p) *p = (T)v; }
template<class T, class U> inline T atomic_fetch_max(T* p, U v) { mcshim::AtomicScope a; T o = *p; if (*p < (T)v) *p = (T)v; return o; }
template<class T, class U> inline T atomic_fetch_min(T* p, U v) { mcshim::AtomicScope a; T o = *p; if ((T)v < *p) *p = (T)v; return o; }
template<class T, class U> inline T atomic_exchange(T* p, U v) { mcshim::AtomicScope a; T o = *p; *p = (T)v; return o; }
template<class T, class U> inline void atomic_store(T* p, U v) { mcshim::AtomicScope a; *p = (T)v; }
template<class T> inline T atomic_load(T* p) { mcshim::AtomicScope a; return *p; }
template<class T, class U, class V> inline T atomic_compare_exchange(T* p, U c, V v) { mcshim::AtomicScope a; T o = *p; if (o == (T)c) *p = (T)v; return o; }
template<class T, class U, class V> inline bool atomic_compare_exchange_strong(T* p, U c, V v) { return atomic_compare_exchange(p, c, v) == (T)c; }
using std::isfinite; using std::isnan; using std::isinf;
using std::fabs; using std::abs; using std::sqrt; using std::pow; using std::exp; using std::log; using std::cbrt;
using std::sin; using std::cos; using std::tan; using std::acos; using std::atan2; using std::fmax; using std::fmin;
template<class T> inline T max(T a, T b) { return a < b ? b : a; }
template<class T> inline T min(T a, T b) { return b < a ? b : a; }
template<class T> inline void swap(T& a, T& b) { T t = a; a = b; b = t; }
using std::printf;

// reducers
template<class T> struct Max { T& r; using value_type = T; explicit Max(T& v) : r(v) {} static T identity() { return std::numeric_limits<T>::lowest(); } static void join(T& a, const T& b) { if (a < b) a = b; } };
template<class T> struct Min { T& r; using value_type = T; explicit Min(T& v) : r(v) {} static T identity() { return std::numeric_limits<T>::max(); } static void join(T& a, const T& b) { if (b < a) a = b; } };
template<class T> struct Sum { T& r; using value_type = T; explicit Sum(T& v) : r(v) {} static T identity() { return T(); } static void join(T& a, const T& b) { a += b; } };
template<class T> struct Prod { T& r; using value_type = T; explicit Prod(T& v) : r(v) {} static T identity() { return T(1); } static void join(T& a, const T& b) { a *= b; } };

template<class... P> struct RangePolicy { long lo, hi; RangePolicy(long a, long b) : lo(a), hi(b) {} };
struct AUTO_t {}; static const AUTO_t AUTO{};
template<class... P> struct TeamPolicy {
    long league;
    template<class A> TeamPolicy(long n, A) : league(n) {}
    template<class A, class B> TeamPolicy(long n, A, B) : league(n) {}
    struct member_type { long r; long nl; int league_rank() const { return (int)r; } int league_size() const { return (int)nl; }
        int team_rank() const { return 0; } int team_size() const { return 1; } void team_barrier() const {} };
};
struct TeamRange { long lo, hi; };
template<class M> TeamRange TeamThreadRange(const M&, long n) { return {0, n}; }
template<class M> TeamRange TeamThreadRange(const M&, long a, long b) { return {a, b}; }
template<class M> TeamRange ThreadVectorRange(const M&, long n) { return {0, n}; }
template<class M> TeamRange ThreadVectorRange(const M&, long a, long b) { return {a, b}; }
template<class M> TeamRange TeamVectorRange(const M&, long n) { return {0, n}; }

enum class Iterate { Default, Left, Right };
template<int N, Iterate A = Iterate::Default, Iterate B = Iterate::Default> struct Rank { static constexpr int rank = N; };
template<class R, class... P> struct MDRangePolicy { long lo[3] = {0, 0, 0}, hi[3] = {1, 1, 1}; MDRangePolicy(std::initializer_list<long> a, std::initializer_list<long> b) { int d = 0; for (long v : a) lo[d++] = v; d = 0; for (long v : b) hi[d++] = v; }
    long n(int d) const { return hi[d] > lo[d] ? hi[d] - lo[d] : 0; } long total() const { return n(0) * n(1) * n(2); } void at(long q, int* x) const { x[2] = (int)(lo[2] + q % n(2)); x[1] = (int)(lo[1] + q / n(2) % n(1)); x[0] = (int)(lo[0] + q / n(2) / n(1)); } };
template<class F, class... P> void parallel_for(const MDRangePolicy<P...>& p, const F& f) { mcshim::run_for(0, p.total(), [&](long q) { int x[3]; p.at(q, x); f(x[0], x[1], x[2]); }); }
template<class F, class T, class... P> void parallel_reduce(const MDRangePolicy<P...>& p, const F& f, T&& r) { using V = std::decay_t<T>; r = mcshim::run_reduce<V>(0, p.total(), V(), [&](long q, V& v) { int x[3]; p.at(q, x); f(x[0], x[1], x[2], v); }, [](V& u, const V& w) { u += w; }); }
template<class F, class... P> void parallel_for(const RangePolicy<P...>& p, const F& f) { mcshim::run_for(p.lo, p.hi, [&](long i) { f((int)i); }); }
template<class F> void parallel_for(long n, const F& f) { mcshim::run_for(0, n, [&](long i) { f((int)i); }); }
template<class F, class... P> void parallel_for(const TeamPolicy<P...>& p, const F& f) { mcshim::run_for(0, p.league, [&](long i) { typename TeamPolicy<P...>::member_type m{i, p.league}; f(m); }); }
template<class F> void parallel_for(const TeamRange& p, const F& f) { for (long i = p.lo; i < p.hi; ++i) f((int)i); }
template<class Pol, class F> void parallel_for(const std::string&, const Pol& p, const F& f) { parallel_for(p, f); }
template<class R, class F> void reduce_range_(long lo, long hi, const F& f, R red) {
    using T = typename R::value_type;
    red.r = mcshim::run_reduce<T>(lo, hi, R::identity(), [&](long i, T& v) { f((int)i, v); }, [](T& a, const T& b) { R::join(a, b); });
}
template<class T> struct is_reducer : std::false_type {};
template<class T> struct is_reducer<Max<T>> : std::true_type {}; template<class T> struct is_reducer<Min<T>> : std::true_type {};
template<class T> struct is_reducer<Sum<T>> : std::true_type {}; template<class T> struct is_reducer<Prod<T>> : std::true_type {};
template<class F, class R, class... P> void parallel_reduce(const RangePolicy<P...>& p, const F& f, R&& red) {
    using RR = std::decay_t<R>;
    if constexpr (is_reducer<RR>::value) reduce_range_(p.lo, p.hi, f, red); else reduce_range_(p.lo, p.hi, f, Sum<RR>(red));
}
template<class F, class R> void parallel_reduce(const TeamRange& p, const F& f, R&& red) {
    using RR = std::decay_t<R>;
    if constexpr (is_reducer<RR>::value) { auto v = RR::identity(); for (long i = p.lo; i < p.hi; ++i) f((int)i, v); red.r = v; }
    else { RR v = RR(); for (long i = p.lo; i < p.hi; ++i) f((int)i, v); red = v; }
}
template<class F, class R> void parallel_reduce(long n, const F& f, R&& red) { parallel_reduce(RangePolicy<>(0, n), f, std::forward<R>(red)); }
template<class Pol, class F, class R> void parallel_reduce(const std::string&, const Pol& p, const F& f, R&& red) { parallel_reduce(p, f, std::forward<R>(red)); }
} // namespace Kokkos

namespace mtr {
using DefaultLayout = Kokkos::LayoutRight; using DefaultExecSpace = Kokkos::DefaultExecutionSpace; using DefaultMemSpace = Kokkos::HostSpace;
using u_int = unsigned int; using real_t = double;

struct Extents {
    int n = 0; size_t d[7] = {0,0,0,0,0,0,0}; size_t len = 0;
    template<class... I> void set(I... i) { n = sizeof...(I); size_t a[] = {(size_t)i...}; len = 1; for (int k = 0; k < n; k++) { d[k] = a[k]; len *= a[k]; } }
    template<class... I> size_t C(const char* nm, I... i) const {
        size_t a[] = {(size_t)i...}; constexpr int m = sizeof...(I);
        if (m != n) mcshim::fail_index(nm, "wrong number of indices", n, d, m, a);
        size_t o = 0; for (int k = 0; k < m; k++) { if (a[k] >= d[k]) mcshim::fail_index(nm, "index out of bounds", n, d, m, a); o = o * d[k] + a[k]; }
        return o;
    }
    template<class... I> size_t F(const char* nm, I... i) const {
        size_t a[] = {(size_t)i...}; constexpr int m = sizeof...(I);
        if (m != n) mcshim::fail_index(nm, "wrong number of indices", n, d, m, a);
        size_t o = 0; for (int k = m - 1; k >= 0; k--) { if (a[k] >= d[k]) mcshim::fail_index(nm, "index out of bounds", n, d, m, a); o = o * d[k] + a[k]; }
        return o;
    }
};
// storage with value-initialised elements from the shim's arena (so that monitored accesses can be told from stack/heap)
template<class T> struct Buf {
    T* p = nullptr; size_t n = 0;
    explicit Buf(size_t n_) : n(n_) { void* m = mcshim::arena_alloc(n * sizeof(T) + 1); p = static_cast<T*>(m); for (size_t i = 0; i < n; i++) new (p + i) T(); }
    ~Buf() { for (size_t i = 0; i < n; i++) p[i].~T(); mcshim::arena_free(p); }
    Buf(const Buf&) = delete;
};

// is the argument pack "all dimensions", possibly with a trailing name?
template<class... A> struct all_int : std::conjunction<std::bool_constant<std::is_arithmetic<std::decay_t<A>>::value || std::is_enum<std::decay_t<A>>::value>...> {};

enum class Ord { C, F };
// BASE = 0 for "Array" classes, 1 for "Matrix" classes
template<class T, Ord O, int BASE, bool DUAL> class Dense {
  protected:
    Extents e; std::shared_ptr<Buf<T>> dev_, host_; std::string tag = "?"; T* dp = nullptr; T* hp = nullptr;
    void alloc() { dev_ = std::make_shared<Buf<T>>(e.len); dp = dev_->p;
#ifdef MCSHIM_SEPARATE
        if (DUAL && mcshim::g_separate) { host_ = std::make_shared<Buf<T>>(e.len); hp = host_->p; } else hp = dp;
#else
        hp = dp;
#endif
    }
    template<class... I> size_t off(I... i) const { if constexpr (O == Ord::C) return e.C(tag.c_str(), ((size_t)i - BASE)...); else return e.F(tag.c_str(), ((size_t)i - BASE)...); }
    template<class Tup, size_t... K> void init_tail(Tup&& t, std::index_sequence<K...>) { e.set((size_t)std::get<K>(t)...); alloc(); }
  public:
    using value_type = T;
    struct HostView { const Dense* o = nullptr; HostView() {} };
    Dense() {}
    template<class A0, class... A, class = std::enable_if_t<std::is_arithmetic<std::decay_t<A0>>::value || std::is_enum<std::decay_t<A0>>::value>>
    Dense(A0 a0, A&&... a) {
        if constexpr (all_int<A0, A...>::value) { e.set((size_t)a0, (size_t)a...); alloc(); }
        else { auto t = std::tuple<size_t, std::decay_t<A>...>((size_t)a0, std::forward<A>(a)...); constexpr size_t N = sizeof...(A);
               tag = std::string(std::get<N>(t)); init_tail(t, std::make_index_sequence<N>{}); }
        host.bind(*this);
    }
    Dense(const Dense& o) : e(o.e), dev_(o.dev_), host_(o.host_), tag(o.tag), dp(o.dp), hp(o.hp) { host.bind(*this); }
    Dense& operator=(const Dense& o) { e = o.e; dev_ = o.dev_; host_ = o.host_; tag = o.tag; dp = o.dp; hp = o.hp; host.bind(*this); return *this; }
    template<class... I> T& operator()(I... i) const { return dp[off(i...)]; }
    size_t size() const { return e.len; } size_t extent() const { return e.len; } size_t order() const { return e.n; }
    size_t dims(size_t i) const { return e.d[i - BASE]; }
    std::string get_name() const { return tag; } const std::string& name() const { return tag; }
    T* pointer() const { return dp; } T* device_pointer() const { return dp; } T* host_pointer() const { return hp; }
    void set_values(T v) const { for (size_t i = 0; i < e.len; i++) { dp[i] = v; } if (!DUAL) return;
#ifdef MCSHIM_SEPARATE
        for (size_t i = 0; i < e.len; i++) hp[i] = v;
#endif
    }
    void set_values(T v, size_t n) const { for (size_t i = 0; i < n && i < e.len; i++) dp[i] = v; }
    void update_host() const { if (dp != hp) for (size_t i = 0; i < e.len; i++) hp[i] = dp[i]; }
    void update_device() const { if (dp != hp) for (size_t i = 0; i < e.len; i++) dp[i] = hp[i]; }
    bool is_allocated() const { return dp != nullptr; }
    struct Host {
        Extents e; std::shared_ptr<Buf<T>> keep; T* p = nullptr; std::string tag;
        void bind(const Dense& d) { e = d.e; keep = d.host_ ? d.host_ : d.dev_; p = d.hp; tag = d.tag; }
        template<class... I> T& operator()(I... i) const { if constexpr (O == Ord::C) return p[e.C(tag.c_str(), ((size_t)i - BASE)...)]; else return p[e.F(tag.c_str(), ((size_t)i - BASE)...)]; }
        size_t size() const { return e.len; } size_t extent() const { return e.len; } size_t dims(size_t i) const { return e.d[i - BASE]; } size_t order() const { return e.n; }
        T* pointer() const { return p; }
        void set_values(T v) const { for (size_t i = 0; i < e.len; i++) p[i] = v; }
    };
    Host host;
};
// non-owning views
template<class T, Ord O, int BASE, bool DUAL> class DenseView {
  protected:
    Extents e; T* dp = nullptr; T* hp = nullptr; std::shared_ptr<Buf<T>> dev_; std::string tag = "view";
    template<class... I> size_t off(I... i) const { if constexpr (O == Ord::C) return e.C(tag.c_str(), ((size_t)i - BASE)...); else return e.F(tag.c_str(), ((size_t)i - BASE)...); }
    template<class Tup, size_t... K> void init_tail(Tup&& t, std::index_sequence<K...>) { e.set((size_t)std::get<K>(t)...); }
  public:
    DenseView() {}
    template<class A0, class... A> DenseView(T* p, A0 a0, A&&... a) : dp(p), hp(p) {
        if constexpr (all_int<A0, A...>::value) { e.set((size_t)a0, (size_t)a...); }
        else { auto t = std::tuple<size_t, std::decay_t<A>...>((size_t)a0, std::forward<A>(a)...); constexpr size_t N = sizeof...(A);
               tag = std::string(std::get<N>(t)); init_tail(t, std::make_index_sequence<N>{}); }
        setup();
    }
    void setup() {
#ifdef MCSHIM_SEPARATE
        if (DUAL && mcshim::g_separate) { dev_ = std::make_shared<Buf<T>>(e.len); dp = dev_->p; for (size_t i = 0; i < e.len; i++) dp[i] = hp[i]; }
#endif
        host.e = e; host.p = hp; host.tag = tag;
    }
    template<class... I> T& operator()(I... i) const { return dp[off(i...)]; }
    size_t size() const { return e.len; } size_t extent() const { return e.len; } size_t order() const { return e.n; } size_t dims(size_t i) const { return e.d[i - BASE]; }
    T* pointer() const { return dp; } T* device_pointer() const { return dp; } T* host_pointer() const { return hp; }
    void set_values(T v) const { for (size_t i = 0; i < e.len; i++) dp[i] = v; }
    void update_host() const { if (dp != hp) for (size_t i = 0; i < e.len; i++) hp[i] = dp[i]; }
    void update_device() const { if (dp != hp) for (size_t i = 0; i < e.len; i++) dp[i] = hp[i]; }
    struct Host { Extents e; T* p = nullptr; std::string tag;
        template<class... I> T& operator()(I... i) const { if constexpr (O == Ord::C) return p[e.C(tag.c_str(), ((size_t)i - BASE)...)]; else return p[e.F(tag.c_str(), ((size_t)i - BASE)...)]; }
        size_t size() const { return e.len; } size_t dims(size_t i) const { return e.d[i - BASE]; } T* pointer() const { return p; } } host;
};
#define MTR_DENSE(NAME, ORD, BASE, DUAL) template<class T, class... R> struct NAME : Dense<T, ORD, BASE, DUAL> { using Dense<T, ORD, BASE, DUAL>::Dense; NAME() {} NAME(const NAME&) = default; NAME& operator=(const NAME&) = default; };
#define MTR_VIEW(NAME, ORD, BASE, DUAL) template<class T, class... R> struct NAME : DenseView<T, ORD, BASE, DUAL> { using DenseView<T, ORD, BASE, DUAL>::DenseView; NAME() {} };
MTR_DENSE(CArrayKokkos, Ord::C, 0, false) MTR_DENSE(FArrayKokkos, Ord::F, 0, false) MTR_DENSE(CMatrixKokkos, Ord::C, 1, false) MTR_DENSE(FMatrixKokkos, Ord::F, 1, false)
MTR_DENSE(DCArrayKokkos, Ord::C, 0, true) MTR_DENSE(DFArrayKokkos, Ord::F, 0, true) MTR_DENSE(DCMatrixKokkos, Ord::C, 1, true) MTR_DENSE(DFMatrixKokkos, Ord::F, 1, true)
MTR_DENSE(CArrayDual, Ord::C, 0, true) MTR_DENSE(FArrayDual, Ord::F, 0, true) MTR_DENSE(CMatrixDual, Ord::C, 1, true) MTR_DENSE(FMatrixDual, Ord::F, 1, true)
MTR_DENSE(CArrayDevice, Ord::C, 0, false) MTR_DENSE(FArrayDevice, Ord::F, 0, false)
MTR_VIEW(ViewCArrayKokkos, Ord::C, 0, false) MTR_VIEW(ViewFArrayKokkos, Ord::F, 0, false) MTR_VIEW(ViewCMatrixKokkos, Ord::C, 1, false) MTR_VIEW(ViewFMatrixKokkos, Ord::F, 1, false)
MTR_VIEW(DViewCArrayKokkos, Ord::C, 0, true) MTR_VIEW(DViewFArrayKokkos, Ord::F, 0, true) MTR_VIEW(DViewCMatrixKokkos, Ord::C, 1, true) MTR_VIEW(DViewFMatrixKokkos, Ord::F, 1, true)
MTR_VIEW(ViewCArray, Ord::C, 0, false) MTR_VIEW(ViewFArray, Ord::F, 0, false) MTR_VIEW(ViewCMatrix, Ord::C, 1, false) MTR_VIEW(ViewFMatrix, Ord::F, 1, false)
MTR_DENSE(CArray, Ord::C, 0, false) MTR_DENSE(FArray, Ord::F, 0, false) MTR_DENSE(CMatrix, Ord::C, 1, false) MTR_DENSE(FMatrix, Ord::F, 1, false)
MTR_DENSE(CArrayHost, Ord::C, 0, false) MTR_DENSE(FArrayHost, Ord::F, 0, false)

// ragged right: row i has stride(i) columns; optional trailing vector/tensor dimensions
template<class T, bool DUAL> class Ragged {
    std::shared_ptr<Buf<size_t>> start_; std::shared_ptr<Buf<T>> buf_, host_; size_t n1 = 0, len = 0, v1 = 1, v2 = 1; int nv = 0; std::string tag = "ragged";
    void build(const std::vector<size_t>& s, size_t a = 1, size_t b = 1) { n1 = s.size(); v1 = a; v2 = b; start_ = std::make_shared<Buf<size_t>>(n1 + 1); size_t o = 0;
        for (size_t i = 0; i < n1; i++) { start_->p[i] = o; o += s[i]; } start_->p[n1] = o; len = o * a * b; buf_ = std::make_shared<Buf<T>>(len);
#ifdef MCSHIM_SEPARATE
        if (DUAL && mcshim::g_separate) host_ = std::make_shared<Buf<T>>(len);
#endif
    }
    template<class A> static std::vector<size_t> strides(const A& a, bool h) { std::vector<size_t> s(a.size()); for (size_t i = 0; i < s.size(); i++) s[i] = (size_t)a(i); return s; }
    void chk(size_t i, size_t j) const { if (i >= n1 || j >= start_->p[i + 1] - start_->p[i]) { size_t d[7] = {n1, i < n1 ? start_->p[i + 1] - start_->p[i] : 0}; size_t a[] = {i, j}; mcshim::fail_index(tag.c_str(), "ragged index out of bounds", 2, d, 2, a); } }
  public:
    Ragged() {}
    template<class U, Ord O, int B, bool D> Ragged(const Dense<U, O, B, D>& s, const std::string& t = "ragged") : tag(t) { build(strides(s, D)); }
    template<class U, Ord O, int B, bool D> Ragged(const Dense<U, O, B, D>& s, size_t a, const std::string& t = "ragged") : nv(1), tag(t) { build(strides(s, D), a); }
    template<class U, Ord O, int B, bool D> Ragged(const Dense<U, O, B, D>& s, size_t a, size_t b, const std::string& t = "ragged") : nv(2), tag(t) { build(strides(s, D), a, b); }
    Ragged(const size_t* s, size_t n, const std::string& t = "ragged") : tag(t) { build(std::vector<size_t>(s, s + n)); }
    T* hostp() const { return host_ ? host_->p : buf_->p; }
    T& operator()(size_t i, size_t j) const { return at(buf_->p, i, j); } T& operator()(size_t i, size_t j, size_t k) const { return at(buf_->p, i, j, k); } T& operator()(size_t i, size_t j, size_t k, size_t l) const { return at(buf_->p, i, j, k, l); }
    T& at(T* p, size_t i, size_t j) const { if (nv != 0) mcshim::fail("ragged: vector dimension missing"); chk(i, j); return p[start_->p[i] + j]; }
    T& at(T* p, size_t i, size_t j, size_t k) const { chk(i, j); if (k >= v1) mcshim::fail("ragged: k out of bounds"); return p[(start_->p[i] + j) * v1 + k]; }
    T& at(T* p, size_t i, size_t j, size_t k, size_t l) const { chk(i, j); if (k >= v1 || l >= v2) mcshim::fail("ragged: k,l out of bounds"); return p[((start_->p[i] + j) * v1 + k) * v2 + l]; }
    size_t stride(size_t i) const { if (i >= n1) mcshim::fail("ragged: stride row out of bounds"); return start_->p[i + 1] - start_->p[i]; }
    size_t stride_host(size_t i) const { return stride(i); }
    size_t size() const { return len; } size_t dims(size_t i) const { return n1; }
    T* pointer() const { return buf_ ? buf_->p : nullptr; } T* device_pointer() const { return pointer(); } T* host_pointer() const { return host_ ? host_->p : pointer(); }
    size_t* get_starts() const { return start_ ? start_->p : nullptr; }
    void set_values(T v) const { for (size_t i = 0; i < len; i++) { buf_->p[i] = v; if (host_) host_->p[i] = v; } }
    void update_host() const { if (host_) for (size_t i = 0; i < len; i++) host_->p[i] = buf_->p[i]; } void update_device() const { if (host_) for (size_t i = 0; i < len; i++) buf_->p[i] = host_->p[i]; } void update_strides_host() const {}
    std::string get_name() const { return tag; }
    struct Host { const Ragged* o; template<class... I> T& operator()(I... i) const { return o->at(o->hostp(), (size_t)i...); } };
    Host host{this};
    Ragged(const Ragged& o) : start_(o.start_), buf_(o.buf_), host_(o.host_), n1(o.n1), len(o.len), v1(o.v1), v2(o.v2), nv(o.nv), tag(o.tag), host{this} {}
    Ragged& operator=(const Ragged& o) { start_ = o.start_; buf_ = o.buf_; host_ = o.host_; n1 = o.n1; len = o.len; v1 = o.v1; v2 = o.v2; nv = o.nv; tag = o.tag; host.o = this; return *this; }
};
template<class T, class... R> struct RaggedRightArrayKokkos : Ragged<T, false> { using Ragged<T, false>::Ragged; RaggedRightArrayKokkos() {} RaggedRightArrayKokkos(const RaggedRightArrayKokkos&) = default; RaggedRightArrayKokkos& operator=(const RaggedRightArrayKokkos&) = default; };
template<class T, class... R> struct DRaggedRightArrayKokkos : Ragged<T, true> { using Ragged<T, true>::Ragged; DRaggedRightArrayKokkos() {} DRaggedRightArrayKokkos(const DRaggedRightArrayKokkos&) = default; DRaggedRightArrayKokkos& operator=(const DRaggedRightArrayKokkos&) = default; };
// dynamic ragged right: capacity (dim1 x dim2), stride(i) is writable
template<class T, class... R> class DynamicRaggedRightArrayKokkos {
    std::shared_ptr<Buf<size_t>> st_; std::shared_ptr<Buf<T>> buf_; size_t n1 = 0, n2 = 0; std::string tag = "dynragged";
  public:
    DynamicRaggedRightArrayKokkos() {}
    DynamicRaggedRightArrayKokkos(size_t a, size_t b, const std::string& t = "dynragged") : n1(a), n2(b), tag(t) { st_ = std::make_shared<Buf<size_t>>(a); buf_ = std::make_shared<Buf<T>>(a * b); }
    size_t& stride(size_t i) const { if (i >= n1) mcshim::fail("dynragged: stride row out of bounds"); return st_->p[i]; }
    size_t stride_host(size_t i) const { return stride(i); }
    T& operator()(size_t i, size_t j) const { if (i >= n1 || j >= n2 || j >= st_->p[i]) { size_t d[7] = {n1, n2}; size_t a[] = {i, j}; mcshim::fail_index(tag.c_str(), "dynamic ragged index out of bounds (stride or capacity)", 2, d, 2, a); } return buf_->p[i * n2 + j]; }
    size_t size() const { return n1 * n2; } size_t dims(size_t i) const { return i ? n2 : n1; } T* pointer() const { return buf_->p; }
    void set_values(T v) const { for (size_t i = 0; i < n1 * n2; i++) buf_->p[i] = v; }
    void set_values_sparse(T v) const { for (size_t i = 0; i < n1; i++) for (size_t j = 0; j < st_->p[i]; j++) buf_->p[i * n2 + j] = v; }
    void update_host() const {} void update_device() const {} void update_strides_host() const {}
};
template<class T, class... R> using DDynamicRaggedRightArrayKokkos = DynamicRaggedRightArrayKokkos<T, R...>;
} // namespace mtr
using namespace mtr;

// ---------------------------------------------------------------- parallel macros
#define MTR_GET_MACRO_(_1, _2, _3, _4, _5, _6, _7, _8, _9, _10, NAME, ...) NAME
#define MTR_GET_MACRO_RED_(_1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, NAME, ...) NAME
#define MTR_FOR1_(L, i, x0, x1, fcn) mcshim::for1((long)(x0), (long)(x1), L(const int i){fcn})
#define MTR_FOR2_(L, i, x0, x1, j, y0, y1, fcn) mcshim::for2((long)(x0), (long)(x1), (long)(y0), (long)(y1), L(const int i, const int j){fcn})
#define MTR_FOR3_(L, i, x0, x1, j, y0, y1, k, z0, z1, fcn) mcshim::for3((long)(x0), (long)(x1), (long)(y0), (long)(y1), (long)(z0), (long)(z1), L(const int i, const int j, const int k){fcn})
#define MTR_FOR1_L(...) MTR_FOR1_(KOKKOS_LAMBDA, __VA_ARGS__)
#define MTR_FOR2_L(...) MTR_FOR2_(KOKKOS_LAMBDA, __VA_ARGS__)
#define MTR_FOR3_L(...) MTR_FOR3_(KOKKOS_LAMBDA, __VA_ARGS__)
#define MTR_FOR1_C(...) MTR_FOR1_(KOKKOS_CLASS_LAMBDA, __VA_ARGS__)
#define MTR_FOR2_C(...) MTR_FOR2_(KOKKOS_CLASS_LAMBDA, __VA_ARGS__)
#define MTR_FOR3_C(...) MTR_FOR3_(KOKKOS_CLASS_LAMBDA, __VA_ARGS__)
#define FOR_ALL(...) MTR_GET_MACRO_(__VA_ARGS__, MTR_FOR3_L, _9, _8, MTR_FOR2_L, _6, _5, MTR_FOR1_L, _3, _2, _1)(__VA_ARGS__)
#define FOR_ALL_CLASS(...) MTR_GET_MACRO_(__VA_ARGS__, MTR_FOR3_C, _9, _8, MTR_FOR2_C, _6, _5, MTR_FOR1_C, _3, _2, _1)(__VA_ARGS__)
#define RUN(...) mcshim::run1([=](){__VA_ARGS__})
#define RUN_CLASS(...) mcshim::run1([=, *this](){__VA_ARGS__})
// reductions: (i,x0,x1,var,{..},res) / 2D / 3D
#define MTR_RED1_(L, OP, i, x0, x1, v, fcn, r) mcshim::red1<Kokkos::OP>((long)(x0), (long)(x1), L(const int i, decltype(v)& v){fcn}, r)
#define MTR_RED2_(L, OP, i, x0, x1, j, y0, y1, v, fcn, r) mcshim::red2<Kokkos::OP>((long)(x0), (long)(x1), (long)(y0), (long)(y1), L(const int i, const int j, decltype(v)& v){fcn}, r)
#define MTR_RED3_(L, OP, i, x0, x1, j, y0, y1, k, z0, z1, v, fcn, r) mcshim::red3<Kokkos::OP>((long)(x0), (long)(x1), (long)(y0), (long)(y1), (long)(z0), (long)(z1), L(const int i, const int j, const int k, decltype(v)& v){fcn}, r)
#define MTR_R1SL(...) MTR_RED1_(KOKKOS_LAMBDA, Sum, __VA_ARGS__)
#define MTR_R2SL(...) MTR_RED2_(KOKKOS_LAMBDA, Sum, __VA_ARGS__)
#define MTR_R3SL(...) MTR_RED3_(KOKKOS_LAMBDA, Sum, __VA_ARGS__)
#define MTR_R1SC(...) MTR_RED1_(KOKKOS_CLASS_LAMBDA, Sum, __VA_ARGS__)
#define MTR_R2SC(...) MTR_RED2_(KOKKOS_CLASS_LAMBDA, Sum, __VA_ARGS__)
#define MTR_R3SC(...) MTR_RED3_(KOKKOS_CLASS_LAMBDA, Sum, __VA_ARGS__)
#define MTR_R1XL(...) MTR_RED1_(KOKKOS_LAMBDA, Max, __VA_ARGS__)
#define MTR_R2XL(...) MTR_RED2_(KOKKOS_LAMBDA, Max, __VA_ARGS__)
#define MTR_R3XL(...) MTR_RED3_(KOKKOS_LAMBDA, Max, __VA_ARGS__)
#define MTR_R1XC(...) MTR_RED1_(KOKKOS_CLASS_LAMBDA, Max, __VA_ARGS__)
#define MTR_R2XC(...) MTR_RED2_(KOKKOS_CLASS_LAMBDA, Max, __VA_ARGS__)
#define MTR_R3XC(...) MTR_RED3_(KOKKOS_CLASS_LAMBDA, Max, __VA_ARGS__)
#define MTR_R1NL(...) MTR_RED1_(KOKKOS_LAMBDA, Min, __VA_ARGS__)
#define MTR_R2NL(...) MTR_RED2_(KOKKOS_LAMBDA, Min, __VA_ARGS__)
#define MTR_R3NL(...) MTR_RED3_(KOKKOS_LAMBDA, Min, __VA_ARGS__)
#define MTR_R1NC(...) MTR_RED1_(KOKKOS_CLASS_LAMBDA, Min, __VA_ARGS__)
#define MTR_R2NC(...) MTR_RED2_(KOKKOS_CLASS_LAMBDA, Min, __VA_ARGS__)
#define MTR_R3NC(...) MTR_RED3_(KOKKOS_CLASS_LAMBDA, Min, __VA_ARGS__)
#define MTR_R1PL(...) MTR_RED1_(KOKKOS_LAMBDA, Prod, __VA_ARGS__)
#define MTR_R1PC(...) MTR_RED1_(KOKKOS_CLASS_LAMBDA, Prod, __VA_ARGS__)
#define MTR_RSEL_(A, B, C, ...) MTR_GET_MACRO_RED_(__VA_ARGS__, C, _11, _10, B, _8, _7, A, _5, _4, _3, _2, _1)(__VA_ARGS__)
#define FOR_REDUCE_SUM(...) MTR_RSEL_(MTR_R1SL, MTR_R2SL, MTR_R3SL, __VA_ARGS__)
#define FOR_REDUCE_SUM_CLASS(...) MTR_RSEL_(MTR_R1SC, MTR_R2SC, MTR_R3SC, __VA_ARGS__)
#define FOR_REDUCE_MAX(...) MTR_RSEL_(MTR_R1XL, MTR_R2XL, MTR_R3XL, __VA_ARGS__)
#define FOR_REDUCE_MAX_CLASS(...) MTR_RSEL_(MTR_R1XC, MTR_R2XC, MTR_R3XC, __VA_ARGS__)
#define FOR_REDUCE_MIN(...) MTR_RSEL_(MTR_R1NL, MTR_R2NL, MTR_R3NL, __VA_ARGS__)
#define FOR_REDUCE_MIN_CLASS(...) MTR_RSEL_(MTR_R1NC, MTR_R2NC, MTR_R3NC, __VA_ARGS__)
#define FOR_REDUCE_PRODUCT(...) MTR_RSEL_(MTR_R1PL, MTR_R1PL, MTR_R1PL, __VA_ARGS__)
#define FOR_REDUCE_PRODUCT_CLASS(...) MTR_RSEL_(MTR_R1PC, MTR_R1PC, MTR_R1PC, __VA_ARGS__)
#define REDUCE_SUM(...) FOR_REDUCE_SUM(__VA_ARGS__)
#define REDUCE_SUM_CLASS(...) FOR_REDUCE_SUM_CLASS(__VA_ARGS__)
#define REDUCE_MAX(...) FOR_REDUCE_MAX(__VA_ARGS__)
#define REDUCE_MAX_CLASS(...) FOR_REDUCE_MAX_CLASS(__VA_ARGS__)
#define REDUCE_MIN(...) FOR_REDUCE_MIN(__VA_ARGS__)
#define REDUCE_MIN_CLASS(...) FOR_REDUCE_MIN_CLASS(__VA_ARGS__)
#define FOR_REDUCE_MAX_CLASS_ FOR_REDUCE_MAX_CLASS

namespace mcshim {
template<class F> void for1(long a, long b, const F& f) { run_for(a, b, [&](long i) { f((int)i); }); }
template<class F> void for2(long a, long b, long c, long d, const F& f) { long m = d > c ? d - c : 0, n = b > a ? b - a : 0; run_for(0, n * m, [&](long q) { f((int)(a + q / m), (int)(c + q % m)); }); }
template<class F> void for3(long a, long b, long c, long d, long e, long g, const F& f) { long l = g > e ? g - e : 0, m = d > c ? d - c : 0, n = b > a ? b - a : 0;
    run_for(0, n * m * l, [&](long q) { f((int)(a + q / (m * l)), (int)(c + (q / l) % m), (int)(e + q % l)); }); }
template<class F> void run1(const F& f) { run_for(0, 1, [&](long) { f(); }); }
template<template<class> class R, class F, class T> void red1(long a, long b, const F& f, T& r) {
    r = run_reduce<T>(a, b, R<T>::identity(), [&](long i, T& v) { f((int)i, v); }, [](T& x, const T& y) { R<T>::join(x, y); }); }
template<template<class> class R, class F, class T> void red2(long a, long b, long c, long d, const F& f, T& r) { long m = d > c ? d - c : 0, n = b > a ? b - a : 0;
    r = run_reduce<T>(0, n * m, R<T>::identity(), [&](long q, T& v) { f((int)(a + q / m), (int)(c + q % m), v); }, [](T& x, const T& y) { R<T>::join(x, y); }); }
template<template<class> class R, class F, class T> void red3(long a, long b, long c, long d, long e, long g, const F& f, T& r) { long l = g > e ? g - e : 0, m = d > c ? d - c : 0, n = b > a ? b - a : 0;
    r = run_reduce<T>(0, n * m * l, R<T>::identity(), [&](long q, T& v) { f((int)(a + q / (m * l)), (int)(c + (q / l) % m), (int)(e + q % l), v); }, [](T& x, const T& y) { R<T>::join(x, y); }); }
}
#endif
