// Stand-in for the part of heFFTe the micromechanics codes use: boxes, their division among ranks, and the three-dimensional transforms,
// computed by the plain definition of the discrete Fourier transform. With several ranks (mpistub::exchange) the boxes are gathered first.
#ifndef VERIF_HEFFTE_STUB
#define VERIF_HEFFTE_STUB
#include <algorithm>
#include <array>
#include <climits>
#include <cmath>
#include <complex>
#include <stdexcept>
#include <vector>
#include <mpi.h>
namespace heffte {
namespace backend { struct fftw {}; struct mkl {}; struct cufft {}; struct rocfft {}; }
enum class scale { none, full, symmetric };
enum class reshape_algorithm { alltoallv, alltoall, p2p, p2p_plined };
template<class I = int> struct box3d {
    std::array<I, 3> low, high, size;
    box3d(std::array<I, 3> l, std::array<I, 3> h) : low(l), high(h), size{h[0] - l[0] + 1, h[1] - l[1] + 1, h[2] - l[2] + 1} {}
    bool empty() const { return size[0] <= 0 || size[1] <= 0 || size[2] <= 0; }
    long count() const { return empty() ? 0 : (long)size[0] * size[1] * size[2]; }
    bool operator==(const box3d& o) const { return low == o.low && high == o.high; } bool operator!=(const box3d& o) const { return !(*this == o); }
    box3d r2c(int d) const { auto h = high; h[d] = low[d] + size[d] / 2; return box3d(low, h); }
};
struct plan_options { bool use_reorder = true, use_pencils = true; reshape_algorithm algorithm = reshape_algorithm::alltoallv; };
template<class B> plan_options default_options() { return plan_options(); }
namespace mpi { inline int comm_rank(MPI_Comm c) { int r; MPI_Comm_rank(c, &r); return r; } inline int comm_size(MPI_Comm c) { int s; MPI_Comm_size(c, &s); return s; } }
inline std::array<int, 3> proc_setup_min_surface(const box3d<>& w, int n) { std::array<int, 3> best{1, 1, n}; long bs = LONG_MAX; for (int i = 1; i <= n; i++) if (n % i == 0) for (int j = 1; j <= n / i; j++) if ((n / i) % j == 0) { int k = n / i / j; long a = w.size[0] / i, b = w.size[1] / j, c = w.size[2] / k, s = a * b + b * c + a * c; if (s < bs && i <= w.size[0] && j <= w.size[1] && k <= w.size[2]) { bs = s; best = {i, j, k}; } } return best; }
inline std::vector<box3d<>> split_world(const box3d<>& w, std::array<int, 3> g) { auto at = [&](int d, int i) { return w.low[d] + i * (w.size[d] / g[d]) + std::min(i, w.size[d] % g[d]); }; std::vector<box3d<>> o; for (int k = 0; k < g[2]; k++) for (int j = 0; j < g[1]; j++) for (int i = 0; i < g[0]; i++) o.push_back(box3d<>({at(0, i), at(1, j), at(2, k)}, {at(0, i + 1) - 1, at(1, j + 1) - 1, at(2, k + 1) - 1})); return o; }
typedef std::complex<double> cd;
// whole array from everybody's box
template<class T> void gather_(const box3d<>& b, const T* mine, std::array<int, 3>& n, std::vector<T>& all) {
    std::vector<char> msg(6 * sizeof(int) + b.count() * sizeof(T)); int hd[6] = {b.low[0], b.low[1], b.low[2], b.high[0], b.high[1], b.high[2]}; memcpy(msg.data(), hd, sizeof hd); if (b.count()) memcpy(msg.data() + sizeof hd, mine, b.count() * sizeof(T));
    auto ms = mpistub::allgather(msg); n = {0, 0, 0}; for (auto& m : ms) { int h[6]; memcpy(h, m.data(), sizeof h); for (int d = 0; d < 3; d++) n[d] = std::max(n[d], h[3 + d] + 1); } all.assign((size_t)n[0] * n[1] * n[2], T());
    for (auto& m : ms) { int h[6]; memcpy(h, m.data(), sizeof h); const T* p = (const T*)(m.data() + sizeof h); for (int k = h[2]; k <= h[5]; k++) for (int j = h[1]; j <= h[4]; j++) for (int i = h[0]; i <= h[3]; i++) memcpy(&all[i + (size_t)n[0] * (j + (size_t)n[1] * k)], p++, sizeof(T)); } }
template<class T> void pick_(const box3d<>& b, const std::array<int, 3>& n, const std::vector<T>& all, T* out) { for (int k = b.low[2]; k <= b.high[2]; k++) for (int j = b.low[1]; j <= b.high[1]; j++) for (int i = b.low[0]; i <= b.high[0]; i++) *out++ = all[i + (size_t)n[0] * (j + (size_t)n[1] * k)]; }
// complex transform along one dimension
inline void line_(std::vector<cd>& a, const std::array<int, 3>& n, int d, int sg) { int N = n[d]; if (N == 1) return; static thread_local std::vector<cd> w, t; w.resize(N); t.resize(N); for (int k = 0; k < N; k++) { double x = sg * 2 * M_PI * k / N; w[k] = cd(std::cos(x), std::sin(x)); } long st = d == 0 ? 1 : d == 1 ? n[0] : (long)n[0] * n[1]; long tot = (long)n[0] * n[1] * n[2]; for (long q = 0; q < tot; q++) { if ((q / st) % N) continue; for (int k = 0; k < N; k++) { cd s = 0; for (int x = 0; x < N; x++) s += a[q + x * st] * w[(long)k * x % N]; t[k] = s; } for (int k = 0; k < N; k++) a[q + k * st] = t[k]; } }
template<class B> struct fft3d { template<class T> using buffer_container = std::vector<T>; box3d<> in, out; fft3d(const box3d<>& a, const box3d<>& b, MPI_Comm, plan_options = plan_options()) : in(a), out(b) {} size_t size_workspace() const { return 1; }
    template<class T> void forward(const T* x, cd* y, cd* = nullptr, scale s = scale::none) const { std::array<int, 3> n; std::vector<T> g; gather_(in, x, n, g); std::vector<cd> a(g.begin(), g.end()); for (int d = 0; d < 3; d++) line_(a, n, d, -1); if (s == scale::full) for (cd& v : a) v /= (double)a.size(); pick_(out, n, a, y); }
    void back_(const cd* x, std::vector<cd>& a, std::array<int, 3>& n, scale s) const { gather_(out, x, n, a); for (int d = 0; d < 3; d++) line_(a, n, d, 1); if (s == scale::full) for (cd& v : a) v /= (double)a.size(); }
    void backward(const cd* x, cd* y, cd* = nullptr, scale s = scale::none) const { std::array<int, 3> n; std::vector<cd> a; back_(x, a, n, s); pick_(in, n, a, y); }
    void backward(const cd* x, double* y, cd* = nullptr, scale s = scale::none) const { std::array<int, 3> n; std::vector<cd> a; back_(x, a, n, s); std::vector<double> r; for (cd v : a) r.push_back(v.real()); pick_(in, n, r, y); } };
template<class B> struct fft3d_r2c { box3d<> in, out; int dir; fft3d_r2c(const box3d<>& a, const box3d<>& b, int d, MPI_Comm, plan_options = plan_options()) : in(a), out(b), dir(d) { if (d != 0) throw std::runtime_error("heffte stub: r2c direction"); } size_t size_workspace() const { return 1; }
    void forward(const double* x, cd* y, cd* = nullptr, scale s = scale::none) const { std::array<int, 3> n; std::vector<double> g; gather_(in, x, n, g); std::vector<cd> a(g.begin(), g.end()); for (int d = 0; d < 3; d++) line_(a, n, d, -1); if (s == scale::full) for (cd& v : a) v /= (double)a.size(); pick_(out, n, a, y); }
    void backward(const cd* x, double* y, cd* = nullptr, scale s = scale::none) const { // complex in dimensions 2 and 1, then half-complex to real in dimension 0 (imaginary parts of its first and Nyquist entries are not read, as in FFTW)
        std::array<int, 3> h; std::vector<cd> a; gather_(out, x, h, a); std::array<int, 3> n = h; { std::vector<char> m(sizeof(int)); int hi = in.high[0] + 1; memcpy(m.data(), &hi, sizeof hi); n[0] = 0; for (auto& q : mpistub::allgather(m)) { int v; memcpy(&v, q.data(), sizeof v); n[0] = std::max(n[0], v); } }
        line_(a, h, 2, 1); line_(a, h, 1, 1); std::vector<double> r((size_t)n[0] * n[1] * n[2]); int N = n[0]; for (int k = 0; k < n[2]; k++) for (int j = 0; j < n[1]; j++) { cd* q = &a[(size_t)h[0] * (j + (size_t)h[1] * k)]; for (int i = 0; i < N; i++) { double v = q[0].real(); for (int m = 1; m <= N / 2; m++) { double p = 2 * M_PI * ((long)m * i % N) / N; if (2 * m == N) v += q[m].real() * (i % 2 ? -1 : 1); else v += 2 * (q[m].real() * std::cos(p) - q[m].imag() * std::sin(p)); } r[i + (size_t)N * (j + (size_t)n[1] * k)] = v; } }
        if (s == scale::full) for (double& v : r) v /= (double)r.size(); pick_(in, n, r, y); } };
}
#endif
