// Tensor kernels of the micromechanics codes on exhaustive grids: basis changes, Voigt notation, Euler angles, incremental rotations,
// equivalent strain/stress, dense inverses and solves, integer powers.
#include "mc.hpp"
#include <cmath>
#include "chg_basis.h"
#include "utilities.h"
#include "math_functions.h"
#include "voigt.h"
#include "euler.h"
#include "orient.h"
#include "vm.h"
using namespace mc;
static std::string vs(const double* a, int n) { std::ostringstream o; o.precision(6); for (int i = 0; i < n; i++) o << (i ? " " : "") << a[i]; return o.str(); }
static bool near(double a, double b, double t = 1e-9) { return std::fabs(a - b) <= t * (1 + std::fabs(b)); }
static const int IJ[6][2] = {{0, 0}, {1, 1}, {2, 2}, {1, 2}, {0, 2}, {0, 1}};
// storage of a (3,3) F-matrix: column-major
static int F2(int i, int j) { return i + 3 * j; } static int F4(int i, int j, int k, int l) { return i + 3 * (j + 3 * (k + 3 * l)); } static int FK(int n, int m, int K) { return n + K * m; }
static ChgBasis& cb() { static ChgBasis b; return b; }
static void basis2(Ctx& c, bool th) { double s[6]; static const double V[5] = {0, 1, -2, 0.5, 3}; for (double& x : s) x = V[c.choose(th ? 5 : 3)]; int K = c.flip() ? 5 : 6; double C2[9], v[6] = {0}, D2[9], w[6]; for (int q = 0; q < 6; q++) C2[F2(IJ[q][0], IJ[q][1])] = C2[F2(IJ[q][1], IJ[q][0])] = s[q]; std::string what = "symmetric tensor " + vs(s, 6) + " K" + std::to_string(K); c.key(what); c.note(what);
    double* B = cb().B_basis_host_pointer(); cb().chg_basis_2(v, C2, 2, K, B); cb().chg_basis_1(v, D2, 1, K, B); double tr = (s[0] + s[1] + s[2]) / 3; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double e = C2[F2(i, j)] - (K == 5 && i == j ? tr : 0); c.check(near(D2[F2(i, j)], e), what, "vector and back gives component " + std::to_string(i) + std::to_string(j) + " " + std::to_string(D2[F2(i, j)]) + " instead of " + std::to_string(e)); }
    cb().chg_basis_2(w, D2, 2, K, B); double n1 = 0, n2 = 0; for (int n = 0; n < K; n++) { c.check(near(w[n], v[n]), what, "back and forth changes vector component " + std::to_string(n)); n1 += v[n] * v[n]; } for (double x : D2) n2 += x * x; c.check(near(n1, n2), what, "the vector's norm is not the tensor's"); if (K == 6) c.check(near(v[5], tr * std::sqrt(3.0)), what, "the sixth component is not the hydrostatic part"); c.check(cb().B_basis_device_pointer() != nullptr, what, "no device basis"); for (int i = 0; i < 54; i++) c.check(cb().B_basis_device_pointer()[i] == B[i], what, "device and host bases differ"); c.state(hash(what)); c.step(); c.validated(); c.evals(); }
static void basis4(Ctx& c) { int K = c.flip() ? 5 : 6, a = c.choose(K), b = c.choose(K), a2 = c.choose(K), b2 = c.choose(K); double f = c.flip() ? 1 : -2.5; double M[36] = {0}, C4[81], N[36], D4[81]; M[FK(a, b, K)] += 1; M[FK(a2, b2, K)] += f; std::string what = "matrix e" + std::to_string(a) + std::to_string(b) + "+" + std::to_string(f) + "e" + std::to_string(a2) + std::to_string(b2) + " K" + std::to_string(K); c.key(what); c.note(what); double* B = cb().B_basis_host_pointer();
    cb().chg_basis_3(M, C4, 3, K, B); cb().chg_basis_4(N, C4, 4, K, B); for (int i = 0; i < K * K; i++) c.check(near(N[i], M[i]), what, "tensor and back changes entry " + std::to_string(i)); cb().chg_basis_3(N, D4, 3, K, B); for (int i = 0; i < 81; i++) c.check(near(D4[i], C4[i]), what, "tensor entry"); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) c.check(near(C4[F4(i, j, k, l)], C4[F4(j, i, k, l)]) && near(C4[F4(i, j, k, l)], C4[F4(i, j, l, k)]), what, "no minor symmetry");
    // consistency with the second-order map: (C:S) in vector form is M v
    for (int q = 0; q < 6; q++) { double S[9] = {0}, v[6] = {0}, r[9] = {0}, rv[6] = {0}; S[F2(IJ[q][0], IJ[q][1])] = S[F2(IJ[q][1], IJ[q][0])] = 1; cb().chg_basis_2(v, S, 2, K, B); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) r[F2(i, j)] += C4[F4(i, j, k, l)] * S[F2(k, l)]; cb().chg_basis_2(rv, r, 2, K, B); for (int n = 0; n < K; n++) { double e = 0; for (int m = 0; m < K; m++) e += M[FK(n, m, K)] * v[m]; c.check(near(rv[n], e), what, "double contraction is not the matrix product"); } } c.state(hash(what)); c.step(); c.validated(); c.evals(); }
static void voigts(Ctx& c) { int a = c.choose(6), b = c.choose(6), a2 = c.choose(6), b2 = c.choose(6); double f = c.flip() ? 3 : -0.5; int opt = c.choose(2) ? 3 : 1; double M[36] = {0}, C4[81] = {0}, N[36] = {0}; M[FK(a, b, 6)] += 1; M[FK(a2, b2, 6)] += f; std::string what = "voigt option " + std::to_string(opt) + " e" + std::to_string(a) + std::to_string(b) + " " + std::to_string(f) + "e" + std::to_string(a2) + std::to_string(b2); c.key(what); c.note(what); double M0[36]; memcpy(M0, M, sizeof M); voigt(M, C4, opt);
    for (int i = 0; i < 36; i++) c.check(M[i] == M0[i], what, "the input matrix changed"); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) { int p = i == j ? i : 6 - i - j, q = k == l ? k : 6 - k - l; double e = M[FK(p, q, 6)]; if (opt == 3) e *= (p >= 3 ? 0.5 : 1) * (q >= 3 ? 0.5 : 1); c.check(C4[F4(i, j, k, l)] == e, what, "tensor component " + std::to_string(i) + std::to_string(j) + std::to_string(k) + std::to_string(l)); } if (opt == 1) { double C0[81]; memcpy(C0, C4, sizeof C0); voigt(N, C4, 2); for (int i = 0; i < 36; i++) c.check(N[i] == M[i], what, "tensor to matrix entry " + std::to_string(i)); for (int i = 0; i < 81; i++) c.check(C0[i] == C4[i], what, "the input tensor changed"); } c.state(hash(what)); c.step(); c.validated(); c.evals(); }
static void rotcheck(Ctx& c, const double* a, const std::string& what, const char* w, double tol) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double s = 0, t = 0; for (int k = 0; k < 3; k++) { s += a[F2(i, k)] * a[F2(j, k)]; t += a[F2(k, i)] * a[F2(k, j)]; } c.check(near(s, i == j, tol) && near(t, i == j, tol), what, std::string(w) + " is not orthogonal: " + vs(a, 9)); } double d = a[0] * (a[4] * a[8] - a[5] * a[7]) - a[3] * (a[1] * a[8] - a[2] * a[7]) + a[6] * (a[1] * a[5] - a[2] * a[4]); c.check(near(d, 1, tol), what, std::string(w) + " has determinant " + std::to_string(d)); }
static void mul(const double* a, const double* b, double* r) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double s = 0; for (int k = 0; k < 3; k++) s += a[F2(i, k)] * b[F2(k, j)]; r[F2(i, j)] = s; } }
static void rz(double p, double* r) { double z[9] = {std::cos(p), -std::sin(p), 0, std::sin(p), std::cos(p), 0, 0, 0, 1}; memcpy(r, z, sizeof z); }   // column-major: rows (c s 0),(-s c 0),(0 0 1)
static void rx(double p, double* r) { double z[9] = {1, 0, 0, 0, std::cos(p), -std::sin(p), 0, std::sin(p), std::cos(p)}; memcpy(r, z, sizeof z); }
static void angles(Ctx& c, bool th) { static const double TH[9] = {0, 180, 90, 30, 1, 179, 120, 54.7356, 45}; int n = th ? 72 : 24; double ph = -180 + 360.0 / n * c.choose(n), t = TH[c.choose(9)], tm = -180 + 360.0 / n * c.choose(n); double d = std::acos(-1.0) / 180, p1 = ph * d, t1 = t * d, m1 = tm * d, a[9], b[9], e[9], z1[9], x[9], z2[9], q[9]; std::string what = "Euler angles " + std::to_string(ph) + " " + std::to_string(t) + " " + std::to_string(tm); c.key(what); c.note(what);
    double p0 = p1, t0 = t1, m0 = m1; euler(2, p1, t1, m1, a); c.check(p1 == p0 && t1 == t0 && m1 == m0, what, "building the matrix changed the angles"); rz(p1, z1); rx(t1, x); rz(m1, z2); mul(x, z1, q); mul(z2, q, e); for (int i = 0; i < 9; i++) c.check(near(a[i], e[i], 1e-12), what, "matrix " + vs(a, 9) + " instead of the Bunge rotation " + vs(e, 9)); rotcheck(c, a, what, "the matrix", 1e-12);
    double p, h, m; double a0[9]; memcpy(a0, a, sizeof a); euler(1, p, h, m, a); c.check(!memcmp(a, a0, sizeof a), what, "reading the angles changed the matrix"); c.check(h >= 0 && h <= 180.0001 && p >= -180.0001 && p <= 360.0001 && m >= -180.0001 && m <= 360.0001, what, "angles out of range: " + std::to_string(p) + " " + std::to_string(h) + " " + std::to_string(m)); double pr = p * d, hr = h * d, mr = m * d; euler(2, pr, hr, mr, b); for (int i = 0; i < 9; i++) c.check(near(b[i], a[i], 2e-8), what, "angles " + std::to_string(p) + " " + std::to_string(h) + " " + std::to_string(m) + " denote another rotation"); c.state(hash(what)); c.step(); c.validated(); c.evals(); }
static void spins(Ctx& c, bool th) { static const double V[5] = {0, 0.2, -0.7, 0.003, 1e-7}; double w[3]; for (double& x : w) x = V[c.choose(5)]; double d = std::acos(-1.0) / 180; static const double A[6] = {0, 30, 90, -45, 180, 10}; double ph = A[c.choose(th ? 6 : 4)] * d, t = A[c.choose(th ? 6 : 3)] * d, tm = A[c.choose(th ? 6 : 2)] * d; double a[9]; euler(2, ph, t, tm, a); int pat = c.choose(th ? 5 : 3); static const char* PAT[5] = {"+", "++", "+-", "+++", "-+-"}; int steps = (int)strlen(PAT[pat]); std::string what = "spin " + vs(w, 3) + " " + PAT[pat] + " on angles " + std::to_string(ph) + " " + std::to_string(t) + " " + std::to_string(tm); c.key(what); c.note(what);
    double cc[9] = {0}; cc[F2(2, 1)] = w[0]; cc[F2(1, 2)] = -w[0]; cc[F2(0, 2)] = w[1]; cc[F2(2, 0)] = -w[1]; cc[F2(1, 0)] = w[2]; cc[F2(0, 1)] = -w[2]; double n = std::sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]); double e[9]; memcpy(e, a, sizeof a); for (int s = 0; s < steps; s++) { if (PAT[pat][s] != (s ? PAT[pat][s - 1] : '+')) for (double& x : cc) x = -x; double R[9], r[9], k[9] = {0}, k2[9]; for (int i = 0; i < 9; i++) k[i] = n > 0 ? cc[i] / n : 0; mul(k, k, k2); for (int i = 0; i < 9; i++) R[i] = (i % 4 == 0) + std::sin(n) * k[i] + (1 - std::cos(n)) * k2[i]; mul(R, e, r); memcpy(e, r, sizeof r); double c0[9]; memcpy(c0, cc, sizeof c0); orient(a, cc); c.check(!memcmp(c0, cc, sizeof c0), what, "the spin changed"); rotcheck(c, a, what, "the rotated matrix", 1e-10); for (int i = 0; i < 9; i++) c.check(near(a[i], e[i], 1e-9), what, "rotated to " + vs(a, 9) + " instead of exp(w) a = " + vs(e, 9)); }
    double p, h, m; euler(1, p, h, m, a); c.check(std::isfinite(p) && std::isfinite(h) && std::isfinite(m), what, "the angles of the rotated crystal are not numbers"); c.state(hash(what)); c.step(steps); c.validated(); c.evals(); }
static void equiv(Ctx& c, bool th) { static const double V[4] = {0, 1, -2, 0.5}; double s[9]; int nv = th ? 4 : 3; for (int i = 0; i < 9; i++) s[i] = V[c.choose(i < 6 ? nv : 2)]; std::string what = "tensor " + vs(s, 9); c.key(what); c.note(what); double d[3][3], tr = (s[0] + s[4] + s[8]) / 3, q = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { d[i][j] = (s[F2(i, j)] + s[F2(j, i)]) / 2 - (i == j ? tr : 0); q += d[i][j] * d[i][j]; } double s0[9]; memcpy(s0, s, sizeof s); double e = vm(s); c.check(near(e, std::sqrt(2.0 / 3 * q), 1e-12), what, "equivalent strain " + std::to_string(e) + " instead of " + std::to_string(std::sqrt(2.0 / 3 * q))); if (s[1] == s[3] && s[2] == s[6] && s[5] == s[7]) { double v = vm_stress(s); c.check(near(v, std::sqrt(1.5 * q), 1e-12), what, "equivalent stress " + std::to_string(v) + " instead of " + std::to_string(std::sqrt(1.5 * q))); } c.check(!memcmp(s, s0, sizeof s), what, "the tensor changed"); c.state(hash(what)); c.step(); c.validated(); c.evals(); }
// dense matrices: exact reference by fraction-free elimination in long double
static double det3(const double* m) { return m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]); }
template<int n> static void invcheck(Ctx& c, const double* m, bool sing, const std::string& what) { double a[n * n]; memcpy(a, m, sizeof a); int e = invert_matrix<n>(a); if (sing) { c.check(e != 0, what, "a singular matrix is inverted without an error"); return; } c.check(e == 0, what, "an invertible matrix is refused"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double s = 0; for (int k = 0; k < n; k++) s += m[i * n + k] * a[k * n + j]; c.check(near(s, i == j, 1e-9), what, "matrix times inverse is not the identity at " + std::to_string(i) + "," + std::to_string(j) + ": " + std::to_string(s)); } }
static void inv3(Ctx& c, bool th) { double m[9]; static const double V[4] = {0, 1, -2, 0.5}; for (double& x : m) x = V[c.choose(th ? 4 : 3)]; std::string what = "3x3 matrix " + vs(m, 9); c.key(what); c.note(what); bool sing = det3(m) == 0;
    if (sing) { bool z = false; for (int i = 0; i < 3; i++) z |= (m[3 * i] == 0 && m[3 * i + 1] == 0 && m[3 * i + 2] == 0) || (m[i] == 0 && m[i + 3] == 0 && m[i + 6] == 0); if (!z) c.prune(); }   // rounding may hide other dependencies
    invcheck<3>(c, m, sing, what); double b[3] = {1, -2, 4}, A[9], x[3]; memcpy(A, m, sizeof A); memcpy(x, b, sizeof b); int e = solve_linear_system(A, x, 3); c.check((e != 0) == sing, what, sing ? "a singular system is solved without an error" : "a regular system is refused"); if (!sing) for (int i = 0; i < 3; i++) { double s = 0; for (int k = 0; k < 3; k++) s += m[i * 3 + k] * x[k]; c.check(near(s, b[i]), what, "the solution has residual " + std::to_string(s - b[i])); } c.state(hash(what)); c.step(); c.validated(); c.evals(); }
static void inv6(Ctx& c) { // permuted, scaled and sheared identities: every pivot position
    double m[36] = {0}; std::vector<int> left = {0, 1, 2, 3, 4, 5}; std::string what = "6x6 permutation"; for (int i = 0; i < 6; i++) { int k = c.choose((int)left.size()); m[i * 6 + left[k]] = std::ldexp(1.0, i - 2); what += " " + std::to_string(left[k]); left.erase(left.begin() + k); } int r = c.choose(6), q = c.choose(6); double f = c.flip() ? 2 : -0.25; if (r != q) for (int j = 0; j < 6; j++) m[r * 6 + j] += f * m[q * 6 + j]; int z = c.choose(4); bool sing = z > 0;   // singular: a row that doubles another one, a zero row, a zero column (eliminated without rounding: all entries are powers of two)
    if (sing) { if (r != q) c.prune(); int y = (r + 1) % 6; for (int j = 0; j < 6; j++) { if (z == 1) m[r * 6 + j] = 2 * m[y * 6 + j]; if (z == 2) m[r * 6 + j] = 0; if (z == 3) m[j * 6 + r] = 0; } } what += " row " + std::to_string(r) + "+=" + std::to_string(f) + "*" + std::to_string(q) + (sing ? " singular" + std::to_string(z) : ""); c.key(what); c.note(what); invcheck<6>(c, m, sing, what); double A[36], x[6]; memcpy(A, m, sizeof A); for (int i = 0; i < 6; i++) x[i] = i - 2; int e = solve_linear_system(A, x, 6); c.check((e != 0) == sing, what, "singularity is misjudged"); if (!sing) for (int i = 0; i < 6; i++) { double s = 0; for (int k = 0; k < 6; k++) s += m[i * 6 + k] * x[k]; c.check(near(s, i - 2), what, "the solution has a residual"); } c.state(hash(what)); c.step(); c.validated(); c.evals(); }
static void powers(Ctx& c) { static const double B[7] = {1, -1, 2, 0.5, -3, 10, 1.1}; double b = B[c.choose(7)]; int e = -30 + c.choose(61); std::string what = std::to_string(b) + "^" + std::to_string(e); c.key(what); c.note(what); double p = PowIntExpo(b, e); c.check(near(p / std::pow(b, e), 1, 1e-12), what, "is " + std::to_string(p)); double v[5]; for (double& x : v) x = B[c.choose(4)]; double mn = v[0], mx = v[0], s = 0; for (double x : v) { mn = std::min(mn, x); mx = std::max(mx, x); s += x; } c.check(minval(v, 5) == mn && maxval(v, 5) == mx && near(sum_array(v, 5), s, 1e-12), "min/max/sum of " + vs(v, 5), "wrong"); c.state(hash(what)); c.step(); c.validated(); c.evals(); }
int main(int argc, char** argv) { bool th = false; for (int i = 1; i < argc; i++) th |= !strcmp(argv[i], "--thorough");
    std::vector<Scenario> sc = {{"basis2", [th](Ctx& c) { basis2(c, th); }, 3}, {"basis4", basis4, 3}, {"voigt", voigts, 3}, {"angles", [th](Ctx& c) { angles(c, th); }, 2}, {"spins", [th](Ctx& c) { spins(c, th); }, 3}, {"equiv", [th](Ctx& c) { equiv(c, th); }, 4}, {"inv3", [th](Ctx& c) { inv3(c, th); }, 4}, {"inv6", inv6, 3}, {"powers", powers, 2}};
    return main_(argc, argv, "MTENS", sc); }
