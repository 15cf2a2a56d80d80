// Element geometry: volumes, areas, B matrices and corner areas of every distorted element of a family, against
// exact quadrature of the shape functions, plus the identities the solvers rely on (sum B = 0, sum B x = V I).
#include "mp.hpp"
#include "geometry_new.hpp"
using namespace mp;
MP_EXIT
static const double SC[3][3] = {{1, 1, 1}, {0.01, 2, 0.5}, {3, 0.125, 40}};
// trilinear element: volume and integral of the shape function gradients by the 2x2x2 Gauss rule (exact)
static void hexref(const double x[8][3], double& V, double B[8][3]) {
    V = 0; memset(B, 0, 24 * sizeof(double)); double g = 1 / std::sqrt(3.0);
    for (int q = 0; q < 8; q++) { double X[3]; for (int d = 0; d < 3; d++) X[d] = (q >> d & 1) ? g : -g; double dN[8][3];
        for (int n = 0; n < 8; n++) for (int d = 0; d < 3; d++) { double v = 0.125; for (int k = 0; k < 3; k++) { double s = (n >> k & 1) ? 1 : -1; v *= k == d ? s : 1 + s * X[k]; } dN[n][d] = v; }
        double J[3][3] = {{0}}; for (int n = 0; n < 8; n++) for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) J[a][b] += x[n][a] * dN[n][b];
        double C[3][3]; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { int a1 = (a + 1) % 3, a2 = (a + 2) % 3, b1 = (b + 1) % 3, b2 = (b + 2) % 3; C[a][b] = J[a1][b1] * J[a2][b2] - J[a1][b2] * J[a2][b1]; }
        V += J[0][0] * C[0][0] + J[0][1] * C[0][1] + J[0][2] * C[0][2]; for (int n = 0; n < 8; n++) for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) B[n][a] += C[a][b] * dN[n][b]; } }
// an element among others: its nodes are scattered in a larger node array, and it is not element 0
struct Setup { swage::Mesh m; DCArrayKokkos<double> xc, vol; size_t e; Setup(int nd, const double (*x)[3], int perm) {
    int nn = nd == 3 ? 8 : 4; m.initialize_nodes(2 * nn + 3); m.initialize_elems(3, nd); xc = DCArrayKokkos<double>(2 * nn + 3, nd); vol = DCArrayKokkos<double>(3); e = perm % 3;
    for (size_t i = 0; i < m.num_nodes; i++) for (int d = 0; d < nd; d++) xc.host(i, d) = 100 + 13 * i + d;
    for (int n = 0; n < nn; n++) { size_t g = perm == 0 ? n : perm == 1 ? 2 * nn + 1 - 2 * n : (3 * n + 5) % (nn + 3); for (int d = 0; d < nd; d++) xc.host(g, d) = x[n][d]; for (size_t k = 0; k < 3; k++) m.nodes_in_elem.host(k, n) = k == e ? g : (size_t)(2 * nn + 2); }
    xc.update_device(); m.nodes_in_elem.update_device(); } };
static void hex(Ctx& c, bool th) {
    static const double D[6][3] = {{0, 0, 0}, {0.2, 0, 0}, {0, -0.15, 0.1}, {-0.1, 0.1, 0.25}, {-0.3, 0, 0.05}, {0.07, 0.3, -0.2}}; int sc = c.choose(3), perm = c.choose(3), nd = th ? 5 : 4; double x[8][3]; std::string k = "hex scale " + std::to_string(sc) + " order " + std::to_string(perm) + " nodes ";
    for (int n = 0; n < 8; n++) { int p = c.choose(th && sc ? 4 : nd); k += std::to_string(p); for (int d = 0; d < 3; d++) x[n][d] = SC[sc][d] * ((n >> d & 1) + D[p][d] + (sc == 1 ? -4 : 0)); }
    c.key(k); Setup s(3, x, perm); double V, B[8][3]; hexref(x, V, B); ViewCArrayKokkos<size_t> gids(&s.m.nodes_in_elem(s.e, 0), 8); double b[24]; for (double& v : b) v = 1e30; ViewCArrayKokkos<double> bm(b, 8, 3);
    geometry::get_bmatrix(bm, s.e, s.xc, gids); geometry::get_vol(s.vol, s.xc, s.m); double v = s.vol(s.e); if (V <= 1e-14) { c.check(v == 1e-14, k, "the volume of an inverted element is not the smallest allowed one"); return; }
    double tol = 1e-11, ext = 0; for (auto& r : x) for (double q : r) ext = std::max(ext, std::fabs(q)); double av = V + 1e-3 * ext * ext * ext;
    c.check(std::fabs(v - V) <= tol * av, k, "volume " + num(v) + " instead of " + num(V)); for (int n = 0; n < 8; n++) for (int d = 0; d < 3; d++) c.check(std::fabs(b[n * 3 + d] - B[n][d]) <= tol * (std::fabs(B[n][d]) + ext * ext), k, "B(" + std::to_string(n) + "," + std::to_string(d) + ") is " + num(b[n * 3 + d]) + " instead of " + num(B[n][d]));
    c.state(hash(k)); c.step(8); c.validated(); c.evals(26); }
static void quad(Ctx& c, bool th) {
    static const double D[7][2] = {{0, 0}, {0.2, 0}, {-0.15, 0.1}, {0, -0.25}, {0.1, 0.3}, {-0.3, -0.1}, {0.05, 0.15}}; static const int Q[4][2] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}}; static const double Y0[3] = {0, 1, 25}; int sc = c.choose(3), perm = c.choose(3), yo = c.choose(3), tip = c.choose(2); double x[4][3] = {{0}}; std::string k = "quad scale " + std::to_string(sc) + " order " + std::to_string(perm) + " height " + num(Y0[yo]) + (tip ? " collapsed " : " ") + "nodes ";
    for (int n = 0; n < 4; n++) { int p = c.choose(th ? 7 : 5); k += std::to_string(p); x[n][0] = SC[sc][0] * (Q[n][0] + D[p][0]); x[n][1] = SC[sc][1] * (Q[n][1] + D[p][1] + 0.3 + Y0[yo]); } if (tip) { x[3][0] = x[0][0]; x[3][1] = x[0][1]; } // a triangle at an axis
    c.key(k); Setup s(2, x, perm); double A = 0, R = 0, B[4][2] = {{0}}, g = 1 / std::sqrt(3.0);
    for (int q = 0; q < 4; q++) { double X = q & 1 ? g : -g, Y = q & 2 ? g : -g, dN[4][2], N[4]; for (int n = 0; n < 4; n++) { double sx = Q[n][0] ? 1 : -1, sy = Q[n][1] ? 1 : -1; N[n] = 0.25 * (1 + sx * X) * (1 + sy * Y); dN[n][0] = 0.25 * sx * (1 + sy * Y); dN[n][1] = 0.25 * sy * (1 + sx * X); } double J[2][2] = {{0}}, r = 0; for (int n = 0; n < 4; n++) { r += N[n] * x[n][1]; for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) J[a][b] += x[n][a] * dN[n][b]; } double j = J[0][0] * J[1][1] - J[0][1] * J[1][0]; A += j; R += j * r; for (int n = 0; n < 4; n++) { B[n][0] += J[1][1] * dN[n][0] - J[1][0] * dN[n][1]; B[n][1] += -J[0][1] * dN[n][0] + J[0][0] * dN[n][1]; } }
    ViewCArrayKokkos<size_t> gids(&s.m.nodes_in_elem(s.e, 0), 4); double b[8], w[4]; for (double& v : b) v = 1e30; for (double& v : w) v = 1e30; ViewCArrayKokkos<double> bm(b, 4, 2), ca(w, 4); geometry::get_bmatrix2D(bm, s.e, s.xc, gids); geometry::get_area_weights2D(ca, s.e, s.xc, gids); geometry::get_vol(s.vol, s.xc, s.m); double a = geometry::get_area_quad(s.e, s.xc, gids), v = s.vol(s.e); double ext = 0; for (auto& r : x) for (double q : r) ext = std::max(ext, std::fabs(q)); double tol = 1e-11;
    c.check(std::fabs(a - A) <= tol * (A + ext * ext), k, "area " + num(a) + " instead of " + num(A)); c.check(std::fabs(v - R) <= tol * (R + ext * ext * ext), k, "volume per radian " + num(v) + " instead of " + num(R)); for (int n = 0; n < 4; n++) for (int d = 0; d < 2; d++) c.check(std::fabs(b[n * 2 + d] - B[n][d]) <= tol * ext, k, "B(" + std::to_string(n) + "," + std::to_string(d) + ") is " + num(b[n * 2 + d]) + " instead of " + num(B[n][d]));
    // corner areas: Barlow's weights of the four triangles around the centre; they add up to the element
    double xc = 0, yc = 0; for (int n = 0; n < 4; n++) { xc += x[n][0] / 4; yc += x[n][1] / 4; } double T[4], sum = 0; bool convex = true; for (int n = 0; n < 4; n++) { int m = (n + 1) % 4; double t = 0.5 * ((x[n][0] - xc) * (x[m][1] - yc) - (x[m][0] - xc) * (x[n][1] - yc)); convex &= t >= 0; T[n] = std::fabs(t); sum += w[n]; }
    for (int n = 0; n < 4; n++) { double e = (5 * T[n] + 5 * T[(n + 3) % 4] + T[(n + 1) % 4] + T[(n + 2) % 4]) / 12; c.check(std::fabs(w[n] - e) <= 1e-7 * (e + ext * ext), k, "corner area " + std::to_string(n) + " is " + num(w[n]) + " instead of " + num(e)); } if (convex) c.check(std::fabs(sum - A) <= 1e-7 * (A + ext * ext), k, "the corner areas add up to " + num(sum) + ", the element is " + num(A));
    c.state(hash(k)); c.step(4); c.validated(); c.evals(14); }
int main(int argc, char** argv) { bool th = false; for (int i = 1; i < argc; i++) th |= !strcmp(argv[i], "--thorough");
    return main_(argc, argv, "GEOM", {{"hex", [th](Ctx& c) { hex(c, th); }, 4}, {"quad", [th](Ctx& c) { quad(c, th); }, 4}}); }
