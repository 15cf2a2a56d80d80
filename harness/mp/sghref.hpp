// A direct evaluation of the staggered-grid equations, for 3D and axisymmetric (RZ) elements: the reference of the hydrodynamic checks.
#pragma once
#include "sim.hpp"
namespace mp {
struct RMat { int eos = 0; double g = 1.4, cmin = 1e-14, bulk = 0, shear = 0, rho0 = 1; int diss = 0; double q[6] = {1, 1, 1.333, 1.333, 0, 1}; bool hypo = false; double G = 0, Y = 0; int erode = 0; double et = -1e300, ed = -1e300; }; // eos 0 gamma, 1 void, 2 linear elastic; diss 0 none, 1 MARS, 2 directional
struct RPt { size_t e; double m, vf, gf, sie, sie0, den, p, c; bool gone; double s[3][3], s0[3][3]; std::vector<std::array<double, 3>> F; };
typedef std::array<double, 3> V3;
struct Ref { int nd = 3, nn = 8; std::vector<std::vector<size_t>> el, nbr, nodesn; std::vector<V3> x, v, x0, v0, F, fext; std::vector<double> m, M, vol; std::vector<RMat> mats; std::vector<std::vector<RPt>> pt; std::vector<std::array<std::array<double, 3>, 3>> L; bool fuzzy = false, coded = false;
    std::function<void(Ref&, double)> bcs; std::function<void(Ref&, double)> loads; std::vector<size_t> bdyn; double TINY = 1e-12, FUZZ = 1e-16, SMALL = 1e-8;
    // shape functions on [-1,1]; 3D nodes in i-j-k order, RZ nodes counterclockwise
    static const int* sg(int nd, int n) { static const int H[8][3] = {{-1, -1, -1}, {1, -1, -1}, {-1, 1, -1}, {1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {-1, 1, 1}, {1, 1, 1}}, Q[4][3] = {{-1, -1, 0}, {1, -1, 0}, {1, 1, 0}, {-1, 1, 0}}; return nd == 3 ? H[n] : Q[n]; }
    // measure (volume, or area) and its gradient with respect to every node
    double grad(size_t e, double B[8][3]) const { double V = 0, g = 1 / std::sqrt(3.0); for (int n = 0; n < nn; n++) for (int d = 0; d < 3; d++) B[n][d] = 0;
        for (int q = 0; q < (1 << nd); q++) { double X[3], dN[8][3], J[3][3] = {{0}}; for (int d = 0; d < 3; d++) X[d] = (q >> d & 1) ? g : -g; for (int n = 0; n < nn; n++) { const int* s = sg(nd, n); for (int d = 0; d < nd; d++) { double t = s[d]; for (int k = 0; k < nd; k++) t *= k == d ? 0.5 : 0.5 * (1 + s[k] * X[k]); dN[n][d] = t; } }
            if (nd == 2) J[2][2] = 1; for (int n = 0; n < nn; n++) for (int a = 0; a < nd; a++) for (int b = 0; b < nd; b++) J[a][b] += x[el[e][n]][a] * dN[n][b];
            double C[3][3]; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) C[a][b] = J[(a + 1) % 3][(b + 1) % 3] * J[(a + 2) % 3][(b + 2) % 3] - J[(a + 1) % 3][(b + 2) % 3] * J[(a + 2) % 3][(b + 1) % 3];
            V += J[0][0] * C[0][0] + J[0][1] * C[0][1] + J[0][2] * C[0][2]; for (int n = 0; n < nn; n++) for (int a = 0; a < nd; a++) for (int b = 0; b < nd; b++) B[n][a] += C[a][b] * dN[n][b]; }
        return V; }
    double area(size_t e) const { double B[8][3]; return grad(e, B); }
    // Barlow's corner areas: with them the corners' area times node radius add up to the volume per radian
    void corners(size_t e, double w[4]) const { double cx = 0, cy = 0, T[4]; for (int n = 0; n < 4; n++) { cx += x[el[e][n]][0] / 4; cy += x[el[e][n]][1] / 4; } for (int n = 0; n < 4; n++) { auto &a = x[el[e][n]], &b = x[el[e][(n + 1) % 4]]; T[n] = 0.5 * ((a[0] - cx) * (b[1] - cy) - (b[0] - cx) * (a[1] - cy)); } for (int n = 0; n < 4; n++) w[n] = (5 * T[n] + 5 * T[(n + 3) % 4] + T[(n + 1) % 4] + T[(n + 2) % 4]) / 12; }
    double volume(size_t e) const { if (nd == 3) return area(e); double V = 0; double g = 1 / std::sqrt(3.0); for (int q = 0; q < 4; q++) { double X[2] = {(q & 1) ? g : -g, (q & 2) ? g : -g}, J[2][2] = {{0}}, r = 0; for (int n = 0; n < 4; n++) { const int* s = sg(2, n); auto& p = x[el[e][n]]; r += 0.25 * (1 + s[0] * X[0]) * (1 + s[1] * X[1]) * p[1]; for (int a = 0; a < 2; a++) { J[a][0] += p[a] * 0.25 * s[0] * (1 + s[1] * X[1]); J[a][1] += p[a] * 0.25 * s[1] * (1 + s[0] * X[0]); } } V += r * (J[0][0] * J[1][1] - J[0][1] * J[1][0]); } return V; }
    void eos(int k, RPt& p) const { auto& M_ = mats[k]; p.den = p.m / (vol[p.e] * p.vf * p.gf); if (M_.eos == 0) { p.p = (M_.g - 1) * p.den * p.sie; p.c = std::max(std::sqrt(M_.g * (M_.g - 1) * p.sie), M_.cmin); if (!(p.sie > 0)) p.c = std::isnan(std::sqrt(M_.g * (M_.g - 1) * p.sie)) ? M_.cmin : p.c; } else if (M_.eos == 1) { p.p = 0; p.c = 1e-32; } else { p.p = M_.bulk * (p.den / M_.rho0 - 1); p.c = std::max(M_.cmin, std::sqrt((M_.bulk + 4. / 3 * M_.shear) / p.den)); } }
    void erode(int k, RPt& p) const { auto& M_ = mats[k]; if (!M_.erode) return; if (p.p <= M_.et || p.den <= M_.ed) p.gone = true; const_cast<bool&>(fuzzy) |= std::fabs(p.p - M_.et) < 1e-9 || std::fabs(p.den - M_.ed) < 1e-9; if (p.gone) { p.p = 0; p.c = 1e-32; p.den = 1e-32; for (auto& r : p.s) for (double& t : r) t = 0; } }
    // volumes, densities, pressures, sound speeds
    void state() { vol.resize(el.size()); for (size_t e = 0; e < el.size(); e++) vol[e] = volume(e); for (size_t k = 0; k < mats.size(); k++) for (auto& p : pt[k]) eos(k, p); }
    void masses() { m.assign(x.size(), 0); for (size_t k = 0; k < mats.size(); k++) for (auto& p : pt[k]) { if (nd == 3) for (size_t g : el[p.e]) m[g] += p.m / 8; else { double w[4]; corners(p.e, w); for (int n = 0; n < 4; n++) m[el[p.e][n]] += w[n] * p.m / vol[p.e]; } } M = m; if (nd == 2) for (size_t g = 0; g < x.size(); g++) M[g] *= x[g][1]; }
    void areal() { if (nd == 3) return; for (size_t g = 0; g < x.size(); g++) m[g] = x[g][1] > TINY ? M[g] / x[g][1] : 0; for (size_t g : bdyn) if (x[g][1] < TINY) for (size_t h : nodesn[g]) if (x[h][1] > TINY) m[g] = std::max(m[g], m[h] / 2); }
    void gradients() { L.resize(el.size()); for (size_t e = 0; e < el.size(); e++) { double B[8][3], A = grad(e, B); for (auto& r : L[e]) r.fill(0); for (int n = 0; n < nn; n++) for (int a = 0; a < nd; a++) for (int b = 0; b < nd; b++) L[e][a][b] += v[el[e][n]][a] * B[n][b] / A; if (nd == 2) { double vr = 0; for (size_t g : el[e]) vr += v[g][1] / 4; L[e][2][2] = vr * A / vol[e]; } } }
    double div(size_t e) const { return L[e][0][0] + L[e][1][1] + L[e][2][2]; }
    // multidirectional approximate Riemann solver: impedance-weighted average velocity, limited by the divergence of the neighbours, the Mach number and the vorticity
    void mars(int k, const RPt& p, const double B[8][3], double A, double D[8][3]) { auto& M_ = mats[k]; const auto& L_ = L[p.e]; double dv = div(p.e), Z[8], vb[3] = {0}, vs[3] = {0}, sz = 0; for (size_t g : el[p.e]) for (int d = 0; d < nd; d++) vb[d] += v[g][d] / nn; bool comp = dv < 0;
        for (int n = 0; n < nn; n++) { auto& u = v[el[p.e][n]]; double mv = 0, area = 0; for (int d = 0; d < nd; d++) { mv += (u[d] - vb[d]) * (u[d] - vb[d]); area += B[n][d] * B[n][d]; } mv = std::sqrt(mv); area = std::sqrt(area);
            if (M_.diss == 2) { double dir[3]; if (std::fabs(mv - SMALL) < 1e-12) fuzzy = true; for (int d = 0; d < nd; d++) dir[d] = mv > SMALL ? (u[d] - vb[d]) / mv : -B[n][d] / area; area = 0; for (int a = 0; a < nd; a++) { int o = nd == 3 ? n ^ (1 << a) : a == 0 ? (n + 1) % 4 : (n + 3) % 4; double t = 0; for (int d = 0; d < nd; d++) t += dir[d] * 0.5 * (B[n][d] - B[o][d]); area += std::fabs(t); } }
            Z[n] = p.den * ((comp ? M_.q[0] : M_.q[1]) * p.c + (comp ? M_.q[2] : M_.q[3]) * mv) * area; sz += Z[n]; for (int d = 0; d < nd; d++) vs[d] += Z[n] * u[d]; }
        for (int d = 0; d < nd; d++) vs[d] = sz > FUZZ ? vs[d] / sz : 0; double rmin = 1; for (size_t o : nbr[p.e]) rmin = std::min(rmin, 0.9 * (div(o) + SMALL) / (dv + SMALL)); double phi = 1 - std::max(0.0, rmin), len = nd == 3 ? std::cbrt(A) : std::sqrt(A); phi *= std::min(1.0, 20 * len * std::fabs(dv) / (p.c + FUZZ));
        double cu = nd == 3 ? std::sqrt(std::pow(L_[2][1] - L_[1][2], 2) + std::pow(L_[0][2] - L_[2][0], 2) + std::pow(L_[1][0] - L_[0][1], 2)) : std::fabs(L_[1][0] - L_[0][1]); double pc = std::max(M_.q[5], std::min(1.0, (nd == 3 ? 1 : 4) * std::fabs(dv) / (cu + FUZZ))); phi = std::max(M_.q[4], std::min(phi, pc));
        if (std::fabs(dv) < 1e-10 && (M_.q[0] != M_.q[1] || M_.q[2] != M_.q[3]) && phi > 1e-7) fuzzy = true; // the sign of the divergence is rounding
        for (int n = 0; n < nn; n++) for (int d = 0; d < nd; d++) D[n][d] = phi * Z[n] * (vs[d] - v[el[p.e][n]][d]); }
    // hypoelastic stress with a Jaumann rate and a radial return (3D)
    void strain(int k, RPt& p, double h) const { auto& M_ = mats[k]; if (!M_.hypo) return; const auto& L_ = L[p.e]; double dv = div(p.e), r[3][3], J2 = 0, D[3][3], W[3][3], s[3][3], s0[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { D[i][j] = 0.5 * (L_[i][j] + L_[j][i]); W[i][j] = 0.5 * (L_[i][j] - L_[j][i]); s[i][j] = p.s[i][j]; s0[i][j] = p.s0[i][j]; } if (nd == 2) for (auto* t : {s, s0}) { double q = (t[0][0] + t[1][1] + t[2][2]) / 3; for (int i = 0; i < 3; i++) t[i][i] -= q; }
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double t = 2 * M_.G * (D[i][j] - (i == j ? dv / 3 : 0)); for (int l = 0; l < 3; l++) t += W[i][l] * s[l][j] - s[i][l] * W[l][j]; r[i][j] = t; }
        if (coded) { double q = 0.5 * (s0[0][0] - s0[1][1]); auto ds = [&](int i, int j) { double t = 0; for (int l = 0; l < 2; l++) t += D[i][l] * s[l][j] + s[i][l] * D[l][j]; return t; }; auto ws = [&](int i, int j) { double t = 0; for (int l = 0; l < 2; l++) t += W[i][l] * s[l][j] - s[i][l] * W[l][j]; return t; }; // what the RZ model computes (a listed finding)
            for (auto& a : r) for (double& b : a) b = 0; r[0][0] = 2 * M_.G * (D[0][0] - dv / 3) + q * ds(0, 0) + s0[0][1] * (W[0][1] * s[1][0] - s[0][1] * W[1][0]); r[0][1] = M_.G * D[0][1] + s0[0][1] * ds(0, 1) - q * ws(0, 1); r[1][0] = M_.G * D[1][0] + s0[1][0] * ds(1, 0) - q * ws(1, 0); r[1][1] = 2 * M_.G * (D[1][1] - dv / 3) + W[1][0] * s[0][1] - s[1][0] * W[0][1]; r[2][2] = 2 * M_.G * (D[2][2] - dv / 3); }
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { r[i][j] = s0[i][j] + h * r[i][j]; J2 += 0.5 * r[i][j] * r[i][j]; } double f = std::min(1.0, M_.Y / std::sqrt(3 * J2 + FUZZ)); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) p.s[i][j] = f * r[i][j]; if (coded) p.s[1][0] = p.s[0][1]; }
    // Tipton's relaxation of the volume fractions (which 0, material) or the geometric ones (1) of the materials of each element towards one pressure
    double eqv[2][2] = {{-1, 1}, {-1, 1}}; double moved = 0;
    void relax(int which, double h) { if (eqv[which][0] < 0) return; double lim = std::min(1.0, eqv[which][0]), co = eqv[which][1]; for (size_t e = 0; e < el.size(); e++) { std::vector<std::pair<size_t, RPt*>> in; for (size_t k = 0; k < mats.size(); k++) for (auto& p : pt[k]) if (p.e == e) in.push_back({k, &p}); auto f = [&](RPt& p) -> double& { return which ? p.gf : p.vf; };
            double sr = 0, sp = 0, lo = 1, big = 0; std::vector<double> R, d; bool part = false, full = false; for (auto& i : in) { bool on = f(*i.second) < 1; part |= on; full |= !on; R.push_back(f(*i.second) / (i.second->den * i.second->c * i.second->c + FUZZ)); sr += R.back(); sp += R.back() * i.second->p; lo = std::min(lo, f(*i.second)); } if (part && full) fuzzy = true; double pb = part ? sp / (sr + FUZZ) : 0;
            for (size_t n = 0; n < in.size(); n++) { auto& p = *in[n].second; d.push_back(part ? R[n] * (p.p - pb) / (co + FUZZ) + (R[n] / (sr + FUZZ) - f(p)) * div(e) * h : 0); big = std::max(big, std::fabs(d.back())); } double sc = std::min(1.0, lim * lo / (big + FUZZ));
            for (size_t n = 0; n < in.size(); n++) { auto& p = *in[n].second; double ch = sc * d[n], o = which ? p.vf : p.gf; ch = std::min(ch, 1 - f(p)); f(p) += ch; if (f(p) < 1e-6) fuzzy = true; moved = std::max(moved, std::fabs(ch)); p.sie -= pb * ch * vol[e] * o / (p.m + 1e-20); eos(in[n].first, p); if (p.gone) { p.p = 0; p.c = 1e-32; p.den = 1e-32; } } } }
    void stage(double h, double t) { gradients(); F.assign(x.size(), V3{0, 0, 0});
        for (size_t k = 0; k < mats.size(); k++) for (auto& p : pt[k]) { double B[8][3], A = grad(p.e, B), D[8][3] = {{0}}, w[4] = {0}; p.F.assign(nn, V3{0, 0, 0}); if (p.gone) { strain(k, p, h); continue; } if (mats[k].diss) mars(k, p, B, A, D); double T[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) T[i][j] = p.s[i][j] - (i == j ? p.p : 0); if (nd == 2) corners(p.e, w);
            for (int n = 0; n < nn; n++) { for (int d = 0; d < nd; d++) { double f = D[n][d]; for (int a = 0; a < nd; a++) f -= B[n][a] * T[a][d]; if (nd == 2) f += (d == 0 ? T[1][0] : T[1][1] - T[2][2]) * w[n] * A / vol[p.e]; p.F[n][d] = f * p.vf * p.gf; F[el[p.e][n]][d] += p.F[n][d]; } } strain(k, p, h); }
        if (loads) loads(*this, t); for (size_t g = 0; g < x.size(); g++) for (int d = 0; d < nd; d++) v[g][d] = v0[g][d] + h * F[g][d] / m[g]; if (bcs) bcs(*this, t);
        for (size_t k = 0; k < mats.size(); k++) for (auto& p : pt[k]) { double w = 0; for (int n = 0; n < nn; n++) { size_t g = el[p.e][n]; for (int d = 0; d < nd; d++) w += p.F[n][d] * 0.5 * (v[g][d] + v0[g][d]) * (nd == 2 ? x[g][1] : 1); } p.sie = p.sie0 - h * w / p.m; }
        for (size_t g = 0; g < x.size(); g++) for (int d = 0; d < nd; d++) x[g][d] = x0[g][d] + h * 0.5 * (v[g][d] + v0[g][d]); state(); for (size_t k = 0; k < mats.size(); k++) for (auto& p : pt[k]) erode(k, p); areal(); relax(0, h); relax(1, h); }
    void step(double dt, int rk, double t) { x0 = x; v0 = v; for (auto& q : pt) for (auto& p : q) { p.sie0 = p.sie; memcpy(p.s0, p.s, sizeof p.s); } for (int s = 0; s < rk; s++) stage(dt / (rk - s), t); }
    void totals(double& mass, double mom[3], double& E) const { mass = E = 0; for (int d = 0; d < 3; d++) mom[d] = 0; for (size_t g = 0; g < x.size(); g++) for (int d = 0; d < nd; d++) { mom[d] += M[g] * v[g][d]; E += 0.5 * M[g] * v[g][d] * v[g][d]; } for (auto& q : pt) for (auto& p : q) { mass += p.m; E += p.m * p.sie; } }
    // connectivity from the mesh of a run
    void mesh(swage::Mesh& ms) { nd = ms.num_dims; nn = ms.num_nodes_in_elem; el.resize(ms.num_elems); nbr.resize(ms.num_elems); for (size_t e = 0; e < ms.num_elems; e++) { el[e].clear(); for (int n = 0; n < nn; n++) el[e].push_back(ms.nodes_in_elem.host(e, n)); }
        for (size_t e = 0; e < el.size(); e++) { nbr[e].clear(); for (size_t o = 0; o < el.size(); o++) { int share = 0; for (size_t g : el[e]) share += std::count(el[o].begin(), el[o].end(), g); if (o != e && share > 0) nbr[e].push_back(o); } }
        nodesn.assign(ms.num_nodes, {}); for (size_t g = 0; g < ms.num_nodes; g++) for (size_t i = 0; i < ms.num_nodes_in_node(g); i++) nodesn[g].push_back(ms.nodes_in_node(g, i)); bdyn.clear(); for (size_t i = 0; i < ms.num_bdy_nodes; i++) bdyn.push_back(ms.bdy_nodes(i)); x.assign(ms.num_nodes, V3{0, 0, 0}); v = x; }
};
// the reference's state written over that of a run (after setup), and compared with it (after execution)
inline void imprint(Sim& s, Ref& r) { auto& st = s.st(); for (size_t g = 0; g < r.x.size(); g++) { for (int d = 0; d < r.nd; d++) { st.node.coords.host(g, d) = r.x[g][d]; st.node.vel.host(g, d) = r.v[g][d]; } st.node.mass.host(g) = r.m[g]; } st.node.coords.update_device(); st.node.vel.update_device(); st.node.mass.update_device(); geometry::get_vol(st.GaussPoints.vol, st.node.coords, s.mesh());
    auto& P = st.MaterialPoints; for (size_t k = 0; k < r.mats.size(); k++) for (size_t i = 0; i < r.pt[k].size(); i++) { auto& p = r.pt[k][i]; P.mass.host(k, i) = p.m; P.volfrac.host(k, i) = p.vf; P.geo_volfrac.host(k, i) = p.gf; P.sie.host(k, i) = p.sie; P.den.host(k, i) = p.den; P.pres.host(k, i) = p.p; P.sspd.host(k, i) = p.c; P.eroded.host(k, i) = p.gone; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) P.stress.host(k, i, a, b) = p.s[a][b]; }
    P.mass.update_device(); P.volfrac.update_device(); P.geo_volfrac.update_device(); P.sie.update_device(); P.den.update_device(); P.pres.update_device(); P.sspd.update_device(); P.eroded.update_device(); P.stress.update_device(); }
inline void fetch(Sim& s) { auto& st = s.st(); auto& P = st.MaterialPoints; st.node.coords.update_host(); st.node.vel.update_host(); st.node.mass.update_host(); st.GaussPoints.vol.update_host(); P.mass.update_host(); P.sie.update_host(); P.den.update_host(); P.pres.update_host(); P.sspd.update_host(); P.eroded.update_host(); P.stress.update_host(); P.volfrac.update_host(); }
inline void compare(Ctx& c, const S& key, Sim& s, Ref& r, const S& when, double tol = 1e-9) { fetch(s); auto& st = s.st(); auto& P = st.MaterialPoints; auto is = [&](const S& what, size_t a, double got, double want, double sc = 1) { c.check(near(got, want, tol, sc), key, when + ": " + what + " " + std::to_string(a) + " is " + num(got) + ", the equations give " + num(want)); };
    const char* X = "xyz"; for (size_t g = 0; g < r.x.size(); g++) { for (int d = 0; d < r.nd; d++) { is(S("velocity ") + X[d] + " of node", g, st.node.vel.host(g, d), r.v[g][d]); is(S("coordinate ") + X[d] + " of node", g, st.node.coords.host(g, d), r.x[g][d]); } is("mass of node", g, st.node.mass.host(g), r.m[g], 1e-2); }
    for (size_t e = 0; e < r.el.size(); e++) is("volume of element", e, st.GaussPoints.vol.host(e), r.vol[e], 1e-2);
    for (size_t k = 0; k < r.mats.size(); k++) { S n = "material " + std::to_string(k) + " in element"; for (size_t i = 0; i < r.pt[k].size(); i++) { auto& p = r.pt[k][i]; is("mass of " + n, p.e, P.mass.host(k, i), p.m, 1e-2); is("energy of " + n, p.e, P.sie.host(k, i), p.sie); c.check(P.eroded.host(k, i) == p.gone, key, when + ": " + n + " " + std::to_string(p.e) + (p.gone ? " should be eroded" : " should not be eroded")); is("density of " + n, p.e, P.den.host(k, i), p.den); is("pressure of " + n, p.e, P.pres.host(k, i), p.p); is("sound speed of " + n, p.e, P.sspd.host(k, i), p.c); for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) is("stress " + std::to_string(a) + std::to_string(b) + " of " + n, p.e, P.stress.host(k, i, a, b), p.s[a][b]); } }
    c.evals(r.x.size() + r.el.size()); }
}
