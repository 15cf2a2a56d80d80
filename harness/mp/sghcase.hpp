// Cases of the hydrodynamic checks: meshes, mixtures, distortions, flows and their decks.
#pragma once
#include "sghref.hpp"
namespace mp {
inline S linear(int id, double B, double G, double r0, const S& diss, const std::vector<double>& dv, const S& more = "") { return "    - material:\n        id: " + std::to_string(id) + "\n        eos_model_type: decoupled\n        eos_model: linear_elastic_eos\n" + list("eos_global_vars", {B, G, r0, 1e-3}) + (diss.empty() ? "" : "        dissipation_model: " + diss + "\n" + list("dissipation_global_vars", dv)) + more; }
inline S voidmat(int id) { return "    - material:\n        id: " + std::to_string(id) + "\n        eos_model_type: decoupled\n        eos_model: void\n" + list("eos_global_vars", {0}); }
struct Case { int nd, nx, ny, nz; double L[3], O[3]; int mix, diss, walls, rk, cycles; double dt; int str = 0, ero = 0, lin = 0; S bcs; int solvers = 1; double t1 = 0; S multi; };
static const double STR[4][2] = {{0, 0}, {0.8, 1e9}, {0.8, 0.05}, {2, 0.004}}, ERO[4][2] = {{0, 0}, {-0.02, -1}, {-1e9, 1.2}, {-0.01, 0.7}};
static const double DISS[5][6] = {{0}, {1, 1, 1.333, 1.333, 0, 1}, {0.7, 0.2, 1.1, 0.4, 0, 0}, {1.3, 0.5, 0.9, 0.6, 0.3, 0.2}, {0, 0, 1.333, 0, 0, 0.5}};
// materials: 0 one gas, 1 two side by side, 2 two mixed, 3 the second of a mixture eroded in element 0, 4 the first, 5 a mixture of three of which one is void and one elastic, 6 mixed only in the second half
inline S matText(const Case& q, Ref& r, bool dir) { S name = q.diss ? S(dir ? "directional_MARS" : "MARS") + (q.nd == 2 ? "_rz" : "") : S(""); std::vector<double> dv(DISS[q.diss], DISS[q.diss] + 6); static const double GA[3] = {5. / 3, 1.4, 2}; int n = q.mix == 0 ? 1 : q.mix == 5 ? 3 : 2; r.mats.assign(n, RMat()); S t = "materials:\n"; for (int k = 0; k < n; k++) { auto& m = r.mats[k]; m.diss = q.diss ? dir ? 2 : 1 : 0; for (int i = 0; i < 6; i++) m.q[i] = dv[i]; m.g = GA[k]; m.cmin = k ? 0.4 : 1e-14; S more; if (q.str && !(q.mix == 5 && k == 1)) { m.hypo = true; m.G = STR[q.str][0] * (k + 1); m.Y = STR[q.str][1] * (k + 1); more += S("        strength_model_type: increment_based\n        strength_model: hypo_plasticity_strength") + (q.nd == 2 ? "_rz\n" : "\n") + list("strength_global_vars", {m.G, m.Y}); } if (q.ero) { m.erode = 1; m.et = ERO[q.ero][0]; m.ed = ERO[q.ero][1] * (k ? 0.5 : 1); more += "        erosion_model: basic\n        erode_tension_val: " + g17(m.et) + "\n        erode_density_val: " + g17(m.ed) + "\n"; }
    if (q.mix == 5 && k == 1) { m.eos = 1; m.diss = 0; m.erode = 0; t += voidmat(k); } else if ((q.mix == 5 && k == 2) || (q.lin && k == 0)) { m.eos = 2; m.bulk = 3; m.shear = 0.7; m.rho0 = k ? 1.9 : 1.3; m.cmin = 1e-3; t += linear(k, 3, 0.7, m.rho0, name, dv, more); } else t += gas(k, m.g, m.cmin, 1, name, dv, more); } return t; }
inline double den0(int k, bool half) { return (k == 0 ? 1.3 : k == 1 ? 0.6 : 2) * (half ? 1.5 : 1); }
inline double sie0(int k, bool half) { return 0.5 + 0.3 * k + (half ? 0.25 : 0); }
inline S regions(const Case& q) { auto reg = [&](const S& vol, int k, double vf) { return regionOf(vol, k, (vf < 1 ? uniform("volume_fraction", vf) : S("")) + uniform("density", den0(k, &vol != &GLOBAL)) + uniform("specific_internal_energy", sie0(k, &vol != &GLOBAL)) + cartesian(0, 0, 0)); }; double mid = q.O[0] + q.L[0] * (q.nx > 1 ? 0.4 : 2); S half = boxvol(mid, 99, -99, 99, -99, 99), t = "regions:\n"; switch (q.mix) { case 0: return t + reg(GLOBAL, 0, 1); case 1: return t + reg(GLOBAL, 0, 1) + reg(half, 1, 1); case 5: return t + reg(GLOBAL, 0, 0.3) + reg(GLOBAL, 1, 0.3) + reg(GLOBAL, 2, 0.4); case 6: return t + reg(GLOBAL, 0, 1) + reg(half, 0, 0.4) + reg(half, 1, 0.6); default: return t + reg(GLOBAL, 0, 0.3) + reg(GLOBAL, 1, 0.7); } }
inline void distort(V3& x, const Case& q, int kind) { double u[3] = {0}; for (int d = 0; d < q.nd; d++) u[d] = (x[d] - q.O[d]) / q.L[d]; V3 y = x; switch (kind) { case 0: return; case 1: y[0] += q.L[0] * 0.2 * u[1]; if (q.nd == 3) { y[1] += q.L[1] * 0.15 * u[2]; y[2] += q.L[2] * 0.1 * u[0]; } else y[1] += q.L[1] * 0.2 * u[0] * u[1]; break; default: y[0] += q.L[0] * 0.11 * std::sin(3 * u[1] + 2 * u[2] + u[0]); y[1] += q.L[1] * (q.nd == 2 ? u[1] : 1) * 0.09 * std::sin(2 * u[0] + 5 * u[2] + 1); if (q.nd == 3) y[2] += q.L[2] * 0.08 * std::cos(4 * u[0] - 3 * u[1]); } x = y; }
// velocities: 0 rest, 1 translation, 2 compression, 3 expansion, 4 shear, 5 rotation, 6 opposing halves, 7 node by node, then every single node in every direction
static const int NV = 8; static void flow(Ref& r, const Case& q, int k) { for (size_t g = 0; g < r.x.size(); g++) { auto &x = r.x[g]; auto& v = r.v[g]; v = {0, 0, 0}; double c[3] = {0}; for (int d = 0; d < q.nd; d++) c[d] = x[d] - q.O[d] - 0.45 * q.L[d]; switch (k) { case 0: break; case 1: v = {0.7, -0.4, 0.3}; break; case 2: v = {-c[0], -0.8 * c[1], -0.6 * c[2]}; break; case 3: v = {0.5 * c[0], 1.1 * c[1], 0.3 * c[2]}; break; case 4: v = {0.9 * c[1], 0.2 * c[2], -0.3 * c[0]}; break; case 5: v = {-c[1] + 0.3 * c[2], c[0], -0.3 * c[0]}; break; case 6: v = {c[0] > 0 ? -1. : 1., 0.3, 0}; break; case 7: v = {0.37 * ((g * 7) % 5) - 0.7, 0.29 * ((g * 11) % 7) - 0.8, 0.41 * ((g * 5) % 3) - 0.4}; break; default: if ((size_t)(k - NV) / q.nd == g) v[(k - NV) % q.nd] = g % 2 ? -1.1 : 0.9; } if (q.nd == 2) { v[2] = 0; if (q.O[1] == 0 && x[1] < 1e-9) v[1] = 0; } } }
inline S geo(const Case& q) { return q.nd == 3 ? box3(q.nx, q.ny, q.nz, q.L[0], q.L[1], q.L[2], q.O[0], q.O[1], q.O[2]) : box2(q.nx, q.ny, q.L[0], q.L[1], q.O[0], q.O[1]); }
inline S deckOf(const Case& q, Ref& r, bool dir) { S b = "boundary_conditions:\n"; auto wall = [&](int d, double pos) { std::vector<double> n(3, 0.0); n[d] = 1; static const char* T[3] = {"x_plane", "y_plane", "z_plane"}; return bc(T[d], pos, velbc("reflected", n)); }; if (q.walls) for (int d = 0; d < q.nd; d++) b += wall(d, q.O[d]) + wall(d, q.O[d] + q.L[d]); else if (q.nd == 2 && q.O[1] == 0) b += wall(1, 0); else b += bc("x_plane", 99, velbc("fixed")); if (!q.bcs.empty()) b = "boundary_conditions:\n" + q.bcs;
    return dynamics(100, q.cycles, q.dt, q.dt, q.dt, q.rk) + geo(q) + outputs("state", 1e30) + "solver_options:\n" + [&] { S s; for (int i = 0; i < q.solvers; i++) s += solver(q.nd == 3 ? "dynx_FE" : "dynx_FE_rz", i, i + 1 < q.solvers ? "        time_end: " + g17(q.t1) + "\n" : S("")); return s; }() + b + "multimaterial_options:\n    max_num_mats_per_element: 3\n" + q.multi + matText(q, r, dir) + regions(q); }
// the walls, by where the nodes stood in the undistorted box
inline void wallsOf(Ref& r, const Case& q, const std::vector<V3>& box) { std::vector<std::pair<size_t, int>> w; for (size_t g = 0; g < box.size(); g++) for (int d = 0; d < q.nd; d++) { bool lo = std::fabs(box[g][d] - q.O[d]) < 1e-9, hi = std::fabs(box[g][d] - q.O[d] - q.L[d]) < 1e-9; if (q.walls ? lo || hi : q.nd == 2 && q.O[1] == 0 && d == 1 && lo) w.push_back({g, d}); } r.bcs = [w](Ref& s, double) { for (auto& i : w) s.v[i.first][i.second] = 0; }; }
inline void fill(Sim& s, Ref& r, const Case& q) { auto& mp_ = s.st().MaterialToMeshMaps; r.pt.assign(r.mats.size(), {}); static const double DEN[3] = {1.3, 0.6, 2}; for (size_t k = 0; k < r.mats.size(); k++) for (size_t i = 0; i < mp_.num_mat_elems.host(k); i++) { RPt p{}; p.e = mp_.elem_in_mat_elem.host(k, i); p.vf = s.st().MaterialPoints.volfrac.host(k, i); p.gf = 1; if (q.mix == 5) p.gf = k == 0 ? 0.5 : 0.8; if (q.mix == 2 && p.e % 2) p.gf = k ? 0.9 : 0.6; p.sie = 0.5 + 0.3 * k + 0.2 * (p.e % 3); p.gone = p.e == 0 && (q.mix == 3 ? k == 1 : q.mix == 4 ? k == 0 : false); p.m = DEN[k] * (1 + 0.1 * (p.e % 2)) * r.vol[p.e] * p.vf * p.gf; r.pt[k].push_back(p); } }
}
