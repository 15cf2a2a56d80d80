// Level sets: every cycle against a direct evaluation of the scheme, and the motion of the whole problem with its origin.
#include "sghcase.hpp"
using namespace mp;
MP_EXIT
struct LCase { int nd, nx, ny, nz; double L[3], O[3]; int mats, bcs, rk, cycles, solvers; double dt, speed[2]; };
static const double SPEED[5] = {0.3, -0.2, 0, 1.5, -2};
// materials: 0 one front everywhere, 1 fronts of two speeds side by side, 2 a front beside a material without one, 3 a front mixed with a material without one
static S lmats(const LCase& q) { S t = "materials:\n"; for (int m = 0; m < (q.mats ? 2 : 1); m++) t += "    - material:\n        id: " + std::to_string(m) + "\n" + (m == 0 || q.mats == 1 ? "        level_set_type: evolve_front\n        normal_velocity: " + g17(q.speed[m]) + "\n        curvature_velocity: 0\n" : "        eos_model_type: decoupled\n        eos_model: gamma_law_gas\n        eos_global_vars:\n            - 1.4\n            - 1\n            - 1\n"); return t; }
static double lmid(const LCase& q) { return q.O[0] + q.L[0] * (q.nx > 1 ? 0.4 : 2); }
static S lregions(const LCase& q) { S f = "        level_set:\n            type: uniform\n            value: 1\n", t = "regions:\n" + regionOf(GLOBAL, 0, (q.mats == 3 ? uniform("volume_fraction", 0.5) : S("")) + f); if (q.mats == 1 || q.mats == 2) t += regionOf(boxvol(lmid(q), 99, -99, 99, -99, 99), 1, f); if (q.mats == 3) t += regionOf(GLOBAL, 1, uniform("volume_fraction", 0.5) + f); return t; }
// boundaries: 0 nothing on the mesh, 1 slip walls all around, 2 slip walls in x, 3 held lower x side, 4 the slip walls of the other solver, 5 held lower x and slip y
struct Wall { int d, s, model, solver; };
static std::vector<Wall> walls(const LCase& q) { std::vector<Wall> w; auto all = [&](int n, int sv) { for (int d = 0; d < n; d++) for (int s = 0; s < 2; s++) w.push_back({d, s, 0, sv}); }; switch (q.bcs) { case 0: break; case 1: all(q.nd, 0); break; case 2: all(1, 0); break; case 3: w.push_back({0, 0, 1, 0}); break; case 4: all(q.nd, q.solvers - 1); break; default: w.push_back({0, 0, 1, 0}); for (int s = 0; s < 2; s++) w.push_back({1, s, 0, 0}); } return w; }
static S ldeck(const LCase& q) { static const char* P[3] = {"x_plane", "y_plane", "z_plane"}; S b = "boundary_conditions:\n"; for (auto& w : walls(q)) { std::vector<double> n(3, 0.0); n[w.d] = 1; b += bc(P[w.d], q.O[w.d] + w.s * q.L[w.d], w.model ? velbc("fixed") : velbc("reflected", n), w.solver); } if (b.size() < 30) b += bc("x_plane", 1e6, velbc("fixed")); S sv; for (int i = 0; i < q.solvers; i++) sv += solver("level_set", i, i + 1 < q.solvers ? "        time_end: " + g17(50) + "\n" : S(""));
    return dynamics(100, q.cycles, q.dt, q.dt, q.dt, q.rk) + (q.nd == 3 ? box3(q.nx, q.ny, q.nz, q.L[0], q.L[1], q.L[2], q.O[0], q.O[1], q.O[2]) : box2(q.nx, q.ny, q.L[0], q.L[1], q.O[0], q.O[1])) + outputs("viz", 1e30) + "solver_options:\n" + sv + b + "multimaterial_options:\n    max_num_mats_per_element: 2\n" + lmats(q) + lregions(q); }
static const int NF = 9;
static double field(int k, const V3& u, int nd) { double a = u[0] - 0.45, b = u[1] - 0.55, c = nd == 3 ? u[2] - 0.4 : 0; switch (k) { case 0: return a; case 1: return -b; case 2: return nd == 3 ? c : a + b; case 3: return std::sqrt(a * a + b * b + c * c) - 0.3; case 4: return 0.25 - std::sqrt(a * a + 1.3 * b * b + c * c); case 5: return std::min(std::hypot(u[0] - 0.1, u[1] - 0.1), std::hypot(u[0] - 0.8, u[1] - 0.9)) - 0.2; case 6: return 3 * a * b + 0.2 * c; case 7: return std::fabs(a) - 0.2 + 0.1 * b; default: return 0.7; } }
struct LRef { Ref r; std::vector<double> phi, p0; std::vector<V3> g, u; std::vector<bool> flat; std::vector<std::vector<size_t>> el; bool fuzzy = false;
    void gradient() { size_t N = r.x.size(); g.assign(N, {0, 0, 0}); std::vector<double> V(N, 0); for (size_t e = 0; e < r.el.size(); e++) { double B[8][3], m = r.grad(e, B); for (int n = 0; n < r.nn; n++) { size_t k = r.el[e][n]; V[k] += m / r.nn; for (int d = 0; d < r.nd; d++) g[k][d] -= B[n][d] * phi[e]; } } u = g; flat.assign(N, false); for (size_t k = 0; k < N; k++) { double m = 0; for (int d = 0; d < r.nd; d++) { g[k][d] /= V[k]; m += g[k][d] * g[k][d]; } m = std::sqrt(m); for (int d = 0; d < r.nd; d++) u[k][d] = g[k][d] / (m + 1e-16); flat[k] = m < 1e-9; } }
    void move(const std::vector<size_t>& els, double v, double h) { std::vector<double> now = phi; for (size_t e : els) { double B[8][3], A = r.grad(e, B), dx = 2 * std::pow(A, 1.0 / r.nd), s = now[e] / std::sqrt(now[e] * now[e] + dx * dx), sw = 0, H = 0, top = 0; bool some = false, steep = false, edge = false; std::vector<std::array<double, 2>> wq; for (int n = 0; n < r.nn; n++) { size_t k = r.el[e][n]; double q = 0, w = 0; for (int d = 0; d < r.nd; d++) { q += u[k][d] * g[k][d]; w -= (v + s) * u[k][d] * B[n][d]; top += std::fabs(B[n][d]); } some = some || flat[k]; steep = steep || q > 1e-9; wq.push_back({w, q}); w = std::max(0.0, w); sw += w; H += w * q; } for (auto& x : wq) edge = edge || (x[1] > 1e-9 && std::fabs(x[0]) < 1e-10 * top); if ((some && steep) || (edge && sw < 1e-6 * top) || (sw > 0 && sw < 1e-9 * top)) fuzzy = true; H /= sw + 1e-16; phi[e] = p0[e] - h * (v * H + s * (H - 1)); } } };
static void build(Ctx& c, LCase& q, int kind, int f, int spike, const S& tag) {
    S deck = ldeck(q); S id = deck + tag; c.key(id); c.note(id); Sim s; simulate(s, deck, SETUP); c.check(s.out.ok, id, "refused: " + s.out.what); LRef R; R.r.nd = q.nd; R.r.nn = q.nd == 3 ? 8 : 4; R.r.mesh(s.mesh()); auto& st = s.st(); size_t N = R.r.x.size(), E = R.r.el.size();
    for (size_t g = 0; g < N; g++) for (int d = 0; d < q.nd; d++) R.r.x[g][d] = st.node.coords.host(g, d); auto box = R.r.x; Case cc{}; cc.nd = q.nd; for (int d = 0; d < 3; d++) { cc.L[d] = q.L[d]; cc.O[d] = q.O[d]; } for (auto& x : R.r.x) distort(x, cc, kind);
    for (size_t g = 0; g < N; g++) for (int d = 0; d < q.nd; d++) st.node.coords.host(g, d) = R.r.x[g][d]; st.node.coords.update_device(); R.phi.resize(E); for (size_t e = 0; e < E; e++) { V3 u{0, 0, 0}; for (size_t g : R.r.el[e]) for (int d = 0; d < q.nd; d++) u[d] += (R.r.x[g][d] - q.O[d]) / R.r.nn / q.L[d]; R.phi[e] = field(f, u, q.nd) + (spike - 1 == (int)(2 * e) ? 0.37 : spike - 1 == (int)(2 * e + 1) ? -0.37 : 0); st.GaussPoints.vol.host(e) = R.r.volume(e); st.GaussPoints.level_set.host(e) = R.phi[e]; } st.GaussPoints.vol.update_device(); st.GaussPoints.level_set.update_device();
    int nm = q.mats ? 2 : 1; std::vector<std::vector<size_t>> els(nm); for (int m = 0; m < nm; m++) for (size_t i = 0; i < st.MaterialToMeshMaps.num_mat_elems.host(m); i++) els[m].push_back(st.MaterialToMeshMaps.elem_in_mat_elem.host(m, i));
    Outcome o = guarded([&] { s.d->execute(); }); c.check(o.ok, id, "the run stops: " + o.what);
    auto run = [&](LRef& R) {
    for (int sv = 0; sv < q.solvers; sv++) for (int t = 0; t < q.cycles; t++) { R.p0 = R.phi; for (int k = 0; k < q.rk; k++) { R.gradient(); for (auto& w : walls(q)) if (w.solver == sv) for (size_t g = 0; g < N; g++) if (std::fabs(box[g][w.d] - q.O[w.d] - w.s * q.L[w.d]) < 1e-9) { double m = 0; for (int d = 0; d < q.nd; d++) { if (w.model || d == w.d) R.u[g][d] = 0; m += R.u[g][d] * R.u[g][d]; } m = std::sqrt(m); if (m < 1e-2) { int free = 0; for (int d = 0; d < q.nd; d++) { bool held = false; for (auto& z : walls(q)) held = held || (z.solver == sv && (z.model || z.d == d) && std::fabs(box[g][z.d] - q.O[z.d] - z.s * q.L[z.d]) < 1e-9); free += !held; } if (free && (m > 1e-12 || q.mats == 1)) R.fuzzy = true; } /* rounding picks the direction */ for (int d = 0; d < q.nd; d++) R.u[g][d] /= m + 1e-8; }
            for (int m = 0; m < nm; m++) if (m == 0 || q.mats == 1) R.move(els[m], q.speed[m], q.dt / (q.rk - k)); } } };
    // the same field up to rounding, three times: where the results differ, rounding decides and there is nothing to compare
    LRef W[3] = {R, R, R}; run(R); for (int k = 0; k < 3; k++) { for (size_t e = 0; e < E; e++) W[k].phi[e] += 1e-15 * (k == 0 ? 1 + (double)(e * 5 % 7) : k == 1 ? 3 - (double)(e * 3 % 8) : e % 2 ? -4.0 : 5.0); run(W[k]); R.fuzzy = R.fuzzy || W[k].fuzzy; for (size_t e = 0; e < E; e++) R.fuzzy = R.fuzzy || !near(W[k].phi[e], R.phi[e], 1e-10); for (size_t g = 0; g < N; g++) for (int d = 0; d < q.nd; d++) R.fuzzy = R.fuzzy || !near(W[k].g[g][d], R.g[g][d], 1e-9, 1 / q.dt); } if (R.fuzzy) c.prune();
    for (size_t e = 0; e < E; e++) { double v = st.GaussPoints.level_set.host(e); c.check(near(v, R.phi[e], 1e-7), id, "level set of element " + std::to_string(e) + ": " + num(v) + ", the scheme gives " + num(R.phi[e])); bool any = false; for (int m = 0; m < nm; m++) if (m == 0 || q.mats == 1) any |= std::count(els[m].begin(), els[m].end(), e) > 0; }
    for (size_t g = 0; g < N; g++) for (int d = 0; d < q.nd; d++) c.check(near(st.node.gradient_level_set.host(g, d), R.g[g][d], 1e-6, 1 / q.dt), id, "gradient at node " + std::to_string(g) + ": " + num(st.node.gradient_level_set.host(g, d)) + ", the scheme gives " + num(R.g[g][d]));
    for (size_t g = 0; g < N; g++) for (int d = 0; d < q.nd; d++) c.check(st.node.coords.host(g, d) == R.r.x[g][d], id, "a node has moved");
    c.step(q.cycles * q.solvers); c.state(hash(id)); c.evals(E); c.validated(); }
static const int M3[4][3] = {{3, 1, 1}, {3, 2, 2}, {3, 3, 3}, {4, 3, 2}}, M2[4][2] = {{3, 1}, {3, 3}, {4, 3}, {5, 4}};
static LCase pickCase(Ctx& c, int nd, bool th) { LCase q{}; q.nd = nd; int m = c.choose(th ? 4 : 3); if (nd == 3) { q.nx = M3[m][0]; q.ny = M3[m][1]; q.nz = M3[m][2]; } else { q.nx = M2[m][0]; q.ny = M2[m][1]; q.nz = 1; } bool off = c.flip(); const double O[2][3] = {{0, 0, 0}, {-0.6, -0.9, 0.3}}; for (int d = 0; d < 3; d++) { q.L[d] = 1 - 0.2 * d; q.O[d] = O[off][d]; } q.mats = c.choose(4); q.bcs = c.choose(6); q.solvers = q.bcs == 4 ? 2 : 1; q.rk = 1 + c.choose(th ? 3 : 2); q.dt = 0.01; return q; }
static void step(Ctx& c, int nd, bool th) { LCase q = pickCase(c, nd, th); int a = c.choose(5); q.speed[0] = SPEED[a]; q.speed[1] = SPEED[(a + 2) % 5]; q.cycles = 1 + c.choose(th ? 5 : 3); int kind = c.choose(3), f = c.choose(NF); build(c, q, kind, f, 0, "distortion " + std::to_string(kind) + " field " + std::to_string(f)); }
// every single element raised or lowered
static void spikes(Ctx& c, int nd, bool th) { LCase q = pickCase(c, nd, th); if (q.mats == 3) c.prune(); int a = c.choose(th ? 5 : 2); q.speed[0] = SPEED[a]; q.speed[1] = SPEED[(a + 2) % 5]; q.cycles = 2; int kind = c.choose(2) * 2, f = 3, sp = 1 + c.choose(2 * q.nx * q.ny * q.nz); build(c, q, kind, f, sp, "distortion " + std::to_string(kind) + " spike " + std::to_string(sp)); }
int main(int argc, char** argv) { bool th = false; for (int i = 1; i < argc; i++) th |= !strcmp(argv[i], "--thorough");
    return main_(argc, argv, "LVL", {{"step3d", [th](Ctx& c) { step(c, 3, th); }, 6}, {"step2d", [th](Ctx& c) { step(c, 2, th); }, 6}, {"spike3d", [th](Ctx& c) { spikes(c, 3, th); }, 6}, {"spike2d", [th](Ctx& c) { spikes(c, 2, th); }, 6}}); }
