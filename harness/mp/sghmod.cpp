// Hydrodynamics with strength, erosion and boundary conditions: every cycle against a direct evaluation of the equations.
#include "sghcase.hpp"
using namespace mp;
MP_EXIT
static void mesh(Ctx& c, Case& q, int nd, int n) { static const int M3[4][3] = {{1, 1, 1}, {2, 1, 1}, {1, 2, 2}, {2, 2, 2}}, M2[4][2] = {{1, 1}, {2, 1}, {2, 2}, {3, 2}}; q.nd = nd; int m = c.choose(n); if (nd == 3) { q.nx = M3[m][0]; q.ny = M3[m][1]; q.nz = M3[m][2]; } else { q.nx = M2[m][0]; q.ny = M2[m][1]; q.nz = 1; } q.L[0] = 0.8 * q.nx; q.L[1] = 0.5 * q.ny; q.L[2] = nd == 3 ? 0.6 * q.nz : 0; q.O[0] = -0.3; q.O[1] = 0.2; q.O[2] = 0; q.dt = 0.01; q.walls = q.diss = 0; }
static Sim* start(Ctx& c, const S& key, const S& deck, const Case& q, Ref& r, int kind, int fl, int prestress, const std::function<void(Ref&, const std::vector<V3>&)>& bcs) {
    static thread_local std::unique_ptr<Sim> keep; keep = std::make_unique<Sim>(); Sim& s = *keep; c.key(key); c.note(key); simulate(s, deck, SETUP); c.check(s.out.ok, key, "refused: " + s.out.what); r.mesh(s.mesh()); for (size_t g = 0; g < r.x.size(); g++) for (int d = 0; d < q.nd; d++) r.x[g][d] = s.st().node.coords.host(g, d); auto box = r.x; for (auto& x : r.x) distort(x, q, kind); flow(r, q, fl); bcs(r, box); r.pt.assign(r.mats.size(), {}); r.state(); fill(s, r, q);
    if (prestress) for (size_t k = 0; k < r.mats.size(); k++) if (r.mats[k].hypo) for (auto& p : r.pt[k]) { double a = 0.02 * (1 + p.e % 2), b = 0.01, d = 0.015; double T[3][3] = {{a, b, q.nd == 3 ? -d : 0}, {b, -0.4 * a, q.nd == 3 ? 0.5 * b : 0}, {q.nd == 3 ? -d : 0, q.nd == 3 ? 0.5 * b : 0, -0.6 * a}}; if (!p.gone) memcpy(p.s, T, sizeof T); }
    r.state(); r.masses(); imprint(s, r); if (r.bcs) r.bcs(r, 0); return &s; }
static void finish(Ctx& c, const S& key, Sim& s, Ref& r, const Case& q, const std::function<void(Ref&)>& steps) { Outcome o = guarded([&] { s.d->execute(); }); c.check(o.ok, key, "the run ends with " + o.what); c.step(q.cycles); Ref r0 = r; steps(r); S when = "after " + std::to_string(q.cycles) + " cycles"; if (!r.fuzzy) { if (q.nd == 2 && q.str) { try { compare(c, key, s, r, when); } catch (Violated& v) { Ref w = r0; w.coded = true; steps(w); compare(c, key, s, w, when + " (also allowing for the listed finding)"); c.fail("RZ strength rates: " + v.key, v.msg); } } else compare(c, key, s, r, when); } c.state(hash(key)); c.validated(); }
static void strength(Ctx& c, int nd, bool th) { Case q; mesh(c, q, nd, th ? 4 : 3); static const int MX[5] = {0, 1, 2, 4, 5}; q.mix = MX[c.choose(q.nx * q.ny * q.nz > 1 ? 5 : 4)]; if (q.nx == 1 && q.mix == 1) c.prune(); q.str = 1 + c.choose(3); q.diss = c.choose(2); q.walls = c.choose(2); q.rk = 1 + c.choose(th ? 3 : 2); q.cycles = 1 + c.choose(th ? 4 : 3); int kind = c.choose(3); q.lin = c.choose(2); int pre = c.choose(2), fl = c.choose(NV); Ref r; S deck = deckOf(q, r, false), key = deck + "distortion " + std::to_string(kind) + " flow " + std::to_string(fl) + " prestress " + std::to_string(pre) + " mixture " + std::to_string(q.mix);
    Sim* s = start(c, key, deck, q, r, kind, fl, pre, [&](Ref& R, const std::vector<V3>& box) { wallsOf(R, q, box); }); finish(c, key, *s, r, q, [&](Ref& R) { for (int n = 0; n < q.cycles; n++) R.step(q.dt, q.rk, n * q.dt); }); }
static void erosion(Ctx& c, int nd, bool th) { Case q; mesh(c, q, nd, th ? 4 : 3); q.mix = c.choose(6); if (q.nx == 1 && q.mix == 1) c.prune(); q.ero = 1 + c.choose(3); q.diss = c.choose(2); q.str = 2 * c.choose(nd == 3 ? 2 : 1); q.walls = c.choose(2); q.rk = 1 + c.choose(th ? 3 : 2); q.cycles = 1 + c.choose(th ? 6 : 4); q.lin = c.choose(2); q.dt = 0.03; int fl = c.choose(NV); Ref r; S deck = deckOf(q, r, false), key = deck + "flow " + std::to_string(fl) + " mixture " + std::to_string(q.mix);
    Sim* s = start(c, key, deck, q, r, 0, fl, q.str, [&](Ref& R, const std::vector<V3>& box) { wallsOf(R, q, box); }); finish(c, key, *s, r, q, [&](Ref& R) { for (int n = 0; n < q.cycles; n++) R.step(q.dt, q.rk, n * q.dt); }); }
// boundary conditions: kind of model, its variables, on one side of the box, for one solver
struct Bc { int model, side, solver; std::vector<double> v; };
static S bcText(const Case& q, const Bc& b) { static const char* T[3] = {"x_plane", "y_plane", "z_plane"}; int d = b.side / 2; double pos = q.O[d] + (b.side % 2 ? q.L[d] : 0); static const char* VM[6] = {"none", "fixed", "constant", "reflected", "piston", "time_varying"}; static const char* SM[3] = {"none", "constant", "time_varying"}; return bc(T[d], pos, b.model < 6 ? S("        velocity_model: ") + VM[b.model] + "\n" + list("velocity_bc_global_vars", b.v) : S("        stress_model: ") + SM[b.model - 6] + "\n" + list("stress_bc_global_vars", b.v), b.solver, 1e-7); }
static void pickBc(Ctx& c, Case& q, Bc& b, bool th) { b.side = c.choose(2 * q.nd); int d = b.side / 2; auto ax = [&](double s, std::initializer_list<double> w) { std::vector<double> v(3, 0.0); v[d] = s; v.insert(v.end(), w); return v; }; int n = c.choose(q.nd == 3 ? 17 : 12); switch (n) { case 0: b.model = 1; break; case 1: b.model = 2; b.v = {0.3, -0.2, 0.1}; if (q.nd == 2) b.v = {0.3, -0.2, 0}; break; case 2: b.model = 3; b.v = ax(1, {}); break; case 3: b.model = 3; b.v = ax(-1, {}); break; case 4: b.model = 3; b.v = ax(2.5, {}); break; case 5: b.model = 3; b.v = {0.6, -0.8, 0}; break; case 6: b.model = 4; b.v = ax(1, {0.4, -3, 50, 0, 1}); break; case 7: b.model = 4; b.v = {-0.5, 1, 0, 0.4, -3, 50, 0.015, 0.025}; break; case 8: b.model = 4; b.v = ax(-2, {-0.3, 4, 0, 0.005, 0.035}); break; case 9: b.model = 5; b.v = ax(1, {0.4, 9, 0, 1}); break; case 10: b.model = 5; b.v = {1, 1, 0, -0.5, 20, 0.015, 0.025}; break; case 11: b.model = 0; break; case 12: b.model = 7; b.v = {-0.6, -0.6, -0.6, 0, 0, 0}; break; case 13: b.model = 7; b.v = {0.5, -0.3, 0.2, 0.11, -0.23, 0.37}; break; case 14: b.model = 8; b.v = {-0.5, 0.4, -0.2, 0.3, 0.1, -0.6, 30, 0.005, 0.025}; break; case 15: b.model = 8; b.v = {0.7, 0.7, 0.7, 0, 0, 0, 0, 0.015, 1}; break; default: b.model = 6; } }
static void apply(Ref& r, const Case& q, const std::vector<V3>& box, const std::vector<Bc>& bs, int solver) {
    auto on = [&q](const V3& x, int side) { int d = side / 2; return std::fabs(x[d] - q.O[d] - (side % 2 ? q.L[d] : 0)) < 1e-7; };
    r.bcs = [=](Ref& s, double t) { for (auto& b : bs) if (b.solver == solver) for (size_t g = 0; g < box.size(); g++) if (on(box[g], b.side)) { auto& v = s.v[g]; double n2 = 0, vn = 0, want = 0; if (b.model == 1) v = {0, 0, 0}; else if (b.model == 2) for (int d = 0; d < q.nd; d++) v[d] = b.v[d]; else if (b.model >= 3 && b.model <= 5) { if (b.model == 4) { double w = t - b.v[6]; if (t < b.v[6] || t > b.v[7]) continue; want = b.v[3] + b.v[4] * w + 0.5 * b.v[5] * w * w; } if (b.model == 5) { if (t < b.v[5] || t > b.v[6]) continue; want = b.v[3] * std::exp(-b.v[4] * (t - b.v[5])); } for (int d = 0; d < q.nd; d++) { n2 += b.v[d] * b.v[d]; vn += v[d] * b.v[d]; } for (int d = 0; d < q.nd; d++) v[d] += (want / std::sqrt(n2) - vn / n2) * b.v[d]; } } };
    r.loads = [=](Ref& s, double t) { for (auto& b : bs) if (b.solver == solver && b.model > 6) { double f = 1; if (b.model == 8) { if (t < b.v[7] || t > b.v[8]) continue; f = std::exp(-b.v[6] * (t - b.v[7])); } double T[3][3] = {{b.v[0], b.v[5], b.v[4]}, {b.v[5], b.v[1], b.v[3]}, {b.v[4], b.v[3], b.v[2]}};
        for (auto& e : s.el) { std::vector<size_t> n; for (size_t g : e) if (on(box[g], b.side)) n.push_back(g); if (n.size() != 4) continue; std::swap(n[2], n[3]); double D[2][3], A[3], ce[3] = {0}, cf[3] = {0}, o = 0; for (int d = 0; d < 3; d++) { D[0][d] = s.x[n[2]][d] - s.x[n[0]][d]; D[1][d] = s.x[n[3]][d] - s.x[n[1]][d]; for (size_t g : e) ce[d] += s.x[g][d] / 8; for (size_t g : n) cf[d] += s.x[g][d] / 4; } for (int d = 0; d < 3; d++) { A[d] = 0.5 * (D[0][(d + 1) % 3] * D[1][(d + 2) % 3] - D[0][(d + 2) % 3] * D[1][(d + 1) % 3]); o += A[d] * (cf[d] - ce[d]); } if (o < 0) for (double& a : A) a = -a; for (size_t g : n) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) s.F[g][i] += f * T[i][j] * A[j] / 4; } } }; }
static void bounds(Ctx& c, int nd, bool th) { Case q; mesh(c, q, nd, th ? 3 : 2); q.mix = 0; q.rk = 1 + c.choose(th ? 3 : 2); q.diss = q.rk > 1; int nb = 1 + c.choose(2), two = c.choose(2); q.cycles = two ? 3 : 4; if (two && nb == 1) c.prune(); std::vector<Bc> bs; for (int i = 0; i < nb; i++) { Bc b{0, 0, two ? i : 0, {}}; pickBc(c, q, b, th); bs.push_back(b); q.bcs += bcText(q, b); } if (two) { q.solvers = 2; q.t1 = 0.02; } int kind = 2 * c.choose(nb == 1 || th ? 2 : 1), fl = c.flip() ? 7 : 1; Ref r; S deck = deckOf(q, r, false), key = deck + "distortion " + std::to_string(kind) + " flow " + std::to_string(fl);
    std::vector<V3> bx; Sim* s = start(c, key, deck, q, r, kind, fl, 0, [&](Ref& R, const std::vector<V3>& box) { bx = box; apply(R, q, box, bs, 0); }); finish(c, key, *s, r, q, [&](Ref& R) { for (int n = 0; n < q.cycles + 2 * two; n++) { if (two && n == 2) { apply(R, q, bx, bs, 1); R.bcs(R, n * q.dt); } R.step(q.dt, q.rk, n * q.dt); } }); }
int main(int argc, char** argv) { bool th = false; for (int i = 1; i < argc; i++) th |= !strcmp(argv[i], "--thorough");
    return main_(argc, argv, "SGH", {{"strength3d", [th](Ctx& c) { strength(c, 3, th); }, 5}, {"strengthrz", [th](Ctx& c) { strength(c, 2, th); }, 5}, {"erosion3d", [th](Ctx& c) { erosion(c, 3, th); }, 5}, {"erosionrz", [th](Ctx& c) { erosion(c, 2, th); }, 5}, {"bounds3d", [th](Ctx& c) { bounds(c, 3, th); }, 5}, {"boundsrz", [th](Ctx& c) { bounds(c, 2, th); }, 5}}); }
