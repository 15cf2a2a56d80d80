// Time: the steps taken, the times outputs are written, where a run and each of its solvers end.
#include "sim.hpp"
using namespace mp;
MP_EXIT
struct Clock { double dt0, dtmin, dtmax, cfl, ival, tf; long every, stop; };
struct Track { double t; std::vector<double> outs; long cycles; };
static const double FUZZ = 1e-16, TINY = 1e-12;
// the documented rule: at most 10 % growth, the smallest stable step of any material, between dt_min and dt_max, never past an output or the end;
// an output at the start, whenever a multiple of the interval is reached, every n-th cycle (not the first), and at the end
template<class Limit> static Track track(const Clock& k, double t0, double t1, const std::vector<Limit>& mats) {
    Track r{t0, {t0}, 0}; double dt = k.dt0, next = t0 + k.ival;
    for (long n = 0; n < k.stop; n++) { double keep = dt, d = k.dtmax; for (auto& lim : mats) { double m = 1.1 * dt, l = lim(r.t); if (l >= 0) m = std::min(m, std::max(std::min(l, k.dtmax), k.dtmin)); m = std::min(m, std::max(FUZZ, next - r.t) + TINY); m = std::min(m, t1 - r.t + TINY); d = std::min(d, m); }
        dt = d; r.t += dt; r.cycles++; bool due = r.t >= next, end = r.t >= t1; if (due || end || n + 1 == k.stop || (k.every > 0 && (n + 1) % k.every == 0 && n > 0)) r.outs.push_back(r.t); if (due) { next += k.ival; dt = keep; } if (end) break; }
    return r; }
// the times listed for a solver's outputs, and that every listed output exists
static std::vector<double> listed(Ctx& c, const S& key, int solver) { S pvd = get("vtk/Fierro.solver" + std::to_string(solver) + ".pvd"); std::vector<double> v; size_t p = 0; while ((p = pvd.find("<DataSet", p)) != S::npos) { size_t q = pvd.find("timestep=\"", p) + 10; v.push_back(atof(pvd.c_str() + q)); size_t f = pvd.find("file=\"", p) + 6; S file = "vtk/" + pvd.substr(f, pvd.find('"', f) - f); c.check(!get(file).empty(), key, "the listed output " + file + " does not exist"); p = q; }
    size_t n = 0; std::error_code e; S pre = "Fierro.solver" + std::to_string(solver) + ".fields."; for (auto& f : std::filesystem::directory_iterator("vtk/data", e)) n += f.path().filename().string().compare(0, pre.size(), pre) == 0; c.check(n == v.size(), key, std::to_string(v.size()) + " outputs listed, " + std::to_string(n) + " files written"); return v; }
static void sameOuts(Ctx& c, const S& key, const std::vector<double>& got, const std::vector<double>& want) { c.check(got.size() == want.size(), key, "output times " + vec(got) + ", want " + vec(want)); for (size_t i = 0; i < got.size(); i++) c.check(near(got[i], want[i], 1e-5, 1e-6), key, "output times " + vec(got) + ", want " + vec(want)); c.evals(); }
static S opts(const Clock& k) { return "    dt_cfl: " + g17(k.cfl) + "\n"; }
static S outs(const Clock& k) { return outputs("viz", k.ival, k.every == -1 ? "" : "    graphics_iteration_step: " + std::to_string(k.every) + "\n"); }
static Clock choices(Ctx& c, bool th, bool wide) { Clock k; static const double D0[3] = {0.01, 0.2, 0.045}, DM[3] = {0.1, 0.04, 0.3}, DN[2] = {1e-8, 0.03}, CF[2] = {0.4, 0.9}, IV[4] = {0.07, 10, 0.15, 0.03}, TF[3] = {0.25, 0.1, 0}; static const long EV[4] = {-1, 2, 1, 0}, ST[7] = {1, 2, 4, 100, 6, 3, 0};
    k.dt0 = D0[c.choose(th ? 3 : 2)]; k.dtmax = DM[c.choose(th ? 3 : 2)]; k.dtmin = wide ? DN[c.choose(2)] : 1e-8; k.cfl = wide ? CF[c.choose(th ? 2 : 1)] : 0.4; k.ival = IV[c.choose(th ? 4 : 3)]; k.tf = TF[c.choose(th ? 3 : 2)]; k.every = EV[c.choose(4)]; k.stop = ST[c.choose(th ? 7 : 4)]; return k; }
// SGH: a cold gas moving freely; every node is a clock. nd 3 or 2 (RZ); two materials of different signal speed, one of them perhaps nowhere
static void dynx(Ctx& c, int nd, bool th) {
    static const double CS[3] = {0.5, 6, 3}; Clock k = choices(c, th, true); int two = c.choose(3), flow = c.choose(3), ero = nd == 3 || th ? c.choose(2) : 0, rk = 1 + c.choose(th ? 3 : 2); double cs[2] = {CS[c.choose(2)], CS[2]};
    if (!th && (two * 3 + flow + ero + rk) % 2) c.prune();
    S deck = dynamics(k.tf, k.stop, k.dt0, k.dtmin, k.dtmax, rk, opts(k)) + (nd == 3 ? box3(2, 2, 1, 1, 0.5, 0.3) : box2(2, 2, 1, 0.6, 0, 0.5)) + outs(k) + "solver_options:\n" + solver(nd == 3 ? "dynx_FE" : "dynx_FE_rz") + "boundary_conditions:\n" + bc("x_plane", 99, velbc("fixed")) + "materials:\n" + gas(0, 5. / 3, cs[0], 1, "") + gas(1, 5. / 3, cs[1], 1, "") + "regions:\n";
    S st = uniform("density", 1) + uniform("specific_internal_energy", 0) + cartesian(0, 0, 0); deck += regionOf(GLOBAL, 0, st); if (two) deck += regionOf(nd == 3 ? boxvol(0.5, 1, -1, 1, -1, 1) : boxvol(0.5, 1, -1, 2, -1, 1), 1, st); // 0: material 1 nowhere, 1: half
    S key = deck + "flow " + std::to_string(flow) + " geometry " + std::to_string(two) + " eroded " + std::to_string(ero); c.key(key); c.note(key); wipe(); Sim s; simulate(s, deck, SETUP); c.check(s.out.ok, key, "refused: " + s.out.what);
    auto& st8 = s.st(); auto& m = s.mesh(); size_t N = m.num_nodes, nn = m.num_nodes_in_elem; std::vector<std::array<double, 3>> x(N), v(N);
    for (size_t g = 0; g < N; g++) { for (int d = 0; d < 3; d++) x[g][d] = v[g][d] = 0; for (int d = 0; d < nd; d++) x[g][d] = st8.node.coords.host(g, d); if (two == 2) { x[g][0] += 0.13 * x[g][1] * x[g][0]; x[g][1] *= 1 + 0.2 * x[g][0]; }
        if (flow == 0) v[g][0] = 1; else if (flow == 1) for (int d = 0; d < nd; d++) v[g][d] = d == 1 && nd == 2 ? 0 : -0.8 * x[g][d]; else { v[g][0] = 0.7 * x[g][0] - 1.5 * (x[g][0] > 0.7 ? x[g][0] - 0.5 : 0); v[g][nd - 1] += nd == 3 ? -1.3 * x[g][2] : 0; }
        for (int d = 0; d < nd; d++) { st8.node.coords.host(g, d) = x[g][d]; st8.node.vel.host(g, d) = v[g][d]; } }
    st8.node.coords.update_device(); st8.node.vel.update_device(); geometry::get_vol(st8.GaussPoints.vol, st8.node.coords, m);
    std::vector<std::vector<size_t>> el(2); for (int q = 0; q < 2; q++) for (size_t i = 0; i < st8.MaterialToMeshMaps.num_mat_elems.host(q); i++) { bool gone = ero && i == 0 && q == (two ? 1 : 0); if (gone) { st8.MaterialPoints.eroded.host(q, i) = true; } else el[q].push_back(st8.MaterialToMeshMaps.elem_in_mat_elem.host(q, i)); } st8.MaterialPoints.eroded.update_device();
    auto lim = [&](int q) { return [&, q](double t) { double l = 1e300; for (size_t e : el[q]) { double dm = 1e300; for (size_t a = 0; a < nn; a++) for (size_t b = 0; b < a; b++) { size_t A = m.nodes_in_elem.host(e, a), B = m.nodes_in_elem.host(e, b); double d2 = 0; for (int d = 0; d < nd; d++) { double y = x[A][d] + v[A][d] * t - x[B][d] - v[B][d] * t; d2 += y * y; } dm = std::min(dm, std::sqrt(d2)); } l = std::min(l, k.cfl * dm / cs[q]); } return l; }; };
    std::vector<std::function<double(double)>> ms = {lim(0), lim(1)}; Track w = track(k, 0, std::max(0.0, k.tf), ms);
    Outcome o = guarded([&] { s.d->execute(); }); c.check(o.ok, key, "the run ends with " + o.what); st8.node.coords.update_host();
    for (size_t g = 0; g < N; g++) for (int d = 0; d < nd; d++) c.check(near(st8.node.coords.host(g, d), x[g][d] + v[g][d] * w.t, 1e-9), key, "node " + std::to_string(g) + " direction " + std::to_string(d) + " at " + num(st8.node.coords.host(g, d)) + ", after " + std::to_string(w.cycles) + " cycles the time is " + num(w.t) + " and it should be at " + num(x[g][d] + v[g][d] * w.t));
    c.evals(N); sameOuts(c, key, listed(c, key, 0), w.outs); c.state(hash(key)); c.validated(); }
// solvers one after another, each from the end of the one before
static void chain(Ctx& c, bool th) {
    int n = 2 + c.choose(2); Clock k{0.02, 1e-8, 0.05, 0.4, 0, 0.2, -1, 1000}; static const double IV[3] = {0.06, 10, 0.1}, TE[5] = {0, 0.08, 0.15, 0.3, 0.05}; k.ival = IV[c.choose(3)]; k.tf = c.flip() ? 0.2 : 0.1; static const long ST[3] = {1000, 3, 5}; k.stop = ST[c.choose(3)]; std::vector<double> te; for (int i = 0; i < n; i++) te.push_back(TE[c.choose(th ? 5 : 4)]); int nd = c.flip() ? 3 : 2; k.every = c.flip() ? -1 : 3;
    S deck = dynamics(k.tf, k.stop, k.dt0, k.dtmin, k.dtmax, 2, opts(k)) + (nd == 3 ? box3(2, 1, 1) : box2(2, 1, 1, 1, 0, 0.5)) + outs(k) + "solver_options:\n"; for (int i = 0; i < n; i++) deck += solver(nd == 3 ? "dynx_FE" : "dynx_FE_rz", i, te[i] > 0 ? "        time_end: " + g17(te[i]) + "\n" : "");
    deck += "boundary_conditions:\n" + bc("x_plane", 99, velbc("fixed")) + "materials:\n" + gas(0, 5. / 3, 3, 1, "") + "regions:\n" + regionOf(GLOBAL, 0, uniform("density", 1) + uniform("specific_internal_energy", 0) + cartesian(1, 0, 0));
    c.key(deck); c.note(deck); wipe(); Sim s; simulate(s, deck, SETUP); c.check(s.out.ok, deck, "refused: " + s.out.what); double x0 = s.st().node.coords.host(0, 0);
    Outcome o = guarded([&] { s.d->execute(); }); c.check(o.ok, deck, "the run ends with " + o.what); double at = 0, moved = 0; std::vector<std::function<double(double)>> ms = {[&](double) { return k.cfl * (nd == 3 ? 0.5 : 0.5) / 3; }};
    for (int i = 0; i < n; i++) { double end = te[i] > 1e-14 ? (i ? std::min(te[i], k.tf) : te[i]) : i ? k.tf : std::max(0.0, k.tf); if (end < at - 1e-15) { c.prune(); } Track w = track(k, at, end, ms); moved += w.t - at; sameOuts(c, deck + "solver " + std::to_string(i), listed(c, deck, i), w.outs); at = end; }
    s.st().node.coords.update_host(); c.check(near(s.st().node.coords.host(0, 0) - x0, moved, 1e-9), deck, "nodes moved " + num(s.st().node.coords.host(0, 0) - x0) + ", the solvers cover " + num(moved)); c.evals(); c.state(hash(deck)); c.validated(); }
// conduction (kind 0) and level set (1: 3D, 2: 2D): the time shows in the outputs
static void other(Ctx& c, int kind, bool th) {
    int nd = kind == 2 ? 2 : 3; Clock k = choices(c, th, true); if (k.tf == 0) c.prune(); static const double A[4] = {0.3, 0.05, -0.9, 2}, B[3] = {0.1, 0, 0.6}; double a[2], b[2] = {0, 0}; bool with[2] = {true, true}; int two = c.choose(2);
    for (int m = 0; m < 2; m++) { a[m] = A[c.choose(m == 1 && !two ? 1 : kind ? 4 : 2)]; if (kind && (m == 0 || two)) { b[m] = B[c.choose(2)]; if (m == 1) with[m] = c.flip(); } }
    if (!th && ((int)(a[0] * 10) + (int)(a[1] * 10) + k.stop + (long)(k.dt0 * 100)) % 2) c.prune();
    S deck = dynamics(k.tf, k.stop, k.dt0, k.dtmin, k.dtmax, 2, opts(k)) + (nd == 3 ? box3(2, 2, 1, 1, 0.5, 0.3) : box2(2, 2, 1, 0.6)) + outs(k) + "solver_options:\n" + solver(kind ? "level_set" : "thrmex_FE") + "boundary_conditions:\n" + bc("x_plane", 99, kind ? velbc("fixed") : "        temperature_model: constant\n        temperature_bc_global_vars:\n            - 1\n") + "materials:\n";
    for (int m = 0; m < 2; m++) deck += kind ? "    - material:\n        id: " + std::to_string(m) + "\n" + (with[m] ? "        level_set_type: evolve_front\n        normal_velocity: " + g17(a[m]) + "\n        curvature_velocity: " + g17(b[m]) + "\n" : "        eos_model_type: decoupled\n        eos_model: gamma_law_gas\n        eos_global_vars:\n            - 1.4\n            - 1\n            - 1\n") : gas(m);
    deck += "regions:\n"; for (int m = 0; m < 1 + two; m++) { S f = kind ? "        level_set:\n            type: uniform\n            value: 1\n" : uniform("density", 2) + uniform("specific_internal_energy", 1e-10) + cartesian(0, 0, 0) + uniform("thermal_conductivity", a[m]) + uniform("specific_heat", 0.5) + uniform("temperature", 3); deck += regionOf(m ? boxvol(0.5, 1, -1, 1, -1, 1) : GLOBAL, m, f); }
    c.key(deck); c.note(deck); wipe(); Sim s; simulate(s, deck, SETUP); c.check(s.out.ok, deck, "refused: " + s.out.what); std::vector<std::function<double(double)>> ms; double h = nd == 3 ? 0.25 : 0.3;
    for (int m = 0; m < 2; m++) ms.push_back([&, m](double) { if (m == 1 && !two) return kind && !with[m] ? -1.0 : 1e300; if (kind == 0) return std::min(1.0, 0.3 * h * h / (6 * a[m] / (2 * 0.5))); if (!with[m]) return 1e300; return k.cfl * h / (1.5 + std::fabs(a[m]) + std::fabs(b[m]) / (3 * h)); });
    Track w = track(k, 0, k.tf, ms); Outcome o = guarded([&] { s.d->execute(); }); c.check(o.ok, deck, "the run ends with " + o.what); sameOuts(c, deck, listed(c, deck, 0), w.outs); c.state(hash(deck)); c.validated(); }
int main(int argc, char** argv) { bool th = false; for (int i = 1; i < argc; i++) th |= !strcmp(argv[i], "--thorough");
    return main_(argc, argv, "CLOCK", {{"sgh3d", [th](Ctx& c) { dynx(c, 3, th); }, 4}, {"sghrz", [th](Ctx& c) { dynx(c, 2, th); }, 4}, {"chain", [th](Ctx& c) { chain(c, th); }, 4}, {"thermal", [th](Ctx& c) { other(c, 0, th); }, 4}, {"levelset3d", [th](Ctx& c) { other(c, 1, th); }, 4}, {"levelset2d", [th](Ctx& c) { other(c, 2, th); }, 4}}); }
