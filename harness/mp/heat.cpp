// Heat conduction: every cycle against a direct evaluation of the equations, with boundary conditions, chained solvers, a moving source and tabulated properties.
#include "sghcase.hpp"
using namespace mp;
MP_EXIT
struct HPt { size_t e; double m, k, cp, vf; bool gone = false; double q[3] = {0}, g[3] = {0}; };
struct Bc { int face, model; std::vector<double> v; int solver = 0; }; // model 0 constant, 1 convection, 2 radiation
struct Heat { Ref r; std::vector<double> T, T0, Q, M; std::vector<std::vector<HPt>> pt; std::vector<V3> box; double O[3], L[3]; std::vector<Bc> bcs; swage::Mesh* ms; int solver = 0; bool source = false; V3 pos{0, 0, 0};
    static double lerp(const std::vector<std::array<double, 2>>& t, double x) { if (x <= t[0][0]) return t[0][1]; for (size_t i = 1; i < t.size(); i++) if (x <= t[i][0]) return t[i - 1][1] + (t[i][1] - t[i - 1][1]) * (x - t[i - 1][0]) / (t[i][0] - t[i - 1][0]); return t.back()[1]; }
    static double path(double t, int d) { static const double P[4][5] = {{0, 100, 150, 15, 3e6}, {5, 200, 150, 15, 4e6}, {5, 100, 150, 30, 4e6}, {10, 200, 150, 30, 3e6}}; if (t <= 0) return P[0][d]; int s = t <= 5 ? 0 : 2; if (t >= 10) return P[3][d]; double a = (t - P[s][0]) / 5; return P[s][d] * (1 - a) + P[s + 1][d] * a; }
    bool on(size_t g, int f) const { int d = f / 2; return std::fabs(box[g][d] - O[d] - (f % 2 ? L[d] : 0)) < 1e-9; }
    static double tri(const V3& a, const V3& b, const V3& c) { double u[3], w[3], n = 0; for (int d = 0; d < 3; d++) { u[d] = b[d] - a[d]; w[d] = c[d] - a[d]; } for (int d = 0; d < 3; d++) { double t = u[(d + 1) % 3] * w[(d + 2) % 3] - u[(d + 2) % 3] * w[(d + 1) % 3]; n += t * t; } return 0.5 * std::sqrt(n); }
    // every boundary face of the box side f: its nodes and its area
    template<class F> void faces(int f, F fn) const { for (size_t p = 0; p < ms->num_bdy_patches; p++) { size_t pg = ms->bdy_patches(p), n[4]; bool in = true; for (int i = 0; i < 4; i++) { n[i] = ms->nodes_in_patch(pg, i); in &= on(n[i], f); } if (in) fn(n, tri(r.x[n[0]], r.x[n[1]], r.x[n[2]]) + tri(r.x[n[2]], r.x[n[3]], r.x[n[0]])); } }
    void constant() { for (auto& b : bcs) if (b.model == 0 && b.solver == solver) for (size_t g = 0; g < T.size(); g++) if (on(g, b.face)) T[g] = b.v[0]; }
    void stage(double h, double power) { Q.assign(T.size(), 0); std::vector<std::array<double, 8>> cq(r.el.size()); for (auto& a : cq) a.fill(0); std::vector<double> mc(r.el.size(), 0), mm = mc;
        for (auto& q : pt) for (auto& p : q) { double B[8][3], V = r.grad(p.e, B), avg = 0; for (size_t g : r.el[p.e]) avg += T[g] / 8; if (avg >= 900) p.gone = true; for (int d = 0; d < 3; d++) { p.g[d] = 0; for (int n = 0; n < 8; n++) p.g[d] += T[r.el[p.e][n]] * B[n][d] / V; p.q[d] = -p.k * p.g[d]; } double c[3] = {0}; for (size_t g : r.el[p.e]) for (int d = 0; d < 3; d++) c[d] += r.x[g][d] / 8; bool hot = source && std::pow(c[0] - pos[0], 2) + std::pow(c[1] - pos[1], 2) + std::pow(c[2] - pos[2], 2) <= 64;
            for (int n = 0; n < 8; n++) { double f = 0; for (int d = 0; d < 3; d++) f += p.q[d] * B[n][d]; if (hot) f += power / (4. / 3 * 3.14159 * 512) * V / 8; cq[p.e][n] += p.vf * f; } mc[p.e] += p.m * p.cp; mm[p.e] += p.m; }
        for (auto& b : bcs) if (b.solver == solver && b.model) faces(b.face, [&](const size_t* n, double A) { for (int i = 0; i < 4; i++) { double t = T[n[i]]; Q[n[i]] -= A / 4 * (b.model == 1 ? (b.v.size() > 1 ? b.v[1] : 100) * (t - (b.v.size() ? b.v[0] : 293.15)) : 0.2 * 5.67037442e-8 * t * t * t * t); } });
        std::vector<double> C(T.size(), 0), num_(T.size(), 0); for (size_t e = 0; e < r.el.size(); e++) for (int n = 0; n < 8; n++) { size_t g = r.el[e][n]; Q[g] += cq[e][n]; C[g] += mc[e] / mm[e]; num_[g]++; }
        for (size_t g = 0; g < T.size(); g++) T[g] = T0[g] + h * Q[g] / (M[g] * C[g] / num_[g]); constant(); }
    void step(double dt, int rk, double t) { T0 = T; if (source) for (int d = 0; d < 3; d++) pos[d] = path(t, d + 1); for (int s = 0; s < rk; s++) stage(dt / (rk - s), path(t, 4)); } };
struct HC { int n[3]; double L[3], O[3]; int mix = 0, rk = 1, cycles = 1, solvers = 1; double dt = 0.01, t1 = 0; bool source = false; S table; S fields; };
static const double RHO[2] = {2.7, 0.9}, KC[2] = {0.8, 3.1}, CP[2] = {1.9, 0.6};
static S bcText(const Bc& b, const HC& q) { static const char* T[3] = {"x_plane", "y_plane", "z_plane"}, *M[3] = {"constant", "convection", "radiation"}; int d = b.face / 2; return bc(T[d], q.O[d] + (b.face % 2 ? q.L[d] : 0), S("        temperature_model: ") + M[b.model] + "\n" + list("temperature_bc_global_vars", b.v), b.solver); }
static S deckOf(const HC& q, const std::vector<Bc>& bcs) { S d = dynamics(100, q.cycles, q.dt, q.dt, q.dt, q.rk) + box3(q.n[0], q.n[1], q.n[2], q.L[0], q.L[1], q.L[2], q.O[0], q.O[1], q.O[2]) + outputs("state", 1e30) + "solver_options:\n"; for (int i = 0; i < q.solvers; i++) d += solver("thrmex_FE", i, (i + 1 < q.solvers ? "        time_end: " + g17(q.t1) + "\n" : S("")) + (q.source ? "        use_moving_heat_source: true\n" : ""));
    d += "boundary_conditions:\n"; if (bcs.empty()) d += bc("x_plane", 99, velbc("fixed")); for (auto& b : bcs) d += bcText(b, q); d += "multimaterial_options:\n    max_num_mats_per_element: 2\nmaterials:\n"; int nm = q.mix ? 2 : 1; for (int k = 0; k < nm; k++) d += gas(k, 1.4, 1e-14, 1, "MARS", {1, 1, 1.333, 1.333, 0, 1}, q.table.empty() ? S("") : "        tabular_model:\n            type: temperature_dependent\n            file_format: Abaqus_jmatpro\n            tabular_data: " + q.table + "\n            fields:\n" + q.fields); d += "regions:\n"; auto reg = [&](const S& vol, int k, double vf) { return regionOf(vol, k, (vf < 1 ? uniform("volume_fraction", vf) : S("")) + uniform("density", RHO[k]) + uniform("specific_internal_energy", 1e-10) + cartesian(0, 0, 0) + uniform("thermal_conductivity", KC[k]) + uniform("specific_heat", CP[k]) + uniform("temperature", 300)); };
    if (q.mix == 2) return d + reg(GLOBAL, 0, 0.3) + reg(GLOBAL, 1, 0.7); d += reg(GLOBAL, 0, 1); if (q.mix == 1) d += reg(boxvol(q.O[0] + 0.4 * q.L[0], 1e3, -1e3, 1e3, -1e3, 1e3), 1, 1); return d; }
// temperatures: 0 uniform, 1 linear, 2 wavy, 3 partly molten, then every single node hot
static const int NT = 4; static void temps(Heat& h, int k) { h.T.assign(h.r.x.size(), 0); for (size_t g = 0; g < h.T.size(); g++) { auto& x = h.box[g]; double u[3]; for (int d = 0; d < 3; d++) u[d] = (x[d] - h.O[d]) / h.L[d]; h.T[g] = k == 0 ? 400 : k == 1 ? 300 + 90 * u[0] - 40 * u[1] + 70 * u[2] : k == 2 ? 400 + 60 * std::sin(3 * u[0] + 2 * u[1] + 4 * u[2]) : k == 3 ? (u[0] > 0.4 ? 930 : 700) : g == (size_t)(k - NT) ? 700 : 320; } }
static void load(Sim& s, Heat& h, const HC& q, int kind, int temp) { h.ms = &s.mesh(); h.r.mesh(s.mesh()); for (int d = 0; d < 3; d++) { h.O[d] = q.O[d]; h.L[d] = q.L[d]; } auto& st = s.st(); for (size_t g = 0; g < h.r.x.size(); g++) for (int d = 0; d < 3; d++) h.r.x[g][d] = st.node.coords.host(g, d); h.box = h.r.x; Case c{}; c.nd = 3; for (int d = 0; d < 3; d++) { c.L[d] = q.L[d]; c.O[d] = q.O[d]; } for (auto& x : h.r.x) distort(x, c, kind); temps(h, temp); auto& P = st.MaterialPoints; auto& mp_ = st.MaterialToMeshMaps; int nm = q.mix ? 2 : 1; h.pt.assign(nm, {}); h.M.assign(h.T.size(), 0); h.r.vol.resize(h.r.el.size()); for (size_t e = 0; e < h.r.el.size(); e++) h.r.vol[e] = h.r.volume(e);
    for (int k = 0; k < nm; k++) for (size_t i = 0; i < mp_.num_mat_elems.host(k); i++) { HPt p; p.e = mp_.elem_in_mat_elem.host(k, i); { double gf = q.mix == 2 ? k ? 0.9 : 0.6 : 1; P.geo_volfrac.host(k, i) = gf; p.vf = P.volfrac.host(k, i) * gf; } p.m = RHO[k] * h.r.vol[p.e] * p.vf * (1 + 0.2 * (p.e % 2)); p.k = KC[k] * (1 + 0.3 * (p.e % 3)); p.cp = CP[k] * (1 + 0.15 * (p.e % 2)); P.mass.host(k, i) = p.m; if (!q.source) { P.conductivity.host(k, i) = p.k; P.specific_heat.host(k, i) = p.cp; } for (size_t g : h.r.el[p.e]) h.M[g] += p.m / 8; h.pt[k].push_back(p); }
    for (size_t g = 0; g < h.T.size(); g++) { for (int d = 0; d < 3; d++) st.node.coords.host(g, d) = h.r.x[g][d]; st.node.temp.host(g) = h.T[g]; st.node.mass.host(g) = h.M[g]; } st.node.coords.update_device(); st.node.temp.update_device(); st.node.mass.update_device(); P.mass.update_device(); P.geo_volfrac.update_device(); P.conductivity.update_device(); P.specific_heat.update_device(); geometry::get_vol(st.GaussPoints.vol, st.node.coords, s.mesh()); }
static void judge(Ctx& c, const S& key, Sim& s, Heat& h, const S& when) { auto& st = s.st(); auto& P = st.MaterialPoints; st.node.temp.update_host(); st.node.coords.update_host(); st.node.mass.update_host(); P.q_flux.update_host(); P.temp_grad.update_host(); P.eroded.update_host(); P.mass.update_host(); P.conductivity.update_host(); P.specific_heat.update_host(); auto is = [&](const S& what, size_t a, double got, double want, double sc = 1) { c.check(near(got, want, 1e-9, sc), key, when + ": " + what + " " + std::to_string(a) + " is " + num(got) + ", the equations give " + num(want)); };
    for (size_t g = 0; g < h.T.size(); g++) { is("temperature of node", g, st.node.temp.host(g), h.T[g]); for (int d = 0; d < 3; d++) is("coordinate of node", g, st.node.coords.host(g, d), h.r.x[g][d]); is("mass of node", g, st.node.mass.host(g), h.M[g], 1e-2); } for (size_t k = 0; k < h.pt.size(); k++) for (size_t i = 0; i < h.pt[k].size(); i++) { auto& p = h.pt[k][i]; for (int d = 0; d < 3; d++) { is("temperature gradient of element", p.e, P.temp_grad.host(k, i, d), p.g[d], 100); is("heat flux of element", p.e, P.q_flux.host(k, i, d), p.q[d], 100); } c.check(P.eroded.host(k, i) == p.gone, key, when + ": element " + std::to_string(p.e) + (p.gone ? " should have molten" : " should not have molten")); is("mass of element", p.e, P.mass.host(k, i), p.m, 1e-2); is("conductivity of element", p.e, P.conductivity.host(k, i), p.k, 1e-2); is("specific heat of element", p.e, P.specific_heat.host(k, i), p.cp, 1e-2); } c.evals(h.T.size() * 2); }
static void mesh(Ctx& c, HC& q, bool th) { static const int M[5][3] = {{1, 1, 1}, {2, 1, 1}, {2, 2, 1}, {1, 2, 2}, {3, 2, 2}}; int m = c.choose(th ? 5 : 3); for (int d = 0; d < 3; d++) { q.n[d] = M[m][d]; q.L[d] = (d == 0 ? 0.8 : d == 1 ? 0.5 : 0.6) * q.n[d]; q.O[d] = d == 0 ? -0.3 : d == 1 ? 0.2 : 0; } q.mix = c.choose(3); if (q.mix == 1 && q.n[0] == 1) c.prune(); q.rk = 1 + c.choose(th ? 3 : 2); }
static Bc one(Ctx& c, bool few = false) { Bc b; b.face = c.choose(6); int m = c.choose(few ? 3 : 5); b.model = m == 0 ? 0 : m == 2 ? 2 : 1; if (m == 0) b.v = {500}; if (m == 1) b.v = {350, 7}; if (m == 3) b.v = {310}; return b; }
static void finish(Ctx& c, const HC& q, const S& deck, const S& key, Sim& s, Heat& h, const std::function<void(Heat&)>& go) { Outcome o = guarded([&] { s.d->execute(); }); c.check(o.ok, key, "the run ends with " + o.what); c.step(q.cycles); go(h); judge(c, key, s, h, "after " + std::to_string(q.cycles) + " cycles"); c.state(hash(key)); c.validated(); }
// what 0: fields and no or one boundary condition, 1: pairs of boundary conditions
static void step(Ctx& c, bool th, int what) { HC q; mesh(c, q, th); if (what && (q.mix == 2 || (!th && q.n[1] > 1))) c.prune(); std::vector<Bc> b; if (what == 1) { b.push_back(one(c)); b.push_back(one(c)); b[1].v = b[1].model == 0 ? std::vector<double>{450} : b[1].v; q.cycles = 2; } else { if (c.flip()) b.push_back(one(c)); q.cycles = 1 + c.choose(th ? 4 : 2); } int kind = c.choose(what && !th ? 2 : 3), nodes = (q.n[0] + 1) * (q.n[1] + 1) * (q.n[2] + 1), k = what ? 2 : c.choose(NT + (q.mix == 2 && !th ? 0 : nodes));
    S deck = deckOf(q, b), key = deck + "distortion " + std::to_string(kind) + " temperatures " + std::to_string(k); c.key(key); c.note(key); Sim s; simulate(s, deck, SETUP); c.check(s.out.ok, key, "refused: " + s.out.what); Heat h; h.bcs = b; load(s, h, q, kind, k); finish(c, q, deck, key, s, h, [&](Heat& h) { h.constant(); for (int n = 0; n < q.cycles; n++) h.step(q.dt, q.rk, n * q.dt); }); }
// without boundary conditions the heat is conserved and uniform temperature stays
static void conserve(Ctx& c, bool th) { HC q; mesh(c, q, true); if (q.mix == 2) c.prune(); q.cycles = th ? 40 : 15; int kind = c.choose(3), nodes = (q.n[0] + 1) * (q.n[1] + 1) * (q.n[2] + 1), k = c.choose(NT + nodes); q.dt = 0.002; S deck = deckOf(q, {}), key = deck + "distortion " + std::to_string(kind) + " temperatures " + std::to_string(k); c.key(key); c.note(key); Sim s; simulate(s, deck, SETUP); c.check(s.out.ok, key, "refused: " + s.out.what); Heat h; load(s, h, q, kind, k); std::vector<double> C(h.T.size(), 0), N(h.T.size(), 0); for (auto& m : h.pt) for (auto& p : m) for (size_t g : h.r.el[p.e]) { C[g] += p.cp; N[g]++; } double H0 = 0, H = 0; for (size_t g = 0; g < h.T.size(); g++) H0 += h.M[g] * C[g] / N[g] * h.T[g]; Outcome o = guarded([&] { s.d->execute(); }); c.check(o.ok, key, "the run ends with " + o.what); c.step(q.cycles); s.st().node.temp.update_host(); for (size_t g = 0; g < h.T.size(); g++) { double t = s.st().node.temp.host(g); H += h.M[g] * C[g] / N[g] * t; if (k == 0) c.check(near(t, 400, 1e-11), key, "a uniform temperature of 400 became " + num(t) + " at node " + std::to_string(g)); } c.check(near(H, H0, 1e-12), key, "the heat content " + num(H0) + " became " + num(H)); c.evals(2); c.state(hash(key)); c.validated(); }
// two solvers one after the other, each with its own boundary conditions
static void chained(Ctx& c, bool th) { HC q; for (int d = 0; d < 3; d++) { q.n[d] = d == 0 ? 2 : 1; q.L[d] = d ? 0.6 : 1.5; q.O[d] = 0.1 * d; } q.solvers = 2; q.cycles = 50; q.dt = 0.01; q.t1 = 0.03; q.rk = 1 + c.choose(2); Bc a = one(c, true), b = one(c, true); b.solver = 1; if (b.model == 0) b.v = {450}; bool swap = c.flip(); int third = c.choose(2); std::vector<Bc> bs = swap ? std::vector<Bc>{b, a} : std::vector<Bc>{a, b}; if (third) bs.push_back(Bc{c.choose(6), 2, {}, 1}); int kind = th ? c.choose(3) : 1; S deck = deckOf(q, bs); auto p = deck.find("time_final: 100"); deck.replace(p, 15, "time_final: 0.05"); S key = deck + "distortion " + std::to_string(kind); c.key(key); c.note(key); Sim s; simulate(s, deck, SETUP); c.check(s.out.ok, key, "refused: " + s.out.what); Heat h; h.bcs = bs; load(s, h, q, kind, 2); q.cycles = 5;
    finish(c, q, deck, key, s, h, [&](Heat& h) { double t = 0; for (int sv = 0; sv < 2; sv++) { h.solver = sv; double end = sv ? 0.05 : 0.03; h.constant(); double dt = q.dt; while (t < end) { double d = std::min(dt, end - t + 1e-12); h.step(d, q.rk, t); t += d; } } }); }
// the moving source, with tabulated properties
static S tableFile(int form, const std::vector<std::array<double, 2>> t[3], const S& path) { static const char* K[2][3] = {{"*Density", "*CONDUCTIVITY", "*SPECIFIC HEAT"}, {"*density, dependencies=0", "*conductivity, type=iso", "*specific heat"}}; S eol = form == 2 ? "\r\n" : "\n", o = "** a comment" + eol + "*MATERIAL, NAME=steel" + eol; static const int ORD[2][3] = {{0, 1, 2}, {2, 0, 1}}; for (int i = 0; i < 3; i++) { int f = ORD[form == 1][i]; o += S(K[form == 1][f]) + eol + "** unit: 1, 2" + eol; for (auto& r : t[f]) { o += (form == 1 ? "  " : "") + g17(r[1]) + (form == 1 ? " , " : ",") + g17(r[0]) + (form == 3 ? "," : "") + eol; if (form == 3) o += eol + "** more" + eol; } if (form == 1 && i == 0) o += "*EXPANSION" + eol + "9,9" + eol; } if (form == 3) o += "*END" + eol + "5,5" + eol; put(path, o); return path; }
static void moving(Ctx& c, bool th, bool tables) { HC q; for (int d = 0; d < 3; d++) { q.n[d] = d == 0 ? 3 : d == 1 ? 2 : 1; q.L[d] = 6.0 * q.n[d]; } static const double A[6][3] = {{91, 144, 12}, {111.5, 141, 10}, {136, 146.2, 9}, {190, 148, 13}, {113, 144, 26.5}, {-3, -3, -3}}; int a = tables ? 0 : c.choose(6); for (int d = 0; d < 3; d++) q.O[d] = A[a][d]; q.source = true; q.dt = tables ? 0.5 : c.flip() ? 1 : 0.5; q.cycles = tables ? 1 : 1 + c.choose(th ? 14 : 7); q.rk = tables ? 1 : 1 + c.choose(2); int kind = tables ? 0 : c.choose(2);
    static const std::vector<std::array<double, 2>> TB[4] = {{{300, 2}}, {{300, 2}, {400, 5}}, {{290, 3}, {350, 4.5}, {420, 2.5}}, {{250, 1}, {320, 1.5}, {400, 4}, {800, 3}}}; std::vector<std::array<double, 2>> t[3]; int form = tables ? c.choose(4) : 0; for (int i = 0; i < 3; i++) { t[i] = TB[tables ? c.choose(4) : i + 1]; for (auto& r : t[i]) r[1] *= 1 + i; } int sub = tables ? c.choose(2) : 0, k = tables ? c.choose(NT + 6) : 2; Heat h0; scratch(); q.table = tableFile(form, t, scratch() + "/steel.inp"); static const char* F[3] = {"density", "thermal_conductivity", "specific_heat"}; for (int i = 0; i < 3; i++) q.fields += S("                - ") + F[sub ? 2 - i : i] + "\n";
    S deck = deckOf(q, {}), key = deck + get(q.table) + "distortion " + std::to_string(kind) + " temperatures " + std::to_string(k); { auto p = key.find(scratch()); if (p != S::npos) key.erase(p, scratch().size()); } c.key(key); c.note(key); Sim s; simulate(s, deck, SETUP); c.check(s.out.ok, key, "refused: " + s.out.what); Heat h; h.source = true; load(s, h, q, kind, k); for (auto& p : h.pt[0]) { double avg = 0; for (size_t g : h.r.el[p.e]) avg += h.T[g] / 8; p.k = Heat::lerp(t[1], avg); p.cp = Heat::lerp(t[2], avg); }
    std::vector<double> rho; for (auto& p : h.pt[0]) { double avg = 0; for (size_t g : h.r.el[p.e]) avg += h.T[g] / 8; rho.push_back(Heat::lerp(t[0], avg)); } finish(c, q, deck, key, s, h, [&](Heat& h) { double tm = 0; for (int n = 0; n < q.cycles; n++) { h.step(q.dt, q.rk, tm); tm += q.dt; } }); s.st().MaterialPoints.den.update_host(); for (size_t i = 0; i < rho.size(); i++) c.check(near(s.st().MaterialPoints.den.host(0, i), rho[i]), key, "density " + num(s.st().MaterialPoints.den.host(0, i)) + " of element " + std::to_string(i) + ", the table gives " + num(rho[i])); }
int main(int argc, char** argv) { bool th = false; for (int i = 1; i < argc; i++) th |= !strcmp(argv[i], "--thorough");
    return main_(argc, argv, "heat", {{"step", [th](Ctx& c) { step(c, th, 0); }, 5}, {"pairs", [th](Ctx& c) { step(c, th, 1); }, 5}, {"conserve", [th](Ctx& c) { conserve(c, th); }, 5}, {"chained", [th](Ctx& c) { chained(c, th); }, 5}, {"moving", [th](Ctx& c) { moving(c, th, false); }, 4}, {"tables", [th](Ctx& c) { moving(c, th, true); }, 5}}); }
