// Region fills: what every element and node holds after the fills of a deck, compared with a direct evaluation of the list.
#include "sim.hpp"
using namespace mp;
MP_EXIT
struct Fill { int vol, mat, vf; double den, e; bool ext; int vel; double temp; };
// volumes; each answers for a point
static S volText(int v, int nd) { switch (v) { case 0: return GLOBAL; case 1: return boxvol(-1, 1.0, -1, 0.6, -1, 5); case 2: return boxvol(0.9, 5, -5, 5, -5, 5); case 3: return "            type: sphere\n            radius1: 0.3\n            radius2: 1.15\n            origin: [0.5, 0.25, 0.5]\n"; case 4: return "            type: cylinder\n            radius1: 0\n            radius2: 0.9\n            z1: -1\n            z2: " + S(nd == 3 ? "0.6" : "1") + "\n            origin: [1.5, 0, 0]\n"; default: return "            type: voxel_file\n            file_path: " + scratch() + "/vox.vtk\n            scale_x: 0.5\n            scale_y: 1\n            scale_z: 2\n            origin: [0.25, 0, -0.5]\n"; } }
// voxel file: 3 x 2 x 2 cells, sides 1 x 0.5 x 0.5 before scaling
static int VN[3] = {3, 2, 2}; static double V0[3] = {0, 0, 0}; static const double VH[3] = {1, 0.5, 0.5}, VS[3] = {0.5, 1, 2}, VO[3] = {0.25, 0, -0.5}; static const int VOX[12] = {1, 0, 1, 0, 1, 1, 1, 1, 0, 0, 0, 1};
static S voxText(int style) { S r = "# vtk DataFile Version 3.0\nHeader\nASCII\nDATASET RECTILINEAR_GRID\nDIMENSIONS " + std::to_string(VN[0] + 1) + " " + std::to_string(VN[1] + 1) + " " + std::to_string(VN[2] + 1) + "\n"; const char* n = "XYZ"; const char* sep = style == 1 ? "\n" : " "; for (int d = 0; d < 3; d++) { r += S(1, n[d]) + "_COORDINATES " + std::to_string(VN[d] + 1) + " float\n"; for (int i = 0; i <= VN[d]; i++) r += std::to_string(V0[d] + i * VH[d]) + (i == VN[d] && style != 0 ? "" : sep); r += "\n"; } r += "\nCELL_DATA 12\nSCALARS density float 1\nLOOKUP_TABLE default\n"; for (int i = 0; i < 12; i++) r += std::to_string(VOX[i]) + (i == 11 && style != 0 ? "" : style == 2 && i % 6 == 5 ? "\n" : sep); return r + (style ? "\n" : ""); }
static bool inside(int v, int nd, const double* x) { auto rad = [&](double a, double b, double c, bool three) { return std::sqrt((x[0] - a) * (x[0] - a) + (x[1] - b) * (x[1] - b) + (three ? (x[2] - c) * (x[2] - c) : 0)); }; switch (v) { case 0: return true; case 1: return x[0] >= -1 && x[0] <= 1.0 && x[1] >= -1 && x[1] <= 0.6; case 2: return x[0] >= 0.9; case 3: { double r = rad(.5, .25, .5, true); return r >= 0.3 && r <= 1.15; } case 4: return rad(1.5, 0, 0, false) <= 0.9 && x[2] <= (nd == 3 ? 0.6 : 1);
    default: { int id[3]; for (int d = 0; d < 3; d++) { double q = (x[d] - VO[d] - VS[d] * V0[d]) / (VS[d] * VH[d]); id[d] = (int)std::floor(q); if (q < 0 || id[d] >= VN[d]) return false; } return VOX[id[0] + VN[0] * (id[1] + VN[1] * id[2])] == 1; } } }
static const int NVF = 8;
static S vfText(int k) { switch (k) { case 0: return ""; case 1: return "        volume_fraction:\n            type: uniform\n            value: 0.5\n"; case 2: return "        volume_fraction:\n            type: uniform\n            value: 0.25\n"; case 3: return "        volume_fraction:\n            type: x_linear\n            slope: 0.5\n            value: 0.125\n"; case 4: return "        volume_fraction:\n            type: y_linear\n            slope: -0.75\n            value: 0.5\n"; case 5: return "        volume_fraction:\n            type: radial\n            slope: 0.375\n            value: 0\n            origin: [1, 0.5, 0]\n"; case 6: return "        volume_fraction:\n            type: spherical\n            slope: 0.25\n            value: 0\n            origin: [1.5, 0.5, 0.5]\n"; default: return "        volume_fraction:\n            type: z_linear\n            slope: 1.5\n            value: -0.25\n"; } }
static double vfVal(int k, const double* x) { double v; switch (k) { case 0: v = 1; break; case 1: v = .5; break; case 2: v = .25; break; case 3: v = .5 * x[0] + .125; break; case 4: v = -.75 * x[1] + .5; break; case 5: v = .375 * std::hypot(x[0] - 1, x[1] - .5); break; case 6: v = .25 * std::sqrt((x[0] - 1.5) * (x[0] - 1.5) + (x[1] - .5) * (x[1] - .5) + (x[2] - .5) * (x[2] - .5)); break; default: v = 1.5 * x[2] - .25; } return v < 0 ? 0 : v > 1 ? 1 : v; }
static S velText(int k) { switch (k) { case 0: return cartesian(1, -2, 3); case 1: return "        velocity:\n            type: radial\n            speed: 2\n"; case 2: return "        velocity:\n            type: spherical\n            speed: -1.5\n"; case 3: return "        velocity:\n            type: tg_vortex\n"; case 4: return "        velocity:\n            type: static\n"; default: return cartesian(0, 0.5, 0); } }
static void velVal(int k, int nd, const double* x, double* u) { double rc = std::hypot(x[0], x[1]), rs = std::sqrt(rc * rc + x[2] * x[2]); u[0] = u[1] = u[2] = 0; switch (k) { case 0: u[0] = 1; u[1] = -2; u[2] = 3; break; case 1: if (rc > 0) { u[0] = 2 * x[0] / rc; u[1] = 2 * x[1] / rc; } break; case 2: if (rs > 0) for (int d = 0; d < 3; d++) u[d] = -1.5 * x[d] / rs; break; case 3: u[0] = std::sin(M_PI * x[0]) * std::cos(M_PI * x[1]); u[1] = -std::cos(M_PI * x[0]) * std::sin(M_PI * x[1]); break; case 4: break; default: u[1] = .5; } if (nd == 2) u[2] = 0; }
struct Bin { int fill; double vf; };
// the reference: fills apply in order; a full one replaces everything, a partial one joins or replaces its own material
static bool reference(const std::vector<Fill>& F, int nd, const double* x, size_t cap, std::vector<Bin>& b) { b.clear(); for (size_t f = 0; f < F.size(); f++) { if (!inside(F[f].vol, nd, x)) continue; double v = vfVal(F[f].vf, x); if (v >= 1 - 1e-8) { b = {{(int)f, 1.0}}; continue; } bool had = false; for (auto& q : b) if (F[q.fill].mat == F[f].mat) { q = {(int)f, v}; had = true; } if (!had) { if (b.size() >= cap) return false; b.push_back({(int)f, v}); } } return true; }
static void fills(Ctx& c, int kind, bool th) {
    // kind 0: 3D, 1: RZ; 2: pairs/triples with all materials and fractions on one volume set; 3: voxel files
    int nd = kind == 1 ? 2 : 3; std::vector<Fill> F; int n = kind == 3 ? 1 + c.choose(2) : kind == 2 ? 3 + (th ? c.choose(2) : 0) : 2; static const double DEN[4] = {2, 3, 0.5, 7};
    size_t cap = kind == 2 ? 2 + c.choose(2) : 3; int style = kind == 3 ? c.choose(3) : 0; if (kind == 3) { static const int G[4][3] = {{3, 2, 2}, {1, 3, 4}, {4, 1, 3}, {6, 2, 1}}; int g = c.choose(4); for (int d = 0; d < 3; d++) VN[d] = G[g][d]; double o = c.flip() ? 0.25 : 0; V0[0] = o; V0[1] = -o; V0[2] = o / 2; }
    for (int i = 0; i < n; i++) { Fill f{}; f.den = DEN[i]; f.e = 1 + i; f.ext = false; 
        if (kind == 2) { static const int V[3] = {0, 1, 2}; f.vol = V[c.choose(i == 0 ? 1 : th ? 3 : 2)]; f.mat = c.choose(3); static const int K[4] = {0, 1, 2, 3}; f.vf = K[c.choose(th ? 4 : 3)]; f.vel = i % 2 ? 5 : 0; f.ext = i == 1; }
        else if (kind == 3) { f.vol = i == n - 1 ? 5 : 0; f.mat = i; f.vf = c.choose(2); f.vel = 0; }
        else { f.vol = c.choose(5); f.mat = c.choose(2); f.vf = c.choose(th || i == 1 ? NVF : 2); f.vel = c.choose(th || i == 1 ? 6 : 2); f.ext = c.flip(); if (kind == 1 && (f.vf == 7)) c.prune(); }
        F.push_back(f); }
    int order = kind == 2 ? 0 : c.choose(2);
    S ds = kind == 1 ? "MARS_rz" : "MARS"; S deck = dynamics(1, 1) + (kind == 1 ? box2(4, 2, 2, 1) : kind == 2 ? box3(2, 2, 1, 2, 2, 1) : kind == 3 ? box3(8, 4, 4, 2, 1, 2, 0.0625, 0.0625, -0.6) : box3(4, 2, 2, 2, 1, 1)) + outputs("state") + "solver_options:\n" + solver(kind == 1 ? "dynx_FE_rz" : "dynx_FE") + "boundary_conditions:\n" + bc("x_plane", 0, velbc("fixed")) + "multimaterial_options:\n    max_num_mats_per_element: " + std::to_string(cap) + "\nmaterials:\n" + gas(0, 5. / 3., 1e-14, 1, ds) + gas(1, 1.4, 1e-14, 1, ds) + gas(2, 2, 1e-14, 1, ds) + "regions:\n";
    for (auto& f : F) deck += regionOf(volText(f.vol, nd), f.mat, vfText(f.vf) + uniform("density", f.den) + uniform(f.ext ? "internal_energy" : "specific_internal_energy", f.e) + velText(f.vel));
    if (kind == 3) put(scratch() + "/vox.vtk", voxText(style));
    S full = deck + std::to_string(order) + (kind == 3 ? voxText(style) : ""); c.key(full); c.note(deck); Sim s; mcshim::g_order = order; simulate(s, deck, SETUP); mcshim::g_order = 0;
    static const size_t NX[4] = {4, 4, 2, 8}, NY[4] = {2, 2, 2, 4}, NZ[4] = {2, 1, 1, 4}; static const double LX[4] = {2, 2, 2, 2}, LY[4] = {1, 1, 2, 1}, LZ[4] = {1, 0, 1, 2}; static const double O[4][3] = {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}, {0.0625, 0.0625, -0.6}};
    size_t E = NX[kind] * NY[kind] * NZ[kind]; std::vector<std::vector<Bin>> want(E); bool fits = true; std::vector<std::array<double, 3>> cen(E);
    for (size_t e = 0; e < E; e++) { size_t i = e % NX[kind], j = (e / NX[kind]) % NY[kind], k = e / NX[kind] / NY[kind]; cen[e] = {O[kind][0] + (i + .5) * LX[kind] / NX[kind], O[kind][1] + (j + .5) * LY[kind] / NY[kind], nd == 3 ? O[kind][2] + (k + .5) * LZ[kind] / NZ[kind] : 0.0}; for (auto& f : F) { double v = vfVal(f.vf, cen[e].data()); if (v > 0 && v < 1 && std::fabs(v - 1) < 1e-6) c.prune(); } fits &= reference(F, nd, cen[e].data(), cap, want[e]); }
    if (!fits) { c.check(!s.out.ok, deck, "an element holds more materials than max_num_mats_per_element and the run goes on"); c.evals(); c.state(hash(full)); c.validated(); return; }
    c.check(s.out.ok, deck, "refused: " + s.out.what); auto& st = s.st(); auto& mesh = s.mesh(); c.check(mesh.num_elems == E, deck, "elements");
    // elements of the mesh in any order: find by centre
    std::vector<size_t> count(3, 0); std::vector<double> emass(E, 0.0); std::vector<std::set<size_t>> sids(3);
    for (size_t e = 0; e < E; e++) { double x[3] = {0, 0, 0}; size_t nn = mesh.num_nodes_in_elem; for (size_t q = 0; q < nn; q++) for (int d = 0; d < nd; d++) x[d] += st.node.coords.host(mesh.nodes_in_elem.host(e, q), d) / nn; size_t w = E; for (size_t k = 0; k < E; k++) if (near(x[0], cen[k][0], 1e-9) && near(x[1], cen[k][1], 1e-9) && (nd == 2 || near(x[2], cen[k][2], 1e-9))) w = k; c.check(w < E, deck, "element centre");
        auto& b = want[w]; S at = "element at " + num(x[0]) + " " + num(x[1]) + " " + num(x[2]) + ": "; c.check(st.MeshtoMaterialMaps.num_mats_in_elem.host(e) == b.size(), deck, at + "holds " + std::to_string(st.MeshtoMaterialMaps.num_mats_in_elem.host(e)) + " materials, the fills give " + std::to_string(b.size()));
        double dx = LX[kind] / NX[kind], dy = LY[kind] / NY[kind], vol = nd == 3 ? dx * dy * LZ[kind] / NZ[kind] : dx * dy * x[1];
        for (size_t k = 0; k < b.size(); k++) { const Fill& f = F[b[k].fill]; size_t m = st.MeshtoMaterialMaps.mats_in_elem.host(e, k); c.check(m == (size_t)f.mat, deck, at + "material " + std::to_string(m) + ", the fills give " + std::to_string(f.mat)); size_t sid = st.MeshtoMaterialMaps.mat_elems_in_elem.host(e, k); count[m]++; c.check(sids[m].insert(sid).second && st.MaterialToMeshMaps.elem_in_mat_elem.host(m, sid) == e, deck, at + "element and material maps disagree");
            auto& P = st.MaterialPoints; double mass = f.den * vol * b[k].vf; emass[e] += mass; c.check(near(P.volfrac.host(m, sid) * P.geo_volfrac.host(m, sid), b[k].vf), deck, at + "volume fraction " + num(P.volfrac.host(m, sid)) + ", want " + num(b[k].vf)); c.check(near(P.den.host(m, sid), f.den), deck, at + "density " + num(P.den.host(m, sid)) + ", want " + num(f.den)); c.check(near(P.mass.host(m, sid), mass, 1e-11), deck, at + "mass " + num(P.mass.host(m, sid)) + ", want " + num(mass)); if (!f.ext || mass > 0) { double e0 = f.ext ? f.e / mass : f.e; c.check(near(P.sie.host(m, sid), e0, 1e-11), deck, at + "energy " + num(P.sie.host(m, sid)) + ", want " + num(e0)); } c.evals(5); } c.step(b.size() + 1); }
    for (int m = 0; m < 3; m++) { c.check(st.MaterialToMeshMaps.num_mat_elems.host(m) == count[m], deck, "material " + std::to_string(m) + " says it is in " + std::to_string(st.MaterialToMeshMaps.num_mat_elems.host(m)) + " elements, is in " + std::to_string(count[m])); c.check(st.MaterialPoints.num_material_points.host(m) == count[m], deck, "number of material points"); }
    // nodes: mass by element shares, velocity by the last fill of an element around it
    std::vector<double> nm(mesh.num_nodes, 0.0); std::vector<std::set<int>> nv(mesh.num_nodes); for (size_t e = 0; e < E; e++) { double x[3] = {0, 0, 0}; size_t nn = mesh.num_nodes_in_elem; for (size_t q = 0; q < nn; q++) for (int d = 0; d < nd; d++) x[d] += st.node.coords.host(mesh.nodes_in_elem.host(e, q), d) / nn; std::vector<Bin> b; reference(F, nd, x, cap, b); for (size_t q = 0; q < nn; q++) { size_t g = mesh.nodes_in_elem.host(e, q); nm[g] += emass[e] / nn; if (!b.empty()) nv[g].insert(F[b.back().fill].vel); } }
    st.node.mass.update_host(); st.node.vel.update_host();
    for (size_t g = 0; g < mesh.num_nodes; g++) { double x[3] = {0, 0, 0}; for (int d = 0; d < nd; d++) x[d] = st.node.coords.host(g, d); S at = "node at " + num(x[0]) + " " + num(x[1]) + " " + num(x[2]) + ": "; if (kind != 1) c.check(near(st.node.mass.host(g), nm[g], 1e-11), deck, at + "mass " + num(st.node.mass.host(g)) + ", want " + num(nm[g])); if (nv[g].empty()) continue; bool any = false; for (int v : nv[g]) { double u[3]; velVal(v, nd, x, u); bool same = true; for (int d = 0; d < nd; d++) same &= near(st.node.vel.host(g, d), u[d], 1e-12); any |= same; } c.check(any, deck, at + "velocity " + num(st.node.vel.host(g, 0)) + " " + num(st.node.vel.host(g, 1)) + " is none of those its elements' fills give"); c.evals(2); }
    c.state(hash(full)); c.validated(); }
// thermal state (kind 0) and level set (kind 1: 3D, 2: 2D)
static void fields(Ctx& c, int kind, bool th) {
    int nd = kind == 2 ? 2 : 3; int n = 1 + c.choose(th ? 3 : 2); struct R { int vol, mat, vf, type; double val, slope; }; std::vector<R> Q; int order = c.choose(2);
    for (int i = 0; i < n; i++) { R r{}; r.vol = c.choose(i == 0 ? 1 : 3); r.mat = c.choose(2); r.vf = kind == 0 ? c.choose(2) : c.choose(2); static const double V[3] = {1, 0, 3}; if (kind) { r.type = c.choose(6); if (nd == 2 && r.type == 5) c.prune(); r.slope = c.choose(2) ? -0.5 : 2; r.val = V[c.choose(2)]; } else { r.type = 0; r.val = c.choose(3); } Q.push_back(r); }
    static const char* T[6] = {"uniform", "radial", "spherical", "x_linear", "y_linear", "z_linear"};
    S deck = dynamics(1, 1) + (nd == 2 ? box2(4, 2, 2, 1) : box3(4, 2, 2, 2, 1, 1)) + outputs("state") + "solver_options:\n" + solver(kind ? "level_set" : "thrmex_FE") + "boundary_conditions:\n" + bc("x_plane", 0, velbc("fixed")) + "multimaterial_options:\n    max_num_mats_per_element: 2\nmaterials:\n"; for (int m = 0; m < 2; m++) deck += kind ? "    - material:\n        id: " + std::to_string(m) + "\n        level_set_type: evolve_front\n        normal_velocity: 0.1\n        curvature_velocity: 0.1\n" : gas(m); deck += "regions:\n";
    std::vector<Fill> F; for (auto& r : Q) { Fill f{}; f.vol = r.vol; f.mat = r.mat; f.vf = r.vf; F.push_back(f); S x = vfText(r.vf); if (kind) x += S("        level_set:\n            type: ") + T[r.type] + "\n            value: " + g17(r.val) + "\n            slope: " + g17(r.slope) + "\n            origin: [0.25, 0.5, 0]\n"; else x += uniform("density", 1 + r.mat) + uniform("specific_internal_energy", 2) + cartesian(0, 0, 0) + uniform("temperature", 300 + r.val) + uniform("thermal_conductivity", 3 + r.val) + uniform("specific_heat", 4 + 2 * r.val); deck += regionOf(volText(r.vol, nd), r.mat, x); }
    c.key(deck + std::to_string(order)); c.note(deck); Sim s; mcshim::g_order = order; simulate(s, deck, INIT); mcshim::g_order = 0; c.check(s.out.ok, deck, "refused: " + s.out.what); auto& st = s.st(); auto& mesh = s.mesh(); std::vector<std::set<double>> nt(mesh.num_nodes);
    for (size_t e = 0; e < mesh.num_elems; e++) { double x[3] = {0, 0, 0}; size_t nn = mesh.num_nodes_in_elem; for (size_t q = 0; q < nn; q++) for (int d = 0; d < nd; d++) x[d] += st.node.coords.host(mesh.nodes_in_elem.host(e, q), d) / nn; std::vector<Bin> b; reference(F, nd, x, 2, b); S at = "element at " + num(x[0]) + " " + num(x[1]) + " " + num(x[2]) + ": "; double best = 1e32; c.check(st.MeshtoMaterialMaps.num_mats_in_elem.host(e) == b.size(), deck, at + "number of materials"); 
        for (size_t k = 0; k < b.size(); k++) { const R& r = Q[b[k].fill]; double dx = x[0] - .25, dy = x[1] - .5, v = 0; switch (r.type) { case 0: v = r.val; break; case 1: v = r.slope * std::hypot(dx, dy) - r.val * r.val; break; case 2: v = r.slope * std::sqrt(dx * dx + dy * dy + x[2] * x[2]) - r.val; break; default: v = r.slope * x[r.type - 3] + r.val; } best = std::min(best, v); size_t m = r.mat, sid = st.MeshtoMaterialMaps.mat_elems_in_elem.host(e, k); if (!kind) { c.check(near(st.MaterialPoints.conductivity.host(m, sid), 3 + r.val) && near(st.MaterialPoints.specific_heat.host(m, sid), 4 + 2 * r.val), deck, at + "conductivity " + num(st.MaterialPoints.conductivity.host(m, sid)) + ", heat " + num(st.MaterialPoints.specific_heat.host(m, sid)) + ", want " + num(3 + r.val) + " and " + num(4 + 2 * r.val)); c.evals(); } }
        if (kind) { c.check(near(st.GaussPoints.level_set.host(e), best), deck, at + "level set " + num(st.GaussPoints.level_set.host(e)) + ", want " + num(best)); c.evals(); } else if (!b.empty()) for (size_t q = 0; q < nn; q++) nt[mesh.nodes_in_elem.host(e, q)].insert(300 + Q[b.back().fill].val); c.step(); }
    if (!kind) for (size_t g = 0; g < mesh.num_nodes; g++) if (!nt[g].empty()) { c.check(nt[g].count(st.node.temp.host(g)), deck, "node " + std::to_string(g) + " has temperature " + num(st.node.temp.host(g))); c.evals(); }
    c.state(hash(deck + std::to_string(order))); c.validated(); }
int main(int argc, char** argv) { bool th = false; for (int i = 1; i < argc; i++) th |= !strcmp(argv[i], "--thorough");
    std::vector<Scenario> sc; static const char* N[4] = {"box3d", "rz", "many", "voxel"}; for (int k = 0; k < 4; k++) sc.push_back({N[k], [k, th](Ctx& c) { fills(c, k, th); }, k == 2 ? 6 : 4}); static const char* M[3] = {"thermal", "levelset3d", "levelset2d"}; for (int k = 0; k < 3; k++) sc.push_back({M[k], [k, th](Ctx& c) { fields(c, k, th); }, 4}); return main_(argc, argv, "FILL", sc); }
