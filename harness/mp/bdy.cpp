// Boundary tagging: which patches and nodes of a mesh every list of boundary conditions of a deck applies to.
#include "mp.hpp"
#include "parse_mesh_inputs.hpp"
#include "parse_bdy_conds_inputs.hpp"
#include "mesh_io.hpp"
#include "geometry_new.hpp"
using namespace mp;
MP_EXIT
struct MeshCase { const char* deck; int nd; };
static const MeshCase ME[6] = {
    {"source: generate\n    num_dims: 3\n    type: box\n    origin: [0, 0, 0]\n    length: [1, 1, 1]\n    num_elems: [2, 2, 1]\n", 3},
    {"source: generate\n    num_dims: 3\n    type: box\n    origin: [-1, -1, 0]\n    length: [2, 2, 1]\n    num_elems: [1, 1, 2]\n", 3},
    {"source: generate\n    num_dims: 2\n    type: box\n    origin: [0, 0]\n    length: [1, 2]\n    num_elems: [3, 2]\n", 2},
    {"source: generate\n    num_dims: 2\n    type: polar\n    origin: [0, 0]\n    inner_radius: 1\n    outer_radius: 2\n    starting_angle: 0\n    ending_angle: 90\n    num_radial_elems: 2\n    num_angular_elems: 3\n", 2},
    {"source: generate\n    num_dims: 3\n    type: box\n    origin: [0, 0, 0]\n    length: [1, 1, 3]\n    num_elems: [1, 1, 3]\n", 3},
    {"source: generate\n    num_dims: 2\n    type: polar\n    origin: [0.5, 0]\n    inner_radius: 0.5\n    outer_radius: 1\n    starting_angle: 0\n    ending_angle: 80\n    num_radial_elems: 1\n    num_angular_elems: 2\n", 2}};
struct Surf { std::string type; double v, tol; double o[3]; bool deftol, deforg; };
static Surf surface(Ctx& c, bool th, int nd) {
    static const char* T[5] = {"x_plane", "y_plane", "z_plane", "cylinder", "sphere"}; int t = c.choose(5); Surf s; s.type = T[t]; s.o[0] = s.o[1] = s.o[2] = 0; s.deforg = true;
    if (t < 3) { static const double P[6] = {0, 1, 2, 0.5, -1, 3}; if (t == 2 && nd == 2) c.prune(); s.v = P[c.choose(th ? 6 : 5)]; }
    else { if (t == 4 && nd == 2) c.prune(); static const double R[8] = {1, 2, 1.4142135623730951, 0.5, 1.7320508075688772, 0.70710678118654757, 1.5, 0}; s.v = R[c.choose(th ? 8 : 6)]; int o = c.choose(th ? 4 : 3); if (o) { s.deforg = false; static const double O[4][3] = {{0, 0, 0}, {0.5, 0.5, 0}, {0.5, 0, 1}, {0, 0, 0.5}}; for (int d = 0; d < 3; d++) s.o[d] = O[o][d]; } }
    static const double TL[4] = {1e-7, 1e-3, 0.3, 0.6}; int k = c.choose(th ? 4 : 3); s.deftol = k == 0; s.tol = TL[k]; return s; }
static void tag(Ctx& c, bool th) {
    int mi = c.choose(th ? 6 : 4); int n = 1 + c.choose(2); std::vector<Surf> S; for (int i = 0; i < n; i++) S.push_back(surface(c, th, ME[mi].nd));
    bool swap = n > 1 && c.flip(); if (swap) std::swap(S[0], S[1]);
    std::string deck = std::string("mesh_options:\n    ") + ME[mi].deck + "boundary_conditions:\n"; for (auto& s : S) { deck += "    - boundary_condition:\n        solver_id: 0\n        surface:\n            type: " + s.type + "\n            " + (s.type.find("plane") != std::string::npos ? "plane_position: " : "radius: "); char b[40]; snprintf(b, 40, "%.17g", s.v); deck += b + std::string("\n"); if (!s.deftol) deck += "            tolerance: " + num(s.tol) + "\n"; if (!s.deforg) deck += "            origin: [" + num(s.o[0]) + ", " + num(s.o[1]) + (s.o[2] ? ", " + num(s.o[2]) : "") + "]\n"; deck += "        velocity_model: fixed\n"; }
    c.key(deck); c.note(deck); swage::Mesh mesh; State_t st; SimulationParameters_t sp; BoundaryCondition_t bc;
    Outcome r = guarded([&] { Yaml::Node root; Yaml::Parse(root, deck); parse_mesh_inputs(root, sp.mesh_input); MeshBuilder m; m.build_mesh(mesh, st.GaussPoints, st.node, st.corner, sp); parse_bcs(root, bc, 1); mesh.init_bdy_sets(bc.num_bcs); tag_bdys(bc, mesh, st.node.coords); build_boundry_node_sets(mesh); }); c.check(r.ok, deck, "refused: " + r.what);
    // faces of the elements, straight from the connectivity: a face with one element is a boundary face
    static const int F3[6][4] = {{0, 2, 4, 6}, {1, 3, 5, 7}, {0, 1, 4, 5}, {2, 3, 6, 7}, {0, 1, 2, 3}, {4, 5, 6, 7}}; static const int F2[4][2] = {{0, 1}, {1, 2}, {2, 3}, {3, 0}}; int nd = ME[mi].nd; std::map<std::set<size_t>, int> faces; for (size_t e = 0; e < mesh.num_elems; e++) for (int f = 0; f < 2 * nd; f++) { std::set<size_t> k; for (int q = 0; q < (nd == 3 ? 4 : 2); q++) k.insert(mesh.nodes_in_elem.host(e, nd == 3 ? F3[f][q] : F2[f][q])); faces[k]++; }
    for (int i = 0; i < n; i++) { auto& s = S[i]; std::set<std::set<size_t>> want; std::set<size_t> wn; for (auto& [k, cnt] : faces) { if (cnt != 1) continue; bool in = true; for (size_t g : k) { double x[3] = {0, 0, 0}; for (int d = 0; d < nd; d++) x[d] = st.node.coords.host(g, d); double m = s.type == "x_plane" ? x[0] : s.type == "y_plane" ? x[1] : s.type == "z_plane" ? x[2] : s.type == "cylinder" ? std::hypot(x[0] - s.o[0], x[1] - s.o[1]) : std::sqrt((x[0] - s.o[0]) * (x[0] - s.o[0]) + (x[1] - s.o[1]) * (x[1] - s.o[1]) + (x[2] - s.o[2]) * (x[2] - s.o[2])); double gap = std::fabs(m - s.v); if (std::fabs(gap - s.tol) < 1e-9) c.prune(); in &= gap <= s.tol; } if (in) { want.insert(k); wn.insert(k.begin(), k.end()); } }
        std::set<std::set<size_t>> got; for (size_t p = 0; p < mesh.num_bdy_patches_in_set.host(i); p++) { std::set<size_t> k; for (size_t q = 0; q < mesh.num_nodes_in_patch; q++) k.insert(mesh.nodes_in_patch(mesh.bdy_patches_in_set(i, p), q)); c.check(got.insert(k).second, deck, "a patch is tagged twice by condition " + std::to_string(i)); }
        c.check(got == want, deck, "condition " + std::to_string(i) + " tags " + std::to_string(got.size()) + " patches, " + std::to_string(want.size()) + " lie on its surface"); std::set<size_t> gn; for (size_t k = 0; k < mesh.num_bdy_nodes_in_set.host(i); k++) c.check(gn.insert(mesh.bdy_nodes_in_set(i, k)).second, deck, "node " + std::to_string(mesh.bdy_nodes_in_set(i, k)) + " is listed twice for condition " + std::to_string(i)); c.check(gn == wn, deck, "condition " + std::to_string(i) + " holds " + std::to_string(gn.size()) + " nodes, " + std::to_string(wn.size()) + " lie on its patches"); c.step(want.size() + 1); c.evals(); }
    c.state(hash(deck)); c.validated(); }
int main(int argc, char** argv) { bool th = false; for (int i = 1; i < argc; i++) th |= !strcmp(argv[i], "--thorough");
    return main_(argc, argv, "BDY", {{"tag", [th](Ctx& c) { tag(c, th); }, 4}}); }
