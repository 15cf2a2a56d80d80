// Generated meshes: every small box / polar request, written as a deck, parsed and built by the code, against the mesh it asks for.
#include "mp.hpp"
#include "parse_mesh_inputs.hpp"
#include "mesh_io.hpp"
using namespace mp;
MP_EXIT
struct Built { swage::Mesh mesh; State_t st; SimulationParameters_t sp; };
static Outcome build(Built& b, const std::string& deck) { return guarded([&] { Yaml::Node root; Yaml::Parse(root, deck); parse_mesh_inputs(root, b.sp.mesh_input); MeshBuilder m; m.build_mesh(b.mesh, b.st.GaussPoints, b.st.node, b.st.corner, b.sp); }); }
static double crd(Built& b, size_t n, int d) { return b.st.node.coords.host(n, d); }
static void common(Ctx& c, Built& b, const std::string& what, size_t nn, size_t ne, int nd) {
    c.check(b.mesh.num_nodes == nn && b.mesh.num_elems == ne, what, "the mesh has " + std::to_string(b.mesh.num_nodes) + " nodes and " + std::to_string(b.mesh.num_elems) + " elements instead of " + std::to_string(nn) + " and " + std::to_string(ne));
    c.check((int)b.mesh.num_dims == nd, what, "wrong number of dimensions"); c.check(b.mesh.num_corners == ne * (nd == 3 ? 8 : 4), what, "the mesh has " + std::to_string(b.mesh.num_corners) + " corners");
    std::vector<int> used(nn, 0); for (size_t e = 0; e < ne; e++) for (size_t l = 0; l < b.mesh.num_nodes_in_elem; l++) { size_t g = b.mesh.nodes_in_elem.host(e, l); c.check(g < nn, what, "element refers to node " + std::to_string(g)); used[g]++; c.check(b.mesh.nodes_in_elem(e, l) == g, what, "device and host connectivity differ"); }
    for (size_t n = 0; n < nn; n++) { c.check(used[n] > 0, what, "node " + std::to_string(n) + " belongs to no element"); for (int d = 0; d < nd; d++) c.check(b.st.node.coords(n, d) == crd(b, n, d), what, "device and host coordinates differ"); }
    for (size_t n = 0; n < nn; n++) for (size_t m = 0; m < n; m++) { bool same = true; for (int d = 0; d < nd; d++) same &= near(crd(b, n, d), crd(b, m, d), 1e-10); c.check(!same, what, "nodes " + std::to_string(m) + " and " + std::to_string(n) + " coincide"); }
    c.state(hash(what)); c.step(nn + ne); c.validated(); c.evals(nn + ne); }
static void box(Ctx& c, bool th) {
    static const double O[3] = {0, -1.5, 2.25}; static const double L[3] = {1, 0.3, 7}; int nd = c.flip() ? 3 : 2, mx = th ? 4 : 3; double o[3] = {0}, l[3] = {0}; int n[3] = {1, 1, 1}; for (int d = 0; d < nd; d++) { n[d] = 1 + c.choose(mx); o[d] = O[c.choose(d == 0 || th ? 3 : 2)]; l[d] = L[c.choose(d == 0 || th ? 3 : 2)]; }
    auto arr = [&](auto* v) { std::string s = "["; for (int d = 0; d < nd; d++) s += (d ? ", " : "") + num(v[d]); return s + "]"; };
    std::vector<std::string> lines = {"source: generate", "num_dims: " + std::to_string(nd), "type: box", "origin: " + arr(o), "length: " + arr(l), "num_elems: " + arr(n)}; int rot = c.choose(2) * 3; std::rotate(lines.begin(), lines.begin() + rot, lines.end()); std::string deck = "mesh_options:\n"; for (auto& s : lines) deck += "    " + s + "\n"; c.key(deck); c.note(deck);
    Built b; Outcome r = build(b, deck); c.check(r.ok, deck, "refused: " + r.what); int nk = nd == 3 ? n[2] : 0; size_t ne = n[0] * n[1] * (nd == 3 ? n[2] : 1), nn = (n[0] + 1) * (n[1] + 1) * (nk + 1); common(c, b, deck, nn, ne, nd);
    // every cell of the lattice is exactly one element, its nodes the cell's vertices in the code's order
    std::set<std::vector<int>> cells; double h[3]; for (int d = 0; d < nd; d++) h[d] = l[d] / n[d]; static const int Q[4][2] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}};
    for (size_t e = 0; e < ne; e++) { std::vector<int> ix; for (int d = 0; d < nd; d++) ix.push_back((int)std::lround((crd(b, b.mesh.nodes_in_elem.host(e, 0), d) - o[d]) / h[d])); for (int d = 0; d < nd; d++) c.check(ix[d] >= 0 && ix[d] < n[d], deck, "element " + std::to_string(e) + " starts outside the box"); c.check(cells.insert(ix).second, deck, "two elements fill one cell");
        for (int q = 0; q < (nd == 3 ? 8 : 4); q++) for (int d = 0; d < nd; d++) { int off = nd == 3 ? (q >> d) & 1 : Q[q][d]; double w = o[d] + (ix[d] + off) * h[d], g = crd(b, b.mesh.nodes_in_elem.host(e, q), d); c.check(near(g, w), deck, "vertex " + std::to_string(q) + " of element " + std::to_string(e) + " is at " + num(g) + " instead of " + num(w) + " in direction " + std::to_string(d)); } } }
static void polar(Ctx& c, bool th) {
    static const double RI[3] = {0.5, 1, 2}; static const double RO[2] = {1, 3}; static const double A0[4] = {0, -30, -90, 20}, A1[4] = {90, 60, 45, 30}; double ri = RI[c.choose(3)], ro = ri + RO[c.choose(2)], a0 = A0[c.choose(4)], a1 = A1[c.choose(4)]; int nr = 1 + c.choose(th ? 4 : 3), na = 1 + c.choose(th ? 4 : 3); double ox = c.choose(2) * 1.5, oy = c.choose(2) * -2;
    std::string deck = "mesh_options:\n    source: generate\n    num_dims: 2\n    type: polar\n    origin: [" + num(ox) + ", " + num(oy) + "]\n    inner_radius: " + num(ri) + "\n    outer_radius: " + num(ro) + "\n    starting_angle: " + num(a0) + "\n    ending_angle: " + num(a1) + "\n    num_radial_elems: " + std::to_string(nr) + "\n    num_angular_elems: " + std::to_string(na) + "\n"; c.key(deck); c.note(deck);
    Built b; Outcome r = build(b, deck); double pi = std::acos(-1.0); auto pos = [&](int i, int j, double* p) { double R = ri + (ro - ri) * i / nr, t = (a0 + (a1 - a0) * j / na) * pi / 180; p[0] = ox + R * std::cos(t); p[1] = oy + R * std::sin(t); }; bool neg = false; bool edge = false; for (int i = 0; i <= nr; i++) for (int j = 0; j <= na; j++) { double p[2]; pos(i, j, p); neg |= p[0] < 0; edge |= std::fabs(p[0]) < 1e-12; } if (edge && !r.ok) { c.state(hash(deck)); return; } if (neg && !edge) { c.check(!r.ok, deck, "a node with a negative radius is accepted"); return; }
    c.check(r.ok, deck, "refused: " + r.what); common(c, b, deck, (nr + 1) * (na + 1), nr * na, 2); std::set<std::pair<int, int>> cells; static const int Q[4][2] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}};
    for (int e = 0; e < nr * na; e++) { int fi = -1, fj = -1; for (int i = 0; i < nr; i++) for (int j = 0; j < na; j++) { double p[2]; pos(i, j, p); size_t g = b.mesh.nodes_in_elem.host(e, 0); if (near(crd(b, g, 0), p[0], 1e-10) && near(crd(b, g, 1), p[1], 1e-10)) { fi = i; fj = j; } } c.check(fi >= 0, deck, "element " + std::to_string(e) + " does not start at a node of the polar grid"); c.check(cells.insert({fi, fj}).second, deck, "two elements fill one cell"); for (int q = 0; q < 4; q++) { double p[2]; pos(fi + Q[q][0], fj + Q[q][1], p); size_t g = b.mesh.nodes_in_elem.host(e, q); c.check(near(crd(b, g, 0), p[0], 1e-9) && near(crd(b, g, 1), p[1], 1e-9), deck, "vertex " + std::to_string(q) + " of element " + std::to_string(e) + " is at " + num(crd(b, g, 0)) + " " + num(crd(b, g, 1)) + " instead of " + num(p[0]) + " " + num(p[1])); } } }
int main(int argc, char** argv) { bool th = false; for (int i = 1; i < argc; i++) th |= !strcmp(argv[i], "--thorough");
    return main_(argc, argv, "MESHGEN", {{"box", [th](Ctx& c) { box(c, th); }, 4}, {"polar", [th](Ctx& c) { polar(c, th); }, 4}}); }
