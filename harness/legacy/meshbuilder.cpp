// The mesh builder: every small box and cylinder request, every inconsistent one, and everything it writes, against the grid the
// request denotes; files are read by an independent reader and by the builder's own.
#include "mc.hpp"
#include "MeshBuilder.h"
#include "MeshIO.h"
#include <fstream>
#include <sstream>
#include <filesystem>
#include <array>
using namespace mc;
typedef std::array<double, 3> V;
typedef std::array<int, 3> I3;
struct Req { bool cyl = false; int nd = 3; std::vector<int> n; std::vector<double> len, org; int p = 1; double inner = 0, start = 0; bool has_inner = false, has_start = false, has_p = false; };
static std::string num(double v) { std::ostringstream o; o << v; return o.str(); }
template<class T> static std::string list(const std::vector<T>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? ", " : "") + num(v[i]); return s + "]"; }
static std::string deck(const Req& r, int order, const std::string& out = "  file_type: VTK\n  name: mesh\n") {
    std::vector<std::string> l = {"type: " + std::string(r.cyl ? "Cylinder" : "Box"), "length: " + list(r.len), "num_elems: " + list(r.n), "origin: " + list(r.org)};
    if (r.has_p) l.push_back("p_order: " + std::to_string(r.p)); if (r.has_inner) l.push_back("inner_radius: " + num(r.inner)); if (r.has_start) l.push_back("start_angle: " + num(r.start));
    if (order) std::reverse(l.begin(), l.end()); std::string s = "  "; std::string in; for (auto& x : l) in += "  " + x + "\n";
    return order ? "input:\n" + in + "output:\n" + out : "output:\n" + out + "input:\n" + in; }
// ---- the grid a request denotes: point (i,j,k) of the refined grid, elements and their points in i,j,k order
struct Grid { int nd, p; I3 ne, np; std::vector<V> x; std::vector<std::vector<int>> el; int id(int i, int j, int k) const { return i + np[0] * (j + np[1] * k); } };
static Grid grid(const Req& r) {
    Grid g; g.nd = r.nd; g.p = r.p; bool ring = r.cyl && r.len[1] == 360; for (int d = 0; d < 3; d++) { g.ne[d] = d < r.nd ? r.n[d] : 1; g.np[d] = d < r.nd ? r.n[d] * r.p + 1 : 1; } if (ring) g.np[1]--;
    for (int k = 0; k < g.np[2]; k++) for (int j = 0; j < g.np[1]; j++) for (int i = 0; i < g.np[0]; i++) { int q[3] = {i, j, k}; double s[3] = {0, 0, 0}; for (int d = 0; d < r.nd; d++) s[d] = r.len[d] * q[d] / (r.n[d] * r.p);
        V x; if (r.cyl) { double R = r.inner + s[0], a = (r.start + s[1]) * M_PI / 180; x = {r.org[0] + R * cos(a), r.org[1] + R * sin(a), r.nd == 3 ? r.org[2] + s[2] : 0}; } else x = {r.org[0] + s[0], r.org[1] + s[1], r.nd == 3 ? r.org[2] + s[2] : 0}; g.x.push_back(x); }
    for (int k = 0; k < g.ne[2]; k++) for (int j = 0; j < g.ne[1]; j++) for (int i = 0; i < g.ne[0]; i++) { std::vector<int> e; for (int c = 0; c <= (r.nd == 3 ? r.p : 0); c++) for (int b = 0; b <= r.p; b++) for (int a = 0; a <= r.p; a++) e.push_back(g.id(i * r.p + a, (j * r.p + b) % g.np[1], k * r.p + c)); g.el.push_back(e); }
    return g; }
static bool near(double a, double b, double tol = 1e-12) { return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }
// points and elements may be numbered in any way: points are matched by the grid position the builder's own element lists give them
static void same(Ctx& c, const std::string& what, const Grid& g, const std::vector<V>& x, const std::vector<std::vector<int>>& el, double tol) {
    c.check(x.size() == g.x.size(), what, std::to_string(x.size()) + " points instead of " + std::to_string(g.x.size())); c.check(el.size() == g.el.size(), what, std::to_string(el.size()) + " elements instead of " + std::to_string(g.el.size()));
    std::vector<int> to(x.size(), -1), from(x.size(), -1);
    for (size_t e = 0; e < el.size(); e++) { c.check(el[e].size() == g.el[e].size(), what, "element " + std::to_string(e) + " has " + std::to_string(el[e].size()) + " points");
        for (size_t q = 0; q < el[e].size(); q++) { int a = el[e][q], b = g.el[e][q]; c.check(a >= 0 && a < (int)x.size(), what, "element " + std::to_string(e) + " point " + std::to_string(q) + " is " + std::to_string(a)); c.check((to[a] < 0 || to[a] == b) && (from[b] < 0 || from[b] == a), what, "element " + std::to_string(e) + " point " + std::to_string(q) + " is connected to the wrong point"); to[a] = b; from[b] = a;
            for (int d = 0; d < 3; d++) c.check(near(x[a][d], g.x[b][d], tol), what, "element " + std::to_string(e) + " point " + std::to_string(q) + " coordinate " + std::to_string(d) + " is " + num(x[a][d]) + " instead of " + num(g.x[b][d])); } }
    for (int t : to) c.check(t >= 0, what, "a point belongs to no element"); }
static int celltype(const Grid& g) { return g.p == 1 ? (g.nd == 2 ? 9 : 12) : (g.nd == 2 ? 70 : 72); }
static void mesh_is(Ctx& c, const std::string& what, const Mesh& m, const Grid& g, double tol) {
    c.check(m.num_dim == g.nd, what, "num_dim is " + std::to_string(m.num_dim)); c.check(m.p_order == g.p, what, "p_order is " + std::to_string(m.p_order)); c.check(m.points.order() == 2 && (int)m.points.dims(1) == g.nd, what, "points have the wrong number of coordinates");
    std::vector<V> x(m.points.dims(0)); for (size_t i = 0; i < x.size(); i++) { x[i] = {0, 0, 0}; for (int d = 0; d < g.nd; d++) x[i][d] = m.points(i, d); }
    std::vector<std::vector<int>> el(m.element_point_index.dims(0)); for (size_t e = 0; e < el.size(); e++) for (size_t q = 0; q < m.element_point_index.dims(1); q++) el[e].push_back(m.element_point_index(e, q));
    same(c, what, g, x, el, tol); c.check(m.element_types.order() == 1 && m.element_types.dims(0) == el.size(), what, "number of element types"); for (size_t e = 0; e < el.size(); e++) c.check(m.element_types(e) == celltype(g), what, "element type " + std::to_string(m.element_types(e))); }
// the order of a cell's points in VTK files (file version < 5.1): vertices, edges, faces, inside; as (i,j,k)
static std::vector<I3> vtk_order(int nd, int p) {
    std::vector<I3> r; auto line = [&](I3 a, I3 b) { for (int t = 1; t < p; t++) { I3 q; for (int d = 0; d < 3; d++) q[d] = a[d] == b[d] ? a[d] * p : (b[d] > a[d] ? t : p - t); r.push_back(q); } };
    static const int C[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}}; for (int v = 0; v < (nd == 2 ? 4 : 8); v++) r.push_back({C[v][0] * p, C[v][1] * p, C[v][2] * p});
    if (p == 1) return r; auto cv = [&](int v) { return I3{C[v][0], C[v][1], C[v][2]}; };
    static const int E[12][2] = {{0, 1}, {1, 2}, {3, 2}, {0, 3}, {4, 5}, {5, 6}, {7, 6}, {4, 7}, {0, 4}, {1, 5}, {3, 7}, {2, 6}}; for (int e = 0; e < (nd == 2 ? 4 : 12); e++) line(cv(E[e][0]), cv(E[e][1]));
    if (nd == 2) { for (int b = 1; b < p; b++) for (int a = 1; a < p; a++) r.push_back({a, b, 0}); return r; }
    for (int f = 0; f < 6; f++) { int ax = f / 2, s = f % 2 ? p : 0; for (int b = 1; b < p; b++) for (int a = 1; a < p; a++) r.push_back(ax == 0 ? I3{s, a, b} : ax == 1 ? I3{a, s, b} : I3{a, b, s}); }
    for (int k = 1; k < p; k++) for (int b = 1; b < p; b++) for (int a = 1; a < p; a++) r.push_back({a, b, k}); return r; }
static std::vector<std::vector<int>> from_vtk(const std::vector<std::vector<int>>& el, const Grid& g) { auto o = vtk_order(g.nd, g.p); std::vector<std::vector<int>> r; for (auto& e : el) { std::vector<int> q(e.size(), -1); if (e.size() == o.size()) for (size_t t = 0; t < o.size(); t++) q[o[t][0] + (g.p + 1) * (o[t][1] + (g.p + 1) * o[t][2])] = e[t]; else q = e; r.push_back(q); } return r; }
// ---- an independent reader of legacy VTK files: sections may only be followed by as many numbers as they announce
static void vtk_is(Ctx& c, const std::string& what, const std::string& text, const Grid& g) {
    std::istringstream f(text); std::string l; std::getline(f, l); c.check(l.compare(0, 23, "# vtk DataFile Version ") == 0, what, "first line " + l); std::getline(f, l); std::getline(f, l); c.check(l == "ASCII", what, "not ASCII"); std::string w; f >> w; std::string ty; f >> ty; c.check(w == "DATASET" && ty == "UNSTRUCTURED_GRID", what, "dataset " + w + " " + ty);
    std::vector<V> x; std::vector<std::vector<int>> el; std::vector<int> types; long have = 0; long inkind = 0; std::string tok; bool ptd = false, cld = false;
    auto d = [&](const std::string& s) { char* e; double v = strtod(s.c_str(), &e); c.check(e && !*e && e != s.c_str(), what, "'" + s + "' where a number is expected"); return v; };
    auto next = [&] { std::string s; f >> s; c.check(!s.empty(), what, "the file ends too early"); return s; };
    while (f >> tok) {
        if (tok == "POINTS") { long n = d(next()); next(); for (long i = 0; i < n; i++) { V v; for (int k = 0; k < 3; k++) v[k] = d(next()); x.push_back(v); } }
        else if (tok == "CELLS") { long n = d(next()), size = d(next()), used = 0; for (long i = 0; i < n; i++) { int k = d(next()); used += 1 + k; std::vector<int> e; for (int j = 0; j < k; j++) e.push_back(d(next())); el.push_back(e); } c.check(used == size, what, "CELLS announces " + std::to_string(size) + " numbers and has " + std::to_string(used)); }
        else if (tok == "CELL_TYPES") { long n = d(next()); for (long i = 0; i < n; i++) types.push_back(d(next())); }
        else if (tok == "POINT_DATA") { have = d(next()); c.check(have == (long)x.size(), what, "POINT_DATA of another number of points"); ptd = true; }
        else if (tok == "CELL_DATA") { have = d(next()); c.check(have == (long)el.size(), what, "CELL_DATA of another number of cells"); cld = true; }
        else if (tok == "SCALARS") { next(); next(); inkind = d(next()); c.check(next() == "LOOKUP_TABLE", what, "no lookup table"); next(); for (long i = 0; i < have * inkind; i++) d(next()); }
        else if (tok == "VECTORS") { next(); next(); for (long i = 0; i < have * 3; i++) d(next()); }
        else c.fail(what, "unexpected '" + tok + "'"); }
    c.check(types.size() == el.size(), what, "number of cell types"); for (int t : types) c.check(t == celltype(g), what, "cell type " + std::to_string(t)); same(c, what, g, x, from_vtk(el, g), 5.1e-6); }
static void ensight_is(Ctx& c, const std::string& what, const std::string& dir, const std::string& name, const Grid& g) {
    std::ifstream cs(dir + "/ensight/" + name + ".case"); c.check(bool(cs), what, "no case file"); std::stringstream ss; ss << cs.rdbuf(); std::string t = ss.str(); c.check(t.find("data/" + name + ".*****.geo") != std::string::npos && t.find("data/" + name + ".*****.var") != std::string::npos, what, "the case file names other files");
    std::ifstream f(dir + "/ensight/data/" + name + ".00001.geo"); c.check(bool(f), what, "no geometry file"); std::vector<std::string> l; for (std::string s; std::getline(f, s);) l.push_back(s);
    size_t i = 0; auto at = [&]() -> std::string { c.check(i < l.size(), what, "the geometry file ends too early"); std::string s = l[i++]; size_t a = s.find_first_not_of(' '); s = a == std::string::npos ? "" : s.substr(a); while (!s.empty() && s.back() == ' ') s.pop_back(); return s; };
    at(); at(); c.check(at() == "node id assign" && at() == "element id assign" && at() == "part" && at() == "1", what, "header"); at(); c.check(at() == "coordinates", what, "no coordinates"); long n = atol(at().c_str()); std::vector<V> x(std::max(0l, n)); for (int d = 0; d < 3; d++) for (auto& v : x) { std::string s = at(); c.check(s.size() <= 12, what, "coordinate '" + s + "' does not fit"); v[d] = atof(s.c_str()); }
    c.check(at() == (g.nd == 2 ? "quad4" : "hexa8"), what, "element type"); long ne = atol(at().c_str()); std::vector<std::vector<int>> el; for (long e = 0; e < ne; e++) { std::istringstream s(at()); std::vector<int> q; int v; while (s >> v) q.push_back(v - 1); el.push_back(q); } c.check(i == l.size(), what, "text behind the elements"); same(c, what + " (EnSight)", g, x, from_vtk(el, g), 5.1e-6);
    std::ifstream vf(dir + "/ensight/data/" + name + ".00001.var"); int rows = 0; for (std::string s; std::getline(vf, s);) rows++; c.check(rows == 4 + ne, what, "the variable file has " + std::to_string(rows) + " lines"); }
// ---- the spaces
static std::string show(const Req& r, int order) { std::string s = deck(r, order); std::string o; for (char ch : s) o += ch == '\n' ? std::string("; ") : std::string(1, ch); return o; }
static Req box(Ctx& c, bool th, int nmax) { Req r; r.nd = 3 - c.choose(2); for (int d = 0; d < r.nd; d++) r.n.push_back(1 + c.choose(nmax)); int p = c.choose(th ? 5 : 4); r.p = p ? p : 1; r.has_p = p > 0; static const double L[3][3] = {{1, 1, 1}, {2.5, 0.4, 3}, {1e3, 2e-3, 7}}, O[3][3] = {{0, 0, 0}, {-0.6, 1.25, 4}, {100, -3e-2, -0.5}}; int l = c.choose(3), o = c.choose(3); for (int d = 0; d < r.nd; d++) { r.len.push_back(L[l][d]); r.org.push_back(O[o][d]); } return r; }
static Req cyl(Ctx& c, bool th, bool full) { Req r; r.cyl = true; r.nd = 3 - c.choose(2); int nr = 1 + c.choose(2), p = c.choose(th ? 5 : 4); r.p = p ? p : 1; r.has_p = p > 0; static const double A[6] = {360, 90, 45, 180, 359.5, 1}; r.len = {0.75, A[c.choose(full ? 6 : 3)]}; int na = (r.len[1] == 360 ? 3 : 1) + c.choose(3); r.n = {nr, na}; static const double IN[3] = {0.5, 0, 2}, ST[4] = {0, 30, -90, 200}; int a = c.choose(full ? 4 : 2); if (a) { r.has_inner = true; r.inner = IN[a - 1]; } int s = c.choose(full ? 5 : 2); if (s) { r.has_start = true; r.start = s == 1 ? 30 : ST[s - 1]; if (s > 1 && ST[s - 1] == 30) r.start = 15; }
    static const double O[3][3] = {{0, 0, 0}, {1, -2, 0.5}, {-0.25, 0, 3}}; int o = c.choose(3); r.org = {O[o][0], O[o][1]}; if (r.nd == 3) { r.n.push_back(1 + c.choose(2)); r.len.push_back(2.5); r.org.push_back(O[o][2]); } return r; }
static bool load(const std::string& text, MeshBuilderConfig& m, std::string& err) { try { Yaml::from_string_strict(text, m); return true; } catch (std::exception& e) { err = e.what(); return false; } }
static void built(Ctx& c, const Req& r) { int order = c.choose(2); std::string what = show(r, order), err; c.key(what); c.note(what); MeshBuilderConfig m; c.check(load(deck(r, order), m, err), what, "refused: " + err); Mesh a = MeshBuilder::build_mesh(m.input); mesh_is(c, what, a, grid(r), 1e-12); c.state(hash(what)); c.step(); c.validated(); c.evals(); }
static void refused(Ctx& c) {
    Req r; r.cyl = c.flip(); int kind = c.choose(4); std::string text, what; bool ok = false;
    if (kind == 0) { int a = 1 + c.choose(5), b = 1 + c.choose(5), d = 1 + c.choose(5); static const double L[5] = {1, 2, 0.5, 3, 1}; for (int i = 0; i < a; i++) r.len.push_back(L[i]); for (int i = 0; i < b; i++) r.n.push_back(i + 1); for (int i = 0; i < d; i++) r.org.push_back(i); r.nd = d; ok = a == b && b == d && (d == 2 || d == 3); text = deck(r, c.choose(2)); }
    else if (kind == 1) { r.cyl = true; r.nd = 2 + c.choose(2); static const double A[8] = {-1, -90, 360.5, 361, 400, 720, 22918, 1e6}; r.len = {1, A[c.choose(8)]}; r.n = {2, 3}; r.org = {0, 0}; r.inner = 0.5; r.has_inner = true; if (r.nd == 3) { r.len.push_back(1); r.n.push_back(1); r.org.push_back(0); } text = deck(r, c.choose(2)); }
    else if (kind == 2) { r.len = {1, 45}; r.n = {2, 3}; r.org = {0, 0}; std::string full = deck(r, 0); static const char* F[6] = {"type", "length", "num_elems", "origin", "input", "output"}; std::string f = F[c.choose(6)]; std::istringstream s(full); bool skip = false; for (std::string l; std::getline(s, l);) { bool top = l[0] != ' '; if (top) skip = l == f + ":"; if (skip || l.compare(0, f.size() + 3, "  " + f + ":") == 0) continue; text += l + "\n"; } }
    else { r.len = {1, 45}; r.n = {2, 3}; r.org = {0, 0}; r.has_inner = !r.cyl; static const char* B[6] = {"  nonsense: 3\n", "  num_points: 4\n", "  type: Sphere\n", "  p_order: two\n", "  num_elems: 3\n", "  length: 4\n"}; int k = c.choose(7); text = deck(r, 0); if (k < 6) { std::string b = B[k]; std::string key = b.substr(0, b.find(':') + 1); size_t at = text.find("\n" + key); if (at != std::string::npos) { size_t e = text.find('\n', at + 1); text = text.substr(0, at + 1) + b + text.substr(e + 1); } else text += b; if (r.cyl && k < 0) ok = true; r.has_inner = false; if (!r.cyl) { size_t at2 = text.find("  inner_radius"); size_t e = text.find('\n', at2); text = text.substr(0, at2) + text.substr(e + 1); } } else { if (r.cyl) throw Prune{}; } }
    std::string shown; for (char ch : text) shown += ch == '\n' ? std::string("; ") : std::string(1, ch); what = shown; c.key(what); c.note(what); MeshBuilderConfig m; std::string err; bool got = load(text, m, err);
    if (!ok && got) { try { MeshBuilder::build_mesh(m.input); } catch (std::exception& e) { got = false; } c.check(!got, what, "accepted"); }
    if (ok) { c.check(got, what, "refused: " + err); mesh_is(c, what, MeshBuilder::build_mesh(m.input), grid(r), 1e-12); } c.state(hash(what)); c.step(); c.validated(); c.evals(); }
static std::string scratch() { static std::string d; static int pid = 0; if (pid != getpid()) { pid = getpid(); d = std::string(getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp") + "/mb_" + std::to_string(pid); std::filesystem::create_directories(d); } return d; }
static Req any(Ctx& c, bool th) { return c.flip() ? cyl(c, th, false) : box(c, th, 2); }
static Mesh make(Ctx& c, const Req& r) { MeshBuilderConfig m; std::string err; c.check(load(deck(r, 0), m, err), "request", "refused: " + err); return MeshBuilder::build_mesh(m.input); }
// written to a stream and read back; a second, different mesh follows in the same process
static Req small(int k) { Req r; static const int ND[10] = {3, 2, 3, 2, 3, 2, 3, 2, 3, 2}, P[10] = {1, 1, 2, 2, 3, 3, 4, 4, 1, 2}; r.nd = ND[k]; r.p = P[k]; r.has_p = true; r.cyl = k >= 8; r.n = {1 + k % 2, r.cyl ? 3 : 1}; r.len = {1, r.cyl ? 360. : 2.}; r.org = {0, 0}; if (r.cyl) { r.has_inner = true; r.inner = 1; } if (r.nd == 3) { r.n.push_back(2); r.len.push_back(3); r.org.push_back(0); } return r; }
static void one_stream(Ctx& c, const std::string& what, const Req& r) {
    Mesh a = make(c, r); Grid g = grid(r); std::stringstream s; MeshIO::write_vtk(s, a); vtk_is(c, what + " written", s.str(), g); Mesh b; try { b = MeshIO::read_vtk(s); } catch (std::exception& e) { c.fail(what, std::string("reading the written file: ") + e.what()); } mesh_is(c, what + " read back", b, g, 5.1e-6); std::stringstream s2; MeshIO::write_vtk(s2, b); vtk_is(c, what + " written again", s2.str(), g); }
static void streams(Ctx& c, bool th) { Req r = any(c, th); std::string what = show(r, 0); c.key(what); c.note(what); one_stream(c, what, r); c.state(hash(what)); c.step(3); c.validated(3); c.evals(); }
static void sequence(Ctx& c, bool th) { int n = th ? 4 : 3; std::string what = "one after the other"; std::vector<int> ks; for (int i = 0; i < n; i++) ks.push_back(c.choose(10)); for (int k : ks) what += " " + std::to_string(small(k).nd) + "D p" + std::to_string(small(k).p) + (small(k).cyl ? "ring" : ""); c.key(what); c.note(what); for (int k : ks) one_stream(c, what, small(k)); c.state(hash(what)); c.step(3 * n); c.validated(3 * n); c.evals(); }
static void files(Ctx& c, bool th) {
    Req r = any(c, th); int out = c.choose(3); std::string name = c.flip() ? "mesh" : std::string("a_mesh_with_quite_a_long_name_").append(90, 'x'); std::string dir = scratch(), what = show(r, 0) + " output " + std::to_string(out) + " " + name; c.key(what); c.note(what); std::filesystem::create_directories(dir + "/there"); if (chdir(dir.c_str())) c.fail(what, "chdir");
    std::string txt = deck(r, 0, "  file_type: " + std::string(out == 2 ? "Ensight" : "VTK") + "\n  name: " + name + "\n" + (out == 1 ? "  file_location: " + dir + "/there\n" : "")); { std::ofstream f("in.yaml"); f << txt; }
    std::streambuf* old = std::cout.rdbuf(); std::ostringstream sink; std::cout.rdbuf(sink.rdbuf()); std::string err; try { MeshBuilder::build_mesh_from_file("in.yaml"); } catch (std::exception& e) { err = e.what(); if (err.empty()) err = "?"; } std::cout.rdbuf(old); Grid g = grid(r);
    if (out == 2 && r.p > 1) c.check(!err.empty() && !std::filesystem::exists("ensight/" + name + ".case"), what, "a high order mesh was written in EnSight format"); else { c.check(err.empty(), what, "refused: " + err);
        if (out == 2) ensight_is(c, what, dir, name, g); else { std::string fn = (out ? std::string("there/") : std::string("vtk/")) + name + ".vtk"; std::ifstream f(fn); c.check(bool(f), what, "no file " + fn); std::stringstream ss; ss << f.rdbuf(); vtk_is(c, what, ss.str(), g); Mesh b; try { b = MeshIO::read_vtk(fn); } catch (std::exception& e) { c.fail(what, std::string("reading the written file: ") + e.what()); } mesh_is(c, what + " read back", b, g, 5.1e-6); } }
    if (chdir("/")) {} std::filesystem::remove_all(dir + "/vtk"); std::filesystem::remove_all(dir + "/there"); std::filesystem::remove_all(dir + "/ensight"); std::filesystem::remove(dir + "/in.yaml"); std::filesystem::remove(dir); std::filesystem::create_directories(dir); c.state(hash(what)); c.step(); c.validated(); c.evals(); }
// a written file without one of its lines or cut anywhere inside the mesh is refused
static void cut(Ctx& c) {
    Req r = small(c.choose(10)); std::stringstream s; MeshIO::write_vtk(s, make(c, r)); std::vector<std::string> l; size_t end = 0; for (std::string x; std::getline(s, x);) { if (x.compare(0, 10, "POINT_DATA") == 0 && !end) end = l.size(); l.push_back(x); } while (end && l[end - 1].empty()) end--;
    int kind = c.choose(2); size_t at = 5 + c.choose((int)end - 5); if (l[at].empty()) throw Prune{}; std::string t, what = std::string(kind ? "line " : "cut before line ") + std::to_string(at) + (kind ? " left out: " : ": ") + l[at] + " of a " + std::to_string(r.nd) + "D p" + std::to_string(r.p) + " mesh"; c.key(what); c.note(what);
    for (size_t i = 0; i < l.size(); i++) { if (kind ? i == at : i >= at) continue; t += l[i] + "\n"; } std::istringstream in(t); bool ok = true; try { MeshIO::read_vtk(in); } catch (std::exception& e) { ok = false; } c.check(!ok, what, "accepted"); c.state(hash(what)); c.step(); c.validated(); c.evals(); }
int main(int argc, char** argv) { bool th = false; for (int i = 1; i < argc; i++) th |= !strcmp(argv[i], "--thorough");
    std::vector<Scenario> sc = {{"boxes", [th](Ctx& c) { built(c, box(c, th, th ? 4 : 3)); }, 3}, {"cylinders", [th](Ctx& c) { built(c, cyl(c, th, true)); }, 3}, {"refused", [](Ctx& c) { refused(c); }, 3},
        {"streams", [th](Ctx& c) { streams(c, th); }, 3}, {"sequences", [th](Ctx& c) { sequence(c, th); }, 2}, {"files", [th](Ctx& c) { files(c, th); }, 3}, {"cut", [](Ctx& c) { cut(c); }, 2}};
    return main_(argc, argv, "MB", sc); }
