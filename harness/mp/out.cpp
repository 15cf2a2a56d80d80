// Output files: everything a run writes is read back and compared with the state it held when it wrote.
#include "sim.hpp"
using namespace mp;
MP_EXIT
// ---- a reader of the XML files (attributes, nesting) ----
struct Tag { S name; std::map<S, S> at; S text; std::vector<Tag> kids; const Tag* kid(const S& n) const { for (auto& k : kids) if (k.name == n) return &k; return nullptr; } };
struct Xml { const S& s; size_t p = 0; S bad; explicit Xml(const S& t) : s(t) {}
    void ws() { while (p < s.size() && isspace((unsigned char)s[p])) p++; }
    bool tag(Tag& t) { if (s.compare(p, 4, "<!--") == 0) { p = s.find("-->", p); p = p == S::npos ? s.size() : p + 3; return false; } if (s.compare(p, 2, "<?") == 0) { p = s.find("?>", p); p = p == S::npos ? s.size() : p + 2; return false; }
        p++; while (p < s.size() && (isalnum((unsigned char)s[p]) || s[p] == '_')) t.name += s[p++]; for (;;) { ws(); if (p >= s.size()) { bad = "unterminated tag " + t.name; return true; } if (s.compare(p, 2, "/>") == 0) { p += 2; return true; } if (s[p] == '>') { p++; break; } S k, v; while (p < s.size() && s[p] != '=' && s[p] != '>') k += s[p++]; if (p >= s.size() || s[p] != '=') { bad = "attribute of " + t.name; return true; } p++; ws(); if (s[p] != '"') { bad = "attribute value of " + t.name; return true; } p++; while (p < s.size() && s[p] != '"') v += s[p++]; p++; if (t.at.count(k)) bad = "attribute " + k + " twice"; t.at[k] = v; }
        for (;;) { while (p < s.size() && s[p] != '<') t.text += s[p++]; if (p >= s.size()) { bad = "no end of " + t.name; return true; } if (s.compare(p, 2, "</") == 0) { p += 2; S e; while (p < s.size() && s[p] != '>') e += s[p++]; p++; if (e != t.name) bad = "<" + t.name + "> ends as " + e; return true; } Tag k; if (tag(k)) t.kids.push_back(k); if (!bad.empty()) return true; } }
    Tag root() { Tag t; for (;;) { ws(); if (p >= s.size() || s[p] != '<') { bad = "no root"; return t; } t = Tag(); if (tag(t)) break; } ws(); if (bad.empty() && p != s.size()) bad = "text after the root"; return t; } };
static std::vector<double> numbers(const S& t) { std::vector<double> v; const char* p = t.c_str(); char* e; for (;;) { double d = strtod(p, &e); if (e == p) break; v.push_back(d); p = e; } while (isspace((unsigned char)*p)) p++; if (*p) v.push_back(NAN); return v; }
static std::set<S> filesIn(const S& d) { std::set<S> r; std::error_code e; for (auto& f : std::filesystem::directory_iterator(d, e)) if (f.is_regular_file()) r.insert(f.path().filename().string()); return r; }
// ---- what is asked for ----
static const std::vector<S> ELEM = {"den", "pres", "stress", "sie", "sspd", "mass"}, NODE = {"coords", "vel", "mass", "force", "temp"}, GAUSS = {"volume", "vel_grad"}, MAT = {"den", "pres", "stress", "sie", "sspd", "mass", "volfrac", "eroded"};
struct Want { std::vector<S> elem, node, gauss, mat; };
static std::vector<S> sub(const std::vector<S>& v, int mask, bool rev) { std::vector<S> r; for (size_t i = 0; i < v.size(); i++) if (mask >> i & 1) r.push_back(v[i]); if (rev) std::reverse(r.begin(), r.end()); return r; }
static S fieldText(const S& key, const std::vector<S>& v) { if (v.empty()) return ""; S r = "    " + key + ":\n"; for (auto& f : v) r += "        - " + f + "\n"; return r; }
static S wantText(const Want& w) { return fieldText("elem_field_outputs", w.elem) + fieldText("node_field_outputs", w.node) + fieldText("gauss_pt_field_outputs", w.gauss) + fieldText("mat_pt_field_outputs", w.mat); }
static bool has(const std::vector<S>& v, const S& f) { return std::find(v.begin(), v.end(), f) != v.end(); }
// ---- runs ----
enum Kind { SGH3, RZ, THERM };
struct Run { Kind kind; int mix; Want w; S fmt; int cycles; double dt = 0.01, ival = 1e30; int every = 1; int solvers = 1; double t1 = 0; int size = 0; };
static int dims(const Run& r) { return r.kind == RZ ? 2 : 3; }
// mixtures: 0 one gas, 1 two side by side, 2 mixed elements and a material that is nowhere, 3 the first material is nowhere
static S deckOf(const Run& r) {
    S d = dynamics(r.solvers > 1 ? r.t1 * 2 : 100, r.solvers > 1 ? 1000 : r.cycles, r.dt, r.dt, r.dt, 2) + (r.kind == RZ ? (r.size ? box2(3, 2, 1.5, 0.7, -0.4, 0.3) : box2(2, 1, 1, 0.6, 0, 0.5)) : r.size ? box3(2, 2, 2, 1.1, 0.8, 0.9, 0.2, -0.3, 0.4) : box3(2, 1, 1, 1, 0.5, 0.3, -0.25, 0.1, 0)) + outputs(r.fmt, r.ival, "    graphics_iteration_step: " + std::to_string(r.every) + "\n" + wantText(r.w)) + "solver_options:\n";
    const char* M[3] = {"dynx_FE", "dynx_FE_rz", "thrmex_FE"}; for (int i = 0; i < r.solvers; i++) d += solver(M[r.kind], i, i + 1 < r.solvers ? "        time_end: " + g17(r.t1) + "\n" : S(""));
    d += "boundary_conditions:\n" + (r.kind == THERM ? bc("x_plane", -0.25, "        temperature_model: constant\n" + list("temperature_bc_global_vars", {700})) : bc("x_plane", r.kind == RZ ? 0 : -0.25, velbc("fixed"))) + "multimaterial_options:\n    max_num_mats_per_element: 3\nmaterials:\n"; int nm = r.mix ? 3 : 1;
    static const double GA[3] = {5. / 3, 1.4, 2}; S diss = r.kind == RZ ? "MARS_rz" : "MARS"; for (int k = 0; k < nm; k++) d += gas(k, GA[k], 0.1, 1, diss, {1, 1, 1.333, 1.333, 0.2, 0.6}, r.kind == THERM ? S("") : S("        strength_model_type: increment_based\n        strength_model: hypo_plasticity_strength") + (r.kind == RZ ? "_rz\n" : "\n") + list("strength_global_vars", {0.9 + k, 0.02}) + (k == 0 ? "        erosion_model: basic\n        erode_tension_val: -0.02\n        erode_density_val: 1.32\n" : ""));
    d += "regions:\n"; auto reg = [&](const S& vol, int k, double vf) { return regionOf(vol, k, (vf < 1 ? uniform("volume_fraction", vf) : S("")) + uniform("density", 1.3 + 0.4 * k) + uniform("specific_internal_energy", 0.5 + 0.2 * k) + (r.kind == THERM ? cartesian(0, 0, 0) : "        velocity:\n            type: " + S(r.kind == RZ ? "radial" : "spherical") + "\n            speed: -0.7\n") + (r.kind == THERM ? uniform("thermal_conductivity", 0.8 + k) + uniform("specific_heat", 1.9 - 0.4 * k) + uniform("temperature", 300 + 50 * k) : S(""))); };
    double mid = r.kind == RZ ? 0.45 : r.size ? 0.7 : 0.2; S half = boxvol(mid, 99, -99, 99, -99, 99); switch (r.mix) { case 0: return d + reg(GLOBAL, 0, 1); case 1: return d + reg(GLOBAL, 0, 1) + reg(half, 2, 1); case 2: return d + reg(GLOBAL, 2, 0.3) + reg(GLOBAL, 0, 0.7); default: return d + reg(GLOBAL, 2, 1) + reg(half, 1, 0.45) + reg(half, 2, 0.55); } }
struct Check { Ctx& c; const S& key; void operator()(bool ok, const S& m) const { c.check(ok, key, m); } };
static Tag load(const Check& ck, const S& f) { std::error_code e; ck(std::filesystem::exists(f, e), f + " was not written"); S t = get(f); Xml x(t); Tag r = x.root(); ck(x.bad.empty(), f + " is not well formed: " + x.bad); ck(r.name == "VTKFile", f + " is no VTK file"); return r; }
struct Vtu { size_t np = 0, nc = 0; std::vector<double> pts, conn, off, types; std::map<S, std::vector<double>> point, cell; };
static Vtu vtu(const Check& ck, const S& f) { Vtu v; Tag r = load(ck, f); ck(r.at["type"] == "UnstructuredGrid", f + ": type " + r.at["type"]); const Tag* g = r.kid("UnstructuredGrid"); const Tag* p = g ? g->kid("Piece") : nullptr; ck(p && g->kids.size() == 1, f + " has no single piece"); v.np = std::stoul(p->at.at("NumberOfPoints")); v.nc = std::stoul(p->at.at("NumberOfCells")); bool pts = false, cells = false;
    for (auto& k : p->kids) { if (k.name == "Points") { ck(!pts && k.kids.size() == 1 && k.kids[0].at.at("NumberOfComponents") == "3", f + ": points"); pts = true; v.pts = numbers(k.kids[0].text); ck(v.pts.size() == 3 * v.np, f + " has " + std::to_string(v.pts.size()) + " coordinates of " + std::to_string(v.np) + " points"); }
        else if (k.name == "Cells") { cells = true; for (auto& a : k.kids) { auto n = numbers(a.text); S w = a.at.at("Name"); (w == "connectivity" ? v.conn : w == "offsets" ? v.off : v.types) = n; } ck(v.off.size() == v.nc && v.types.size() == v.nc, f + " has " + std::to_string(v.off.size()) + " offsets and " + std::to_string(v.types.size()) + " types of " + std::to_string(v.nc) + " cells"); }
        else { bool pd = k.name == "PointData"; ck(pd || k.name == "CellData", f + ": unknown section " + k.name); auto& m = pd ? v.point : v.cell; for (auto& a : k.kids) { ck(a.at.count("Name") && a.at.count("format") && a.at.at("format") == "ascii", f + ": unnamed array"); S w = a.at.at("Name"); ck(!m.count(w), f + ": field " + w + " twice"); size_t nk = a.at.count("NumberOfComponents") ? std::stoul(a.at.at("NumberOfComponents")) : 1; m[w] = numbers(a.text); ck(m[w].size() == nk * (pd ? v.np : v.nc), f + ": field " + w + " has " + std::to_string(m[w].size()) + " values"); } } }
    ck(pts && cells, f + " has no points or cells"); return v; }
typedef std::map<S, std::vector<double>> Fields;
static void compare(const Check& ck, const S& f, const char* where, const Fields& got, const Fields& want, double tol = 1e-13) { for (auto& w : want) { auto g = got.find(w.first); ck(g != got.end(), f + " lacks the field " + w.first + " of " + where); ck(g->second.size() == w.second.size(), f + ": field " + w.first + " of " + where + " has " + std::to_string(g->second.size()) + " values, want " + std::to_string(w.second.size())); for (size_t i = 0; i < w.second.size(); i++) ck((std::isnan(w.second[i]) && std::isnan(g->second[i])) || std::fabs(g->second[i] - w.second[i]) <= tol * (1e-3 + std::fabs(w.second[i])), f + ": field " + w.first + " of " + where + ", value " + std::to_string(i) + " is " + num(g->second[i]) + ", the simulation has " + num(w.second[i])); } for (auto& g : got) ck(want.count(g.first), f + " has a field " + g.first + " of " + where + " that was not asked for"); }
// what the simulation holds
struct Held { int nd; size_t N, E, nn; std::vector<double> x; std::vector<std::vector<size_t>> el; Fields point, cell; std::vector<Fields> mat; std::vector<std::vector<size_t>> in; std::vector<std::array<double, 11>> rows, nrows; Fields ens; };
static Held held(Sim& s, const Run& r, bool accel) { Held h; auto& st = s.st(); auto& m = s.mesh(); auto& P = st.MaterialPoints; bool th = r.kind == THERM; h.nd = dims(r); h.N = m.num_nodes; h.E = m.num_elems; h.nn = m.num_nodes_in_elem; st.node.coords.update_host(); st.node.vel.update_host(); st.node.vel_n0.update_host(); st.node.mass.update_host(); if (th) st.node.temp.update_host(); P.den.update_host(); P.pres.update_host(); P.stress.update_host(); P.sie.update_host(); P.sspd.update_host(); P.mass.update_host(); P.volfrac.update_host(); P.geo_volfrac.update_host(); P.eroded.update_host(); st.GaussPoints.vol.update_host(); if (!th) st.GaussPoints.vel_grad.update_host();
    auto X = [&](size_t g, int d) { return d < h.nd ? st.node.coords.host(g, d) : 0.0; }; auto V = [&](size_t g, int d) { return d < h.nd ? st.node.vel.host(g, d) : 0.0; }; for (size_t g = 0; g < h.N; g++) for (int d = 0; d < 3; d++) h.x.push_back(X(g, d)); for (size_t e = 0; e < h.E; e++) { h.el.push_back({}); for (size_t i = 0; i < h.nn; i++) h.el[e].push_back(m.nodes_in_elem.host(e, i)); }
    auto& w = r.w; for (auto& f : w.node) { if (f == "coords") h.point["node_coords"] = h.x; if (f == "mass") for (size_t g = 0; g < h.N; g++) h.point["node_mass"].push_back(st.node.mass.host(g)); if (f == "temp") for (size_t g = 0; g < h.N; g++) h.point["node_temp"].push_back(st.node.temp.host(g)); if (f == "vel") for (size_t g = 0; g < h.N; g++) for (int d = 0; d < 3; d++) { h.point["node_vel"].push_back(V(g, d)); h.point["node_accel"].push_back(d < h.nd ? (V(g, d) - st.node.vel_n0.host(g, d)) / r.dt : 0); } }
    size_t nm = r.mix ? 3 : 1; auto weight = [&](size_t k, size_t i) { return P.volfrac.host(k, i) * P.geo_volfrac.host(k, i); }; auto& M = st.MaterialToMeshMaps; h.in.resize(nm); h.mat.resize(nm); for (size_t k = 0; k < nm; k++) for (size_t i = 0; i < M.num_mat_elems.host(k); i++) h.in[k].push_back(M.elem_in_mat_elem.host(k, i));
    auto over = [&](const S& n, auto fn) { auto& v = h.cell[n]; v.assign(h.E, 0); for (size_t k = 0; k < nm; k++) for (size_t i = 0; i < h.in[k].size(); i++) v[h.in[k][i]] += fn(k, i); };
    bool sie = has(w.elem, "sie"); for (auto& f : w.elem) { if (f == "den") over("den", [&](size_t k, size_t i) { return P.den.host(k, i) * weight(k, i); }); if (f == "pres") over("pres", [&](size_t k, size_t i) { return P.pres.host(k, i) * weight(k, i); }); if (f == "sspd") over("sspd", [&](size_t k, size_t i) { return P.sspd.host(k, i) * weight(k, i); }); if (f == "stress") { auto& v = h.cell["stress"]; v.assign(9 * h.E, 0); for (size_t k = 0; k < nm; k++) for (size_t i = 0; i < h.in[k].size(); i++) for (int a = 0; a < 9; a++) v[9 * h.in[k][i] + a] += P.stress.host(k, i, a / 3, a % 3) * weight(k, i); } }
    if (sie || has(w.elem, "mass")) over("mass", [&](size_t k, size_t i) { return P.mass.host(k, i); }); if (sie) { over("sie", [&](size_t k, size_t i) { return P.mass.host(k, i) * P.sie.host(k, i); }); for (size_t e = 0; e < h.E; e++) h.cell["sie"][e] /= h.cell["mass"][e] + 1e-20; }
    for (auto& f : w.gauss) { if (f == "volume") for (size_t e = 0; e < h.E; e++) h.cell["vol"].push_back(st.GaussPoints.vol.host(e)); if (f == "vel_grad") for (size_t e = 0; e < h.E; e++) for (int a = 0; a < 9; a++) h.cell["vel_grad"].push_back(st.GaussPoints.vel_grad.host(e, a / 3, a % 3)); }
    for (size_t k = 0; k < nm; k++) for (auto& f : w.mat) { auto& F = h.mat[k]; if (f == "volfrac") { F["mat_volfrac"]; F["mat_geo_volfrac"]; } else F["mat_" + f]; for (size_t i = 0; i < h.in[k].size(); i++) { if (f == "den") F["mat_den"].push_back(P.den.host(k, i)); if (f == "pres") F["mat_pres"].push_back(P.pres.host(k, i)); if (f == "sie") F["mat_sie"].push_back(P.sie.host(k, i)); if (f == "sspd") F["mat_sspd"].push_back(P.sspd.host(k, i)); if (f == "mass") F["mat_mass"].push_back(P.mass.host(k, i)); if (f == "eroded") F["mat_eroded"].push_back(P.eroded.host(k, i)); if (f == "volfrac") { F["mat_volfrac"].push_back(P.volfrac.host(k, i)); F["mat_geo_volfrac"].push_back(P.geo_volfrac.host(k, i)); } if (f == "stress") for (int a = 0; a < 9; a++) F["mat_stress"].push_back(P.stress.host(k, i, a / 3, a % 3)); } }
    for (size_t k = 0; k < nm; k++) for (size_t i = 0; i < h.in[k].size(); i++) { size_t e = h.in[k][i]; double c[3] = {0}; for (size_t g : h.el[e]) for (int d = 0; d < 3; d++) c[d] += X(g, d) / h.nn; h.rows.push_back({c[0], c[1], c[2], std::hypot(c[0], c[1]), std::sqrt(c[0] * c[0] + c[1] * c[1] + c[2] * c[2]), P.den.host(k, i), P.pres.host(k, i), P.sie.host(k, i), P.sspd.host(k, i), st.GaussPoints.vol.host(e), P.mass.host(k, i)});
        double v[3] = {0}; for (size_t g : h.el[e]) for (int d = 0; d < 3; d++) v[d] += V(g, d) / h.nn; auto put1 = [&](const S& n, double x) { auto& a = h.ens[n]; a.resize(h.E); a[e] = x; }; put1("den", P.den.host(k, i)); put1("pres", P.pres.host(k, i)); put1("sie", P.sie.host(k, i)); put1("vol", st.GaussPoints.vol.host(e)); put1("mass", P.mass.host(k, i)); put1("sspd", P.sspd.host(k, i)); put1("speed", std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])); put1("mat_id", k); put1("eroded", P.eroded.host(k, i)); }
    for (size_t g = 0; g < h.N; g++) { double x = X(g, 0), y = X(g, 1), rr = std::hypot(x, y), u = V(g, 0), v = V(g, 1), sp = std::sqrt(u * u + v * v + V(g, 2) * V(g, 2)); double dr = (u * x + v * y) / rr; h.nrows.push_back({x, y, X(g, 2), rr, std::sqrt(x * x + y * y + X(g, 2) * X(g, 2)), u, v, V(g, 2), sp, std::hypot(u - dr * x / rr, v - dr * y / rr), 0}); }
    for (int k = 0; k < 3; k++) { auto& a = h.ens[k == 0 ? "pos" : k == 1 ? "vel" : "accel"]; for (int d = 0; d < 3; d++) for (size_t g = 0; g < h.N; g++) a.push_back(k == 0 ? X(g, d) : k == 1 ? V(g, d) : d < h.nd ? (V(g, d) - st.node.vel_n0.host(g, d)) / r.dt : 0); }
    (void)accel; return h; }
static S idx(int i) { char b[16]; snprintf(b, 16, "%05d", i); return b; }
// the grid of a vtu file: cells of the mesh (all, or those of a material) in order, with the nodes of every cell at their places
static void grid(const Check& ck, const S& f, const Vtu& v, const Held& h, const std::vector<size_t>* part) { size_t n = part ? part->size() : h.E; ck(v.nc == n, f + " has " + std::to_string(v.nc) + " cells, want " + std::to_string(n)); ck(v.conn.size() == n * h.nn, f + " has a connectivity of " + std::to_string(v.conn.size())); std::set<size_t> used, nodes; for (size_t i = 0; i < n; i++) { ck(v.off[i] == (double)(h.nn * (i + 1)), f + ": offset " + std::to_string(i) + " is " + num(v.off[i])); ck(v.types[i] == (h.nd == 3 ? 11 : 9), f + ": type of cell " + std::to_string(i) + " is " + num(v.types[i])); auto& en = h.el[part ? (*part)[i] : i]; for (size_t a = 0; a < h.nn; a++) { double q = v.conn[i * h.nn + a]; ck(q >= 0 && q < v.np, f + ": cell " + std::to_string(i) + " has point " + num(q)); used.insert((size_t)q); nodes.insert(en[a]); for (int d = 0; d < 3; d++) ck(near(v.pts[3 * (size_t)q + d], h.x[3 * en[a] + d], 1e-14), f + ": cell " + std::to_string(i) + " node " + std::to_string(a) + " direction " + std::to_string(d) + " is at " + num(v.pts[3 * (size_t)q + d]) + ", the simulation has " + num(h.x[3 * en[a] + d])); } }
    ck(v.np == (part ? nodes.size() : h.N), f + " has " + std::to_string(v.np) + " points, want " + std::to_string(nodes.size())); ck(used.size() == nodes.size(), f + " merges or splits nodes"); if (!part) for (size_t i = 0; i < v.conn.size(); i++) ck((size_t)v.conn[i] == h.el[i / h.nn][i % h.nn], f + ": the points are not numbered like the nodes"); }
static void graphics(const Check& ck, const Run& r, const Held& h, int solver, int last, const std::vector<double>& times) { S pre = "Fierro.solver" + std::to_string(solver) + "."; auto data = filesIn("vtk/data"); std::set<S> want; for (int i = 0; i <= last; i++) { want.insert(pre + "fields." + idx(i) + ".vtu"); want.insert(pre + idx(i) + ".vtm"); if (!r.w.mat.empty()) for (size_t k = 0; k < h.in.size(); k++) if (!h.in[k].empty()) want.insert(pre + "mat" + std::to_string(k) + "." + idx(i) + ".vtu"); } std::set<S> mine; for (auto& f : data) if (f.compare(0, pre.size(), pre) == 0) mine.insert(f); for (auto& f : want) ck(mine.count(f), "vtk/data/" + f + " is missing"); for (auto& f : mine) ck(want.count(f), "vtk/data/" + f + " should not be there");
    { S f = "vtk/data/" + pre + "fields." + idx(last) + ".vtu"; Vtu v = vtu(ck, f); grid(ck, f, v, h, nullptr); compare(ck, f, "nodes", v.point, h.point); compare(ck, f, "elements", v.cell, h.cell); }
    if (!r.w.mat.empty()) for (size_t k = 0; k < h.in.size(); k++) if (!h.in[k].empty()) { S f = "vtk/data/" + pre + "mat" + std::to_string(k) + "." + idx(last) + ".vtu"; Vtu v = vtu(ck, f); grid(ck, f, v, h, &h.in[k]); compare(ck, f, "nodes", v.point, {}); compare(ck, f, "elements", v.cell, h.mat[k]); }
    bool meshf = !h.point.empty() || !h.cell.empty(); for (int i = 0; i <= last; i++) { S f = "vtk/data/" + pre + idx(i) + ".vtm"; Tag t = load(ck, f); ck(t.at["type"] == "vtkMultiBlockDataSet", f + ": type " + t.at["type"]); const Tag* b = t.kid("vtkMultiBlockDataSet"); ck(b, f + " has no blocks"); std::set<S> ref; int bi = 0; for (auto& blk : b->kids) { ck(blk.name == "Block" && blk.at.at("index") == std::to_string(bi++), f + ": block number " + blk.at.at("index")); int pi = 0; for (auto& pc : blk.kids) { ck(pc.name == "Piece" && pc.at.at("index") == std::to_string(pi++), f + ": piece number " + pc.at.at("index")); ck(pc.kids.size() == 1, f + ": data sets of a piece"); S file = pc.kids[0].at.at("file"); ck(!ref.count(file), f + " lists " + file + " twice"); ref.insert(file); auto a = file.find(".mat"); if (a != S::npos) ck(pc.at.at("name") == "Mat" + file.substr(a + 4, file.find('.', a + 4) - a - 4), f + " calls " + file + " " + pc.at.at("name")); ck(near(atof(pc.kids[0].at.at("time").c_str()), times[i], 1e-5), f + ": time " + pc.kids[0].at.at("time")); } }
        for (auto& q : want) if (q.size() > 4 && q.substr(q.size() - 4) == ".vtu" && q.find("." + idx(i) + ".") != S::npos) ck(ref.count(q) || (!meshf && q.find(".fields.") != S::npos), f + " does not list " + q); for (auto& q : ref) ck(want.count(q) && q.find("." + idx(i) + ".") != S::npos, f + " lists " + q); }
    S f = "vtk/Fierro.solver" + std::to_string(solver) + ".pvd"; Tag t = load(ck, f); ck(t.at["type"] == "Collection", f + ": type"); const Tag* col = t.kid("Collection"); ck(col && col->kids.size() == (size_t)last + 1, f + " lists " + std::to_string(col ? col->kids.size() : 0) + " files, " + std::to_string(last + 1) + " outputs were made"); for (int i = 0; i <= last; i++) { auto& e = col->kids[i]; ck(e.at.at("file") == "data/" + pre + idx(i) + ".vtm", f + " lists " + e.at.at("file")); ck(near(atof(e.at.at("timestep").c_str()), times[i], 1e-5), f + ": time " + e.at.at("timestep") + " of output " + std::to_string(i) + ", want " + num(times[i])); } }
static void table(const Check& ck, const S& f, const std::vector<std::array<double, 11>>& want, int cols) { std::error_code e; ck(std::filesystem::exists(f, e), f + " was not written"); std::ifstream in(f); S l; size_t n = 0; while (std::getline(in, l)) { if (l.empty() || l[0] == '#') continue; auto v = numbers(l); ck(v.size() == (size_t)cols, f + ": row " + std::to_string(n) + " has " + std::to_string(v.size()) + " columns"); ck(n < want.size(), f + " has too many rows"); for (int i = 0; i < cols; i++) ck(std::isnan(want[n][i]) || std::fabs(v[i] - want[n][i]) <= 2e-12 * (1e-3 + std::fabs(want[n][i])), f + ": row " + std::to_string(n) + " column " + std::to_string(i) + " is " + num(v[i]) + ", the simulation has " + num(want[n][i])); n++; } ck(n == want.size(), f + " has " + std::to_string(n) + " rows, want " + std::to_string(want.size())); }
static void states(const Check& ck, const Held& h, const std::vector<double>& times) { std::set<S> want; char b[64]; for (double t : times) for (auto n : {"mat_pt", "node"}) { snprintf(b, 64, "%s_state_t_%6.4e.txt", n, t); want.insert(b); } ck(filesIn("state") == want, "the files in state/ are not those of the outputs"); snprintf(b, 64, "state/mat_pt_state_t_%6.4e.txt", times.back()); table(ck, b, h.rows, 11); snprintf(b, 64, "state/node_state_t_%6.4e.txt", times.back()); table(ck, b, h.nrows, 10); }
static void ensight(const Check& ck, const Held& h, int last, const std::vector<double>& times, bool accel) { S d = "ensight/data/Outputs_SGH." + idx(last) + "."; std::set<S> want; static const char* V[13] = {"den", "pres", "sie", "vol", "mass", "sspd", "speed", "mat_id", "elem_switch", "eroded", "pos", "vel", "accel"}; for (int i = 0; i <= last; i++) { want.insert("Outputs_SGH." + idx(i) + ".geo"); for (auto v : V) want.insert("Outputs_SGH." + idx(i) + "." + v); } ck(filesIn("ensight/data") == want, "the files in ensight/data are not those of the outputs");
    auto lines = [&](const S& f) { std::vector<S> v; std::ifstream in(f); S l; ck(in.good(), f + " was not written"); while (std::getline(in, l)) { while (!l.empty() && isspace((unsigned char)l.back())) l.pop_back(); size_t a = 0; while (a < l.size() && isspace((unsigned char)l[a])) a++; v.push_back(l.substr(a)); } return v; }; auto close = [&](const S& f, const S& t, double w, size_t i) { double v = atof(t.c_str()); ck(std::isnan(w) || std::fabs(v - w) <= 6e-6 * (1e-9 + std::fabs(w)), f + ": value " + std::to_string(i) + " is " + t + ", the simulation has " + num(w)); };
    S el = h.nd == 3 ? "hexa8" : "quad4"; { S f = d + "geo"; auto v = lines(f); size_t q = 0; while (q < v.size() && v[q] != "part") q++; ck(q + 5 < v.size() && v[q + 3] == "coordinates" && v[q + 4] == std::to_string(h.N), f + ": head"); q += 5; ck(v.size() == q + 3 * h.N + 2 + h.E, f + " has " + std::to_string(v.size()) + " lines"); for (int k = 0; k < 3; k++) for (size_t g = 0; g < h.N; g++) close(f, v[q++], h.x[3 * g + k], g); ck(v[q] == el && v[q + 1] == std::to_string(h.E), f + ": elements"); q += 2; static const int O3[8] = {0, 1, 3, 2, 4, 5, 7, 6}; for (size_t e = 0; e < h.E; e++) { auto n = numbers(v[q++]); ck(n.size() == h.nn, f + ": element " + std::to_string(e)); for (size_t a = 0; a < h.nn; a++) ck(n[a] == h.el[e][h.nd == 3 ? O3[a] : a] + 1, f + ": element " + std::to_string(e) + " node " + std::to_string(a) + " is " + num(n[a])); } }
    for (auto name : V) { S n = name, f = d + n; bool vec = n == "pos" || n == "vel" || n == "accel"; auto v = lines(f); auto w = h.ens.find(n); size_t cnt = vec ? 3 * h.N : h.E; ck(v.size() == 4 + cnt && v[1] == "part" && v[3] == (vec ? S("block") : el), f + " is not laid out as an EnSight variable"); if (w == h.ens.end() || (n == "accel" && !accel)) continue; for (size_t i = 0; i < cnt; i++) close(f, v[4 + i], w->second[i], i); }
    auto v = lines("ensight/Outputs_SGH.case"); std::set<S> ls(v.begin(), v.end()); ck(ls.count("model: data/Outputs_SGH.*****.geo"), "the case file does not name the geometry"); for (auto n : V) { S q = n; bool vec = q == "pos" || q == "vel" || q == "accel"; ck(ls.count((vec ? "vector per node: " : "scalar per element: ") + q + " data/Outputs_SGH.*****." + q), "the case file does not name " + q); } ck(ls.count("number of steps: " + std::string(last + 1 < 10 ? "   " : "  ") + std::to_string(last + 1)), "the case file does not count " + std::to_string(last + 1) + " steps"); size_t q = 0; while (q < v.size() && v[q] != "time values:") q++; ck(v.size() == q + 1 + times.size(), "the case file lists " + std::to_string(v.size() - q - 1) + " times"); for (size_t i = 0; i < times.size(); i++) ck(near(atof(v[q + 1 + i].c_str()), times[i], 1e-5), "the case file has time " + v[q + 1 + i]); }
// the outputs of a run of n cycles with one every e cycles (not the first) and at the end
static std::vector<double> outTimes(const Run& r) { std::vector<double> t{0}; for (int n = 1; n <= r.cycles; n++) if (n == r.cycles || (n > 1 && r.every > 0 && n % r.every == 0)) t.push_back(n * r.dt); return t; }
static void judge(const Check& ck, Sim& s, const Run& r) { auto t = outTimes(r); Held h = held(s, r, true); int last = (int)t.size() - 1; if (r.fmt == "viz" || r.fmt == "viz_and_state") graphics(ck, r, h, 0, last, t); else ck(!std::filesystem::exists("vtk"), "graphics files were written"); if (r.fmt == "state" || r.fmt == "viz_and_state") states(ck, h, t); else ck(!std::filesystem::exists("state"), "state files were written"); if (r.fmt == "ensight") ensight(ck, h, last, t, true); else ck(!std::filesystem::exists("ensight"), "EnSight files were written"); }
static void go(Ctx& c, const Run& r, const S& more = "") { S deck = deckOf(r), key = deck + more; c.key(key); c.note(key); Check ck{c, key}; Sim s; simulate(s, deck, EXEC); c.check(s.out.ok, key, "the run ends with " + s.out.what); c.step(r.cycles); judge(ck, s, r); c.evals(1); c.state(hash(key)); c.validated(); }
static Want everything(Kind k) { Want w; w.elem = {"den", "mass", "stress", "sie", "pres"}; w.mat = MAT; w.gauss = {"volume"}; w.node = {"mass", "vel", "coords"}; if (k != THERM) { w.elem.push_back("sspd"); w.gauss.push_back("vel_grad"); } else { w.node.push_back("temp"); w.mat = {"stress", "den", "pres", "sie", "mass", "volfrac", "eroded"}; } return w; }
static Want pickFields(Ctx& c, Kind k, bool th) { Want w; bool rev = c.flip(); int others = c.choose(3); Want all = everything(k); auto base = k == THERM ? sub(ELEM, 0x2f, false) : ELEM; auto mats = k == THERM ? sub(MAT, 0xef, false) : MAT; auto nodes = sub(NODE, k == THERM ? 0x1f : 0xf, false); auto gs = sub(GAUSS, k == THERM ? 1 : 3, false); if (others) w = all; if (others == 2) { std::reverse(w.mat.begin(), w.mat.end()); std::reverse(w.node.begin(), w.node.end()); w.elem.clear(); }
    switch (c.choose(4)) { case 0: w.elem = sub(base, c.choose(1 << base.size()), rev); break; case 1: w.node = sub(nodes, c.choose(1 << nodes.size()), rev); break; case 2: w.gauss = sub(gs, c.choose(1 << gs.size()), rev); break; default: w.mat = sub(mats, c.choose(1 << mats.size()), rev); } (void)th; return w; }
static void fields(Ctx& c, bool th) { Run r; r.kind = (Kind)c.choose(3); r.mix = c.choose(4); r.fmt = "viz"; r.size = th ? c.choose(2) : 0; r.w = pickFields(c, r.kind, th); r.cycles = 1 + c.choose(2); if (!th && (r.cycles - 1) != (int)((r.mix + r.w.elem.size() + r.w.mat.size() + r.w.node.size()) % 2)) c.prune(); wipe(); go(c, r); }
static void formats(Ctx& c, bool th) { Run r; r.kind = (Kind)c.choose(3); r.mix = c.choose(4); r.size = c.choose(2); static const char* F[4] = {"viz", "state", "viz_and_state", "ensight"}; r.fmt = F[c.choose(4)]; if (r.fmt == "ensight" && r.mix > 1) c.prune(); r.cycles = 1 + c.choose(th ? 12 : 6); r.every = 1 + c.choose(4); static const double DT[3] = {0.01, 0.003, 1e-4}; r.dt = DT[c.choose(3)]; if (c.flip()) r.w = everything(r.kind); wipe(); go(c, r); }
// every output of a run is the last output of the run that stops there; what an earlier run left is cleared, what others left is kept
static void history(Ctx& c, bool th) { Run r; r.kind = (Kind)c.choose(3); r.mix = c.choose(4); r.size = th ? c.choose(2) : 0; r.fmt = "viz"; r.w = everything(r.kind); int n = 2 + c.choose(th ? 6 : 3); S deck = (r.cycles = n, deckOf(r)), key = deck + "history"; c.key(key); c.note(key); Check ck{c, key}; wipe(); { Sim s; simulate(s, deck, EXEC); c.check(s.out.ok, key, "the run ends with " + s.out.what); } std::vector<std::map<S, S>> snap(n + 1); auto names = filesIn("vtk/data"); auto outOf = [](int cyc) { return cyc == 0 ? 0 : cyc - 1; };
    for (auto& f : names) for (int m = 2; m <= n; m++) if (f.find("." + idx(outOf(m)) + ".vtu") != S::npos) snap[m][f] = get("vtk/data/" + f); put("vtk/notes.txt", "mine"); put("vtk/data/notes.txt", "mine"); put("vtk/data/Fierro.solver0.fields.00099.vtu", "stale"); put("vtk/Fierro.solver7.pvd", "stale");
    for (int m = 2; m < n; m++) { r.cycles = m; Sim s; simulate(s, deckOf(r), EXEC); c.check(s.out.ok, key, "the run of " + std::to_string(m) + " cycles ends with " + s.out.what); c.step(m); auto now = filesIn("vtk/data"); for (auto& f : now) if (f != "notes.txt" && f.find(".vtu") != S::npos) ck(f.find("00099") == S::npos, "the file of an earlier run " + f + " is left"); ck(get("vtk/notes.txt") == "mine" && get("vtk/data/notes.txt") == "mine", "a file that is not an output was changed"); ck(!std::filesystem::exists("vtk/Fierro.solver7.pvd"), "the file of an earlier run Fierro.solver7.pvd is left"); Held h = held(s, r, true); graphics(ck, r, h, 0, m - 1, outTimes(r)); for (auto& f : snap[m]) ck(get("vtk/data/" + f.first) == f.second, "output " + f.first + " of the run of " + std::to_string(n) + " cycles differs from that of the run that stops at cycle " + std::to_string(m)); }
    c.evals(n); c.state(hash(key)); c.validated(); }
// one solver after the other: each has its files, the second starts from where the first ended
static void chained(Ctx& c, bool th) { Run r; r.kind = (Kind)c.choose(3); r.mix = c.choose(4); r.fmt = c.flip() ? "viz_and_state" : "viz"; r.w = everything(r.kind); if (c.flip()) r.w.elem = {"sie"}; r.solvers = 2; r.every = c.choose(2) ? 1000 : 2; r.dt = 0.01; int n = 1 + c.choose(th ? 4 : 2); r.t1 = n * r.dt; r.ival = 1e30; S deck = deckOf(r), key = deck; c.key(key); c.note(key); Check ck{c, key}; wipe(); Sim s; simulate(s, deck, EXEC); c.check(s.out.ok, key, "the run ends with " + s.out.what);
    Tag t = load(ck, "vtk/Fierro.solver1.pvd"); const Tag* col = t.kid("Collection"); ck(col && col->kids.size() >= 2, "solver 1 lists too few outputs"); std::vector<double> times; for (auto& k : col->kids) times.push_back(atof(k.at.at("timestep").c_str())); Tag t0 = load(ck, "vtk/Fierro.solver0.pvd"); int l0 = (int)t0.kid("Collection")->kids.size() - 1; ck(l0 >= 1 && near(atof(t0.kid("Collection")->kids.back().at.at("timestep").c_str()), r.t1, 1e-5) && near(times[0], r.t1, 1e-5) && near(times.back(), 2 * r.t1, 1e-5), "the outputs of the solvers do not meet at " + num(r.t1)); Held h = held(s, r, false);
    // the last step may be a short one: the acceleration is not compared
    { S f = "vtk/data/Fierro.solver1.fields." + idx((int)times.size() - 1) + ".vtu"; Vtu v = vtu(ck, f); grid(ck, f, v, h, nullptr); v.point.erase("node_accel"); h.point.erase("node_accel"); compare(ck, f, "nodes", v.point, h.point); compare(ck, f, "elements", v.cell, h.cell); }
    Vtu a = vtu(ck, "vtk/data/Fierro.solver0.fields." + idx(l0) + ".vtu"), b = vtu(ck, "vtk/data/Fierro.solver1.fields.00000.vtu"); ck(a.pts.size() == b.pts.size(), "the solvers have different meshes"); for (size_t i = 0; i < a.pts.size(); i++) ck(near(a.pts[i], b.pts[i]), "the second solver starts elsewhere than the first ended"); for (auto& k : b.point) if (k.first == "node_coords" || k.first == "node_vel" || k.first == "node_temp" || k.first == "node_mass") compare(ck, "solver 1, output 0", "nodes", {k}, {{k.first, a.point[k.first]}}); for (auto& k : b.cell) if (k.first != "vel_grad") compare(ck, "solver 1, output 0", "elements", {k}, {{k.first, a.cell[k.first]}});
    c.evals(2); c.state(hash(key)); c.validated(); }
int main(int argc, char** argv) { bool th = false; for (int i = 1; i < argc; i++) th |= !strcmp(argv[i], "--thorough");
    return main_(argc, argv, "out", {{"fields", [th](Ctx& c) { fields(c, th); }, 6}, {"formats", [th](Ctx& c) { formats(c, th); }, 6}, {"history", [th](Ctx& c) { history(c, th); }, 4}, {"chained", [th](Ctx& c) { chained(c, th); }, 6}}); }
