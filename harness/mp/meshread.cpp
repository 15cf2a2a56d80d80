// Mesh files: every format, numbering, layout, cut and inconsistency; the mesh in memory is the one the file describes, or the file is refused.
#include "sim.hpp"
using namespace mp;
MP_EXIT
// an abstract mesh: nodes with coordinates, elements with nodes in the order of a file (counterclockwise, bottom before top), a part per element
struct AM { int nd; std::vector<std::array<double, 3>> x; std::vector<std::vector<int>> e; std::vector<int> part; };
static AM grid(int nx, int ny, int nz, int perm, int rot, bool rev) { AM m; m.nd = nz ? 3 : 2; int k1 = nz ? nz : 0; int N = (nx + 1) * (ny + 1) * (k1 + 1); m.x.resize(N);
    auto gid = [&](int i, int j, int k) { int g = i + (nx + 1) * (j + (ny + 1) * k); switch (perm) { case 0: return g; case 1: return N - 1 - g; default: { int s = 1; for (int q = 2; q < N; q++) if (std::gcd(q, N) == 1) { s = q; if (q * 2 > N) break; } return (g * s + 1) % N; } } };
    for (int k = 0; k <= k1; k++) for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) { double h = ((i * 7 + j * 5 + k * 3) % 8) / 64.0; m.x[gid(i, j, k)] = {i + h - 0.5, 0.5 * j + h / 2, nz ? 0.25 * k - h / 4 - 3 : 0.0}; }
    for (int k = 0; k < std::max(1, k1); k++) for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) { int Q[4][2] = {{i, j}, {i + 1, j}, {i + 1, j + 1}, {i, j + 1}}; std::vector<int> v; for (int t = 0; t < (nz ? 2 : 1); t++) for (int q = 0; q < 4; q++) v.push_back(gid(Q[(q + rot) % 4][0], Q[(q + rot) % 4][1], k + t)); m.e.push_back(v); }
    if (rev) std::reverse(m.e.begin(), m.e.end()); for (size_t e = 0; e < m.e.size(); e++) m.part.push_back(1 + (int)(e * 2 % 3)); return m; }
static const int IJK[8] = {0, 1, 3, 2, 4, 5, 7, 6};
struct Lay { int num = 0; bool crlf = false; int type = 0; int extra = 0; int ids = 0; bool objid = false; };
static S dnum(double d, int style) { char b[64]; switch (style) { case 0: snprintf(b, 64, "%.17g", d); break; case 1: snprintf(b, 64, "%.12e", d); break; default: snprintf(b, 64, d == std::floor(d) ? "%.0f." : "%.7f", d); } return b; }
static S crlf(const S& t) { S r; for (char ch : t) { if (ch == '\n') r += '\r'; r += ch; } return r; }
enum Fmt { GEO, VTK, VTU, INP }; static const char* EXT[4] = {"geo", "vtk", "vtu", "inp"};
struct Twist { int dn = 0, de = 0; int badnode = 0; int badtype = 0; bool mixed = false; int dropnode = -1; };
static S text(const AM& m, Fmt f, const Lay& L, const Twist& T = {}) { std::ostringstream o; int N = m.x.size(), E = m.e.size(), K = m.nd == 3 ? 8 : 4; auto X = [&](int n, int d) { return dnum(m.x[n][d], L.num); };
    auto nid = [&](int e, int l, int base) { int g = m.e[e][l]; if (T.badnode && e == E - 1 && l == K - 1) { switch (T.badnode) { case 1: return N + base; case 2: return base - 1; default: return -7; } } return g + base; };
    switch (f) {
        case GEO: { o << "line one of the header\nline two\nnode id assign\nelement id assign\npart\n         1\n" << (L.extra ? "a part 12 with words\n" : "Mesh\n") << "coordinates\n" << (L.extra ? "" : "      ") << N + T.dn << "\n"; for (int d = 0; d < 3; d++) for (int n = 0; n < N; n++) o << (L.extra ? "" : " ") << X(n, d) << "\n"; o << (T.badtype == 1 ? "tetra4" : T.badtype == 2 ? (m.nd == 3 ? "quad4" : "hexa8") : m.nd == 3 ? "hexa8" : "quad4") << "\n" << (L.extra ? "" : "      ") << E + T.de << "\n"; for (int e = 0; e < E; e++) { for (int l = 0; l < K; l++) o << (L.extra ? l ? " " : "" : "        ") << nid(e, l, 1); o << "\n"; } break; }
        case VTK: { o << "# vtk DataFile Version 3.0\nany title\nASCII\nDATASET UNSTRUCTURED_GRID\n" << (L.extra == 1 ? "" : "\n") << "POINTS " << N + T.dn << (L.extra == 2 ? " double" : " float") << "\n"; for (int n = 0; n < N; n++) o << X(n, 0) << " " << X(n, 1) << " " << X(n, 2) << "\n"; o << (L.extra == 1 ? "" : "\n") << "CELLS " << E + T.de << " " << E * (K + 1) << "\n"; for (int e = 0; e < E; e++) { o << K; for (int l = 0; l < K; l++) o << " " << nid(e, l, 0); o << "\n"; } o << (L.extra == 1 ? "" : "\n") << "CELL_TYPES " << E << "\n"; for (int e = 0; e < E; e++) o << (T.badtype == 1 || (T.mixed && e == E - 1) ? 10 : T.badtype == 2 ? (m.nd == 3 ? 11 : 8) : m.nd == 3 ? 12 : 9) << "\n"; if (L.extra == 2) o << "\nCELL_DATA " << E << "\nSCALARS part int 1\nLOOKUP_TABLE default\n1\n"; break; }
        case VTU: { int ty = m.nd == 2 ? 9 : L.type == 0 ? 12 : L.type == 1 ? 11 : 72; o << "<VTKFile type=\"UnstructuredGrid\" version=\"1.0\" byte_order=\"LittleEndian\" header_type=\"UInt64\">\n  <UnstructuredGrid>\n    <Piece NumberOfPoints=\"" << N + T.dn << "\" NumberOfCells=\"" << E + T.de << "\">\n      <PointData>\n"; if (L.extra == 1) { o << "        <DataArray type=\"Float64\" Name=\"T\" format=\"ascii\">\n"; for (int n = 0; n < N; n++) o << n << " "; o << "\n        </DataArray>\n"; } o << "      </PointData>\n      <CellData>\n";
            if (L.extra == 1) { o << "        <DataArray type=\"Int32\" Name=\"GlobalElementId\" format=\"ascii\">\n"; for (int e = 0; e < E; e++) o << e + 1 << "\n"; o << "        </DataArray>\n"; }
            if (L.objid) { o << "        <DataArray type=\"Int32\" Name=\"ObjectId\" format=\"ascii\" RangeMin=\"1\" RangeMax=\"3\">\n"; for (int e = 0; e < E; e++) o << m.part[e] << (e % 3 == 2 ? "\n" : " "); o << "\n        </DataArray>\n"; }
            o << "      </CellData>\n      <Points>\n        <DataArray type=\"Float32\" Name=\"Points\" NumberOfComponents=\"3\" format=\"ascii\" RangeMin=\"0\">\n"; for (int n = 0; n < N; n++) o << (L.extra == 2 || n % 2 == 0 ? "          " : " ") << X(n, 0) << " " << X(n, 1) << " " << X(n, 2) << (L.extra == 2 || n % 2 ? "\n" : ""); o << (N % 2 ? "\n" : "") << "        </DataArray>\n      </Points>\n      <Cells>\n        <DataArray type=\"Int64\" Name=\"connectivity\" format=\"ascii\" RangeMin=\"0\">\n";
            for (int e = 0; e < E; e++) { for (int l = 0; l < K; l++) o << " " << nid(e, m.nd == 3 && ty == 11 ? IJK[l] : l, 0); if (L.extra != 2 || e % 2) o << "\n"; } o << "\n        </DataArray>\n        <DataArray type=\"Int64\" Name=\"offsets\" format=\"ascii\">\n         "; for (int e = 0; e < E; e++) o << " " << (e + 1) * K; o << "\n        </DataArray>\n        <DataArray type=\"UInt8\" Name=\"types\" format=\"ascii\">\n         "; for (int e = 0; e < E; e++) o << " " << (T.badtype == 1 ? 10 : T.badtype == 2 ? (m.nd == 3 ? 9 : 12) : T.mixed && e == E - 1 ? (ty == 11 ? 12 : 11) : ty); o << "\n        </DataArray>\n      </Cells>\n    </Piece>\n  </UnstructuredGrid>\n</VTKFile>\n"; break; }
        case INP: { auto lab = [&](int n) { switch (L.ids) { case 0: return n + 1; case 1: return 10 * n + 5; case 2: return (n * 3) % 1000 + 100; default: return 2 * ((int)m.x.size() - n); } }; o << "*Heading\n test\n** Job name: Job-1\n*Preprint, echo=NO\n**\n*Part, name=Part-1\n*Node\n"; for (int n = 0; n < N; n++) if (n != T.dropnode) o << (L.extra ? "" : "      ") << lab(n) << (L.extra == 2 ? "," : ",          ") << X(n, 0) << (L.extra == 2 ? "," : ", ") << X(n, 1) << (L.extra == 2 ? "," : ",     ") << X(n, 2) << "\n"; o << "*Element, type=C3D8R\n"; for (int e = 0; e < E; e++) { o << (L.ids ? 7 * e + 3 : e + 1); for (int l = 0; l < K; l++) { int g = nid(e, l, 0); o << (L.extra == 2 ? "," : ", ") << (g >= 0 && g < N ? lab(g) : g == N ? 99999 : g < 0 ? 0 : g); } o << "\n"; } if (L.extra != 1) o << "*Nset, nset=Set-1, generate\n   1,  8,   1\n*Elset, elset=Set-1\n 1\n*End Part\n** STEP\n*Step, name=Step-1\n*End Step\n"; break; } }
    return L.crlf ? crlf(o.str()) : o.str(); }
static S deckOf(const S& file, int nd, const double* sc, const S& regions) { S ds = nd == 2 ? "MARS_rz" : "MARS"; S scal; const char* n[3] = {"x", "y", "z"}; if (sc) for (int d = 0; d < 3; d++) scal += S("    scale_") + n[d] + ": " + g17(sc[d]) + "\n"; return dynamics(1, 1) + filemesh(file, nd) + scal + outputs("state") + "solver_options:\n" + solver(nd == 2 ? "dynx_FE_rz" : "dynx_FE") + "boundary_conditions:\n" + bc("x_plane", 0, velbc("fixed")) + "materials:\n" + gas(0, 5. / 3., 1e-14, 1, ds) + gas(1, 1.4, 1e-14, 1, ds) + gas(2, 2, 1e-14, 1, ds) + "regions:\n" + regions; }
static S oneRegion() { return regionOf(GLOBAL, 0, uniform("density", 1) + uniform("specific_internal_energy", 1) + cartesian(0, 0, 0)); }
// "" or what differs
static S differs(Sim& s, const AM& m, const double* sc, int num, size_t E) { auto& me = s.mesh(); auto& x = s.st().node.coords; int K = m.nd == 3 ? 8 : 4; if ((int)me.num_dims != m.nd) return "dimensions"; if (me.num_nodes != m.x.size()) return "number of nodes " + std::to_string(me.num_nodes); if (me.num_elems != E) return "number of elements " + std::to_string(me.num_elems); if ((int)me.num_nodes_in_elem != K) return "nodes in an element";
    for (size_t n = 0; n < m.x.size(); n++) for (int d = 0; d < m.nd; d++) { double w = strtod(dnum(m.x[n][d], num).c_str(), 0) * (sc ? sc[d] : 1); if (!near(x.host(n, d), w, 1e-13)) return "node " + std::to_string(n) + " coordinate " + std::to_string(d) + ": " + g17(x.host(n, d)) + " instead of " + g17(w); if (x(n, d) != x.host(n, d)) return "device coordinates"; }
    for (size_t e = 0; e < E; e++) for (int l = 0; l < K; l++) { int w = m.e[e][m.nd == 3 ? IJK[l] : l]; if ((int)me.nodes_in_elem.host(e, l) != w || (int)me.nodes_in_elem(e, l) != w) return "node " + std::to_string(l) + " of element " + std::to_string(e) + ": " + std::to_string(me.nodes_in_elem.host(e, l)) + " instead of " + std::to_string(w); }
    return ""; }
static const int G3[6][3] = {{1, 1, 1}, {2, 1, 1}, {1, 2, 1}, {1, 1, 2}, {2, 2, 1}, {3, 2, 2}}, G2[5][2] = {{1, 1}, {2, 1}, {1, 3}, {3, 2}, {4, 3}};
static AM pickMesh(Ctx& c, Fmt f, bool th) { int nd = f == INP ? 3 : 2 + c.choose(2); int g = c.choose(nd == 3 ? (th ? 6 : 5) : (th ? 5 : 4)); int perm = c.choose(3), rot = c.choose(4); bool rev = c.flip(); return nd == 3 ? grid(G3[g][0], G3[g][1], G3[g][2], perm, rot, rev) : grid(G2[g][0], G2[g][1], 0, perm, rot, rev); }
static Lay pickLay(Ctx& c, Fmt f, int nd) { Lay L; L.num = c.choose(3); L.crlf = c.flip(); L.extra = c.choose(f == GEO ? 2 : 3); if (f == VTU) { L.type = nd == 3 ? c.choose(3) : 0; L.objid = c.flip(); } if (f == INP) L.ids = c.choose(4); return L; }
static const double SC[3][3] = {{1, 1, 1}, {0.5, 2, 4}, {10, 0.1, 0.01}};
static void faithful(Ctx& c) { Fmt f = (Fmt)c.choose(4); AM m = pickMesh(c, f, c.thorough); Lay L = pickLay(c, f, m.nd); int k = c.choose(4); const double* sc = k ? SC[k - 1] : nullptr; S file = scratch() + "/mesh." + EXT[f], t = text(m, f, L), deck = deckOf(file, m.nd, sc, oneRegion()); put(file, t); c.key(deck + t); c.note(t); Sim s; simulate(s, deck, INIT); c.check(s.out.ok, t, "refused: " + s.out.what); S d = differs(s, m, sc, L.num, m.e.size()); c.check(d.empty(), t, "the mesh is not the one of the file: " + d); c.state(hash(deck + t)); c.step(2); c.evals(); c.validated(); }
static void cut(Ctx& c) { Fmt f = (Fmt)c.choose(4); int nd = f == INP ? 3 : 2 + c.choose(2), g = c.choose(c.thorough ? 3 : 2), perm = c.choose(2); AM m = nd == 3 ? (g == 0 ? grid(1, 1, 1, perm, 0, false) : g == 1 ? grid(2, 1, 1, perm, 1, true) : grid(2, 2, 1, perm, 2, true)) : (g == 0 ? grid(1, 1, 0, perm, 0, false) : g == 1 ? grid(2, 1, 0, perm, 1, true) : grid(3, 2, 0, perm, 2, true)); Lay L; L.num = c.choose(2); L.extra = c.choose(f == GEO ? 2 : 3); if (f == VTU) { L.type = nd == 3 ? c.choose(3) : 0; L.objid = c.flip(); } if (f == INP) L.ids = c.choose(2);
    S t = text(m, f, L); std::vector<size_t> at; for (size_t i = 0; i < t.size(); i++) if (t[i] == '\n' || ((t[i] == ' ' || t[i] == ',') && i && t[i - 1] != ' ' && t[i - 1] != ',' && t[i - 1] != '\n')) { at.push_back(i); if (t[i] == '\n') at.push_back(i + 1); } size_t n = at[c.choose((int)at.size())]; S p = t.substr(0, n); S file = scratch() + "/mesh." + EXT[f]; put(file, p); S deck = deckOf(file, nd, nullptr, oneRegion()); c.key(deck + p); c.note(p); Sim s; simulate(s, deck, INIT); c.step(2); c.evals(); c.validated(); c.state(hash(deck + p) ^ s.out.ok); if (!s.out.ok) return;
    // accepted: everything was there (an Abaqus file has no count: the elements whose lines are complete)
    size_t E = m.e.size(); if (f == INP) { size_t q = p.find("*Element"); E = 0; if (q != S::npos) { std::istringstream is(p.substr(q)); S l; std::getline(is, l); while (std::getline(is, l) && !l.empty() && l[0] != '*') E++; } if (q == S::npos) { c.check(s.mesh().num_elems == 0, p, "elements out of nowhere"); return; } }
    S d = differs(s, m, nullptr, L.num, E); c.check(d.empty(), p, "a cut mesh file is accepted: " + d); 
    if (f == VTU && L.objid) for (size_t e = 0; e < E; e++) c.check(s.d->SimulationParamaters.mesh_input.object_ids.host(e) == m.part[e], p, "object ids of a cut file"); }
// files that contradict themselves, or the input file
static void wrong(Ctx& c) { Fmt f = (Fmt)c.choose(4); AM m = pickMesh(c, f, c.thorough); Lay L; L.extra = c.choose(f == GEO ? 2 : 3); if (f == VTU) L.type = m.nd == 3 ? c.choose(3) : 0; if (f == INP) L.ids = c.choose(4); Twist T; int nd = m.nd; S what; switch (c.choose(8)) {
        case 0: T.dn = c.flip() ? 1 : 3; if (f == INP) c.prune(); what = "more nodes announced than given"; break; case 1: T.dn = -1; if (f == INP) c.prune(); what = "fewer nodes announced than given"; break;
        case 2: T.de = 1 + c.choose(2); if (f == INP) c.prune(); what = "more elements announced than given"; break; case 3: T.badnode = 1 + c.choose(3); what = "an element uses a node that does not exist"; break;
        case 4: T.badtype = 1 + c.choose(2); if (f == INP) c.prune(); what = "elements of another type"; break; case 5: T.mixed = true; if (m.e.size() < 2 || f == GEO || f == INP || (f == VTU && m.nd == 3 && L.type == 2)) c.prune(); what = "elements of two types"; break;
        case 6: nd = 5 - m.nd; what = "a mesh of the other dimension"; break; default: T.dropnode = c.choose((int)m.x.size()); if (f != INP) c.prune(); what = "a node is missing"; }
    S file = scratch() + "/mesh." + EXT[f], t = text(m, f, L, T), deck = deckOf(file, nd, nullptr, oneRegion()); put(file, t); c.key(deck + t); c.note(t); Sim s; simulate(s, deck, INIT); c.check(!s.out.ok, t, "accepted although: " + what); c.state(hash(deck + t)); c.step(2); c.evals(); c.validated(); }
// parts of a vtu file
static void parts(Ctx& c) { int nd = 2 + c.choose(2), g = c.choose(nd == 3 ? 6 : 4); AM m = nd == 3 ? grid(G3[g][0], G3[g][1], G3[g][2], c.choose(3), 0, c.flip()) : grid(G2[g][0], G2[g][1], 0, c.choose(3), 0, c.flip()); Lay L; L.objid = c.flip(); L.extra = c.choose(3); L.type = nd == 3 ? c.choose(3) : 0; int pat = c.choose(3); if (pat) for (size_t e = 0; e < m.part.size(); e++) m.part[e] = pat == 1 ? 1 + e % 2 : 3 - (int)(e * 3 / m.part.size());
    int n = 1 + c.choose(c.thorough ? 3 : 2); std::vector<int> id; for (int i = 0; i < n; i++) id.push_back(1 + c.choose(3)); bool dflt = n == 1 && id[0] == 1 && c.flip(); S file = scratch() + "/mesh.vtu", reg = oneRegion(); for (int i = 0; i < n; i++) reg += regionOf("            type: vtu_file\n" + S(dflt ? "" : "            part_id: " + std::to_string(id[i]) + "\n"), 1 + i % 2, uniform("density", 2 + i) + uniform("specific_internal_energy", 3 + i) + cartesian(1, 0, 0)); S t = text(m, VTU, L), deck = deckOf(file, nd, nullptr, reg); put(file, t); c.key(deck + t); c.note(deck + t); Sim s; simulate(s, deck, SETUP); c.check(s.out.ok, deck, "refused: " + s.out.what);
    auto& mm = s.st().MeshtoMaterialMaps; auto& mp = s.st().MaterialPoints; for (size_t e = 0; e < m.e.size(); e++) { int mat = 0; double den = 1, sie = 1; for (int i = 0; i < n; i++) if ((L.objid ? m.part[e] : 0) == id[i]) { mat = 1 + i % 2; den = 2 + i; sie = 3 + i; } S el = "element " + std::to_string(e); c.check(mm.num_mats_in_elem.host(e) == 1, deck, el + ": materials in the element"); c.check((int)mm.mats_in_elem.host(e, 0) == mat, deck, el + " of part " + std::to_string(m.part[e]) + ": material " + std::to_string(mm.mats_in_elem.host(e, 0)) + " instead of " + std::to_string(mat)); size_t lid = mm.mat_elems_in_elem.host(e, 0); c.check(near(mp.den.host(mat, lid), den) && near(mp.sie.host(mat, lid), sie), deck, el + ": state of the part"); }
    c.state(hash(deck + t)); c.step(2); c.evals(); c.validated(); }
int main(int a, char** b) { return main_(a, b, "meshread", {{"faithful", faithful, 4}, {"cut", cut, 4}, {"wrong", wrong, 4}, {"parts", parts, 4}}); }
