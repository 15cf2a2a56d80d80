// Cohesive interfaces: every way of cutting a small brick, of moving its pieces and of numbering them; whole runs against the law.
#include "bodies.hpp"
using namespace mp;
MP_EXIT
struct Law { bool on = true; double E = 0, a1 = 0, n = 1, un = 1, ut = 1; std::vector<std::array<double, 2>> pr; };
// a brick of elements, some of whose inner faces are cut: nodes are shared only by elements that are joined around them
struct Brick { int n[3]; double h[3]{1, 0.9, 0.8}; int cut = 0, warp = 0, relabel = 0, number = 0; M9 Q; V3 T; double gap = 0; std::vector<V3> x, v; std::vector<std::vector<int>> e; std::vector<int> piece, pieceOf; std::vector<std::array<int, 3>> grid; int pieces = 0;
    struct Face { int a, b; std::vector<std::pair<int, int>> corner; }; std::vector<Face> faces; // the two elements of a cut face, and the nodes of both at its four corners, in the outward order of a
    int el(int i, int j, int k) const { return i + n[0] * (j + n[1] * k); } };
static int root(std::vector<int>& p, int i) { while (p[i] != i) i = p[i] = p[p[i]]; return i; }
static bool isCut(const Brick& b, int d, int i, int j, int k) { // between element (i,j,k) and its neighbour along d
    switch (b.cut) { case 0: return d == 2 && k == b.n[2] / 2 - (b.n[2] > 1) ; case 1: return d == 2 && k == 0 && i == 0; case 2: return d != 2; case 3: return true; case 4: return d == 2; case 5: return (d == 2 && k == 0) || (d == 0 && i == 0 && k == 0); case 6: return d == 1 && j == 0 && (i + k) % 2 == 0; default: return false; } }
static bool build(Brick& b) { int E = b.n[0] * b.n[1] * b.n[2]; std::vector<int> elp(E); for (int e = 0; e < E; e++) elp[e] = e; auto at = [&](int e, int d) { return d == 0 ? e % b.n[0] : d == 1 ? e / b.n[0] % b.n[1] : e / (b.n[0] * b.n[1]); }; static const int ST[3] = {0, 1, 2}; (void)ST; int stp[3] = {1, b.n[0], b.n[0] * b.n[1]};
    struct In { int a, b, d; bool cut; }; std::vector<In> in; for (int e = 0; e < E; e++) for (int d = 0; d < 3; d++) if (at(e, d) + 1 < b.n[d]) { bool c = isCut(b, d, at(e, 0), at(e, 1), at(e, 2)); in.push_back({e, e + stp[d], d, c}); if (!c) elp[root(elp, e)] = root(elp, e + stp[d]); }
    b.pieceOf.assign(E, 0); std::map<int, int> pid; for (int e = 0; e < E; e++) { int r = root(elp, e); if (!pid.count(r)) { int k = pid.size(); pid[r] = k; } b.pieceOf[e] = pid[r]; } b.pieces = pid.size();
    // corner c of element e: joined to the neighbours over uncut faces that hold the same grid point
    std::vector<int> cp(E * 8); for (size_t i = 0; i < cp.size(); i++) cp[i] = i; for (auto& f : in) if (!f.cut) for (int c = 0; c < 8; c++) if (c >> f.d & 1) cp[root(cp, f.a * 8 + c)] = root(cp, f.b * 8 + (c & ~(1 << f.d)));
    std::map<int, int> nid; std::vector<int> cn(E * 8); for (int i = 0; i < E * 8; i++) { int r = root(cp, i); if (!nid.count(r)) { int k = nid.size(); nid[r] = k; } cn[i] = nid[r]; } int N = nid.size(), st = 1; if (b.number == 2) for (int q = 2; q < N; q++) if (std::gcd(q, N) == 1) { st = q; if (q * 2 > N) break; }
    for (auto& i : cn) i = b.number == 0 ? i : b.number == 1 ? N - 1 - i : (i * st + 1) % N;
    b.x.assign(N, {}); b.v.assign(N, {}); b.piece.assign(N, 0); b.grid.assign(N, {}); double off[3] = {0, 0, 0}; for (int d = 0; d < 3; d++) off[d] = b.n[d] * b.h[d] / 2;
    for (int e = 0; e < E; e++) for (int c = 0; c < 8; c++) { int g[3]; V3 p; for (int d = 0; d < 3; d++) { g[d] = at(e, d) + (c >> d & 1); p[d] = b.h[d] * g[d]; } if (b.warp) { V3 q = p; p[0] += 0.11 * std::sin(2 * q[1] + 1.3 * q[2]); p[1] += 0.09 * std::sin(2.2 * q[0] + q[2] + 1); p[2] += 0.1 * std::cos(1.7 * q[0] - 2 * q[1]); } for (int d = 0; d < 3; d++) p[d] -= off[d]; if (b.gap && b.pieceOf[e]) p[2] += b.gap * b.pieceOf[e]; int id = cn[e * 8 + c]; b.x[id] = mul(b.Q, p); for (int d = 0; d < 3; d++) b.x[id][d] += b.T[d]; b.piece[id] = b.pieceOf[e]; b.grid[id] = {g[0], g[1], g[2]}; }
    b.e.clear(); for (int e = 0; e < E; e++) { auto& R = relabelled(b.relabel, e); std::vector<int> v; for (int l = 0; l < 8; l++) { V3 y = mul(R, {(l & 1) - 0.5, (l >> 1 & 1) - 0.5, (l >> 2) - 0.5}); v.push_back(cn[e * 8 + (y[0] > 0) + 2 * (y[1] > 0) + 4 * (y[2] > 0)]); } b.e.push_back(v); }
    b.faces.clear(); for (auto& f : in) if (f.cut) { Brick::Face F; F.a = f.a; F.b = f.b; int u = (f.d + 1) % 3, w = (f.d + 2) % 3; static const int O[4][2] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}}; for (auto& o : O) { int c = (o[0] << u) | (o[1] << w); F.corner.push_back({cn[f.a * 8 + (c | 1 << f.d)], cn[f.b * 8 + c]}); } b.faces.push_back(F); }
    if (b.number) { std::reverse(b.e.begin(), b.e.end()); for (auto& f : b.faces) { f.a = E - 1 - f.a; f.b = E - 1 - f.b; } }
    return true; }
struct Pair { int a, b; struct F { std::array<int, 4> c; }; std::vector<F> f; std::vector<int> ea, eb; std::vector<double> pr; double alpha = 0, Tn = 0, Tt = 0; };
// the pairs of the interface, first the node that comes first; every face of the first node's side that they hold
static bool pairsOf(const Brick& b, const std::vector<int>& rank, std::vector<Pair>& ps) { std::map<std::pair<int, int>, Pair> m; for (auto& f : b.faces) for (auto& [na, nb] : f.corner) if (na != nb) { bool sw = rank[na] > rank[nb]; std::pair<int, int> k = sw ? std::make_pair(nb, na) : std::make_pair(na, nb); auto& p = m[k]; p.a = k.first; p.b = k.second; Pair::F F; for (int i = 0; i < 4; i++) F.c[i] = sw ? f.corner[3 - i].second : f.corner[i].first; p.f.push_back(F); int ea = sw ? f.b : f.a, eb = sw ? f.a : f.b; for (int q : p.ea) if (q == ea) return false; for (int q : p.eb) if (q == eb) return false; p.ea.push_back(ea); p.eb.push_back(eb); } for (auto& q : m) ps.push_back(q.second); return true; }
static V3 sub(const V3& a, const V3& b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static double dotp(const V3& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static V3 crs(const V3& a, const V3& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static double len(const V3& a) { return std::sqrt(dotp(a, a)); }
static double areaOf(const V3 x[4]) { double g = 1 / std::sqrt(3.), A = 0; for (int p = 0; p < 4; p++) { double u = p & 1 ? g : -g, w = p & 2 ? g : -g; V3 a, b; for (int d = 0; d < 3; d++) { a[d] = 0.25 * ((x[1][d] - x[0][d]) * (1 - w) + (x[2][d] - x[3][d]) * (1 + w)); b[d] = 0.25 * ((x[3][d] - x[0][d]) * (1 - u) + (x[2][d] - x[1][d]) * (1 + u)); } A += len(crs(a, b)); } return A; }
// forces of one stage; false if rounding decides
static bool forces(const Law& L, std::vector<Pair>& ps, const std::vector<V3>& x, const std::vector<V3>& v, double dt, bool last, std::vector<V3>& F) { F.assign(x.size(), {0, 0, 0}); if (!L.on) return true; for (auto& p : ps) { V3 n{0, 0, 0}; double A = 0; for (auto& f : p.f) { V3 q[4]; for (int i = 0; i < 4; i++) q[i] = x[f.c[i]]; V3 k = crs(sub(q[2], q[0]), sub(q[3], q[1])); double l = len(k); for (int d = 0; d < 3; d++) n[d] += k[d] / l; A += areaOf(q) / 4; } double l = len(n); for (double& q : n) q /= l;
        V3 u = sub(x[p.b], x[p.a]), w = sub(v[p.b], v[p.a]); double un = dotp(u, n), wn = dotp(w, n); V3 t, s; for (int d = 0; d < 3; d++) { t[d] = u[d] - un * n[d]; s[d] = t[d] + dt * (w[d] - wn * n[d]); } double ut = len(t), vn = un + dt * wn, vt = len(s); double scale = 1; if ((len(u) && len(u) < 1e-9 * scale) || (ut && ut < 1e-9 * scale && ut > 0 && L.on && false)) return false; { V3 d; for (int i = 0; i < 3; i++) d[i] = u[i] + dt * w[i]; if (len(d) && len(d) < 1e-9) return false; }
        auto lam = [&](double a, double b) { return std::hypot(a / L.un, b / L.ut); }; double l0 = lam(un, ut), l1 = lam(vn, vt), rate = (l1 - l0) / dt; if (l0 && std::fabs(l1 - l0) < 1e-12 * l0 && l1 != l0) return false; double al = p.alpha + (rate > 0 ? L.a1 * std::pow((l0 + l1) / 2, L.n) * dt : 0); al = std::min(al, 1.0);
        std::vector<double> pr = p.pr; pr.resize(L.pr.size(), 0); double D = L.E * (l1 - l0), S0 = L.E * l0, H = 0; for (size_t j = 0; j < L.pr.size(); j++) { double tau = L.pr[j][1], q = tau > 0 ? std::exp(-dt / tau) : 0, g = L.pr[j][0] * tau * rate * (1 - q); pr[j] = q * pr[j] + g; S0 += pr[j]; H += (1 - q) * pr[j]; D += g; }
        auto grow = [&](double a0, double a1, double star) { double r = 0; if (l1 > 0) r += a1 / (star * l1) * (1 - al) * (D + S0 - H); if (l0 > 0) r -= a0 / (star * l0) * (1 - p.alpha) * S0; return r; }; double Tn = p.Tn + grow(un, vn, L.un), Tt = p.Tt + grow(ut, vt, L.ut);
        for (int d = 0; d < 3; d++) { double f = A * (Tn * n[d] + (ut > 0 ? Tt * t[d] / ut : 0)); if (ut > 0 && ut < 1e-9 && std::fabs(Tt) > 1e-12) return false; F[p.a][d] += f; F[p.b][d] -= f; } if (last) { p.alpha = al; p.Tn = Tn; p.Tt = Tt; p.pr = pr; } } return true; }
static const Law LAWS[9] = {{true, 0.3, 0, 1, 0.02, 0.02, {}}, {true, 0.2, 0.8, 1, 0.02, 0.01, {{0.15, 0.4}}}, {true, 0.25, 2.5, 0.25, 0.03, 0.02, {{0.1, 2}, {0.2, 0.05}}}, {true, 0.3, 30, 2, 0.02, 0.04, {{0.2, 0.3}}}, {false, 0, 0, 1, 1, 1, {}}, {true, 0.05, 1.5, 0.5, 0.01, 0.03, {{0.1, 2}, {0.05, 0.7}, {0.2, 0}, {0.08, 0.1}}}, {true, 0.4, 1, 2, 0.05, 0.05, {}}, {true, 0, 0.3, 1, 0.02, 0.02, {{0.3, 1}}}, {true, 0.1, 0.1, 3, 0.01, 0.01, {{0.01, .1}, {0.02, .2}, {0.03, .3}, {0.04, .4}, {0.05, .5}, {0.04, .6}, {0.03, .7}, {0.02, .8}, {0.01, .9}, {0.02, 1}}}};
static S lawText(const Law& L) { std::vector<double> p = {L.E, L.a1, L.n, L.un, L.ut, (double)L.pr.size()}; for (auto& q : L.pr) { p.push_back(q[0]); p.push_back(q[1]); } return "    - boundary_condition:\n        solver_id: 0\n        surface:\n            type: global\n" + (L.on ? "        stress_model: fracture\n" + list("stress_bc_global_vars", p) : S("        stress_model: none\n")); }
struct Run { int rk = 1, cycles = 1; double dt = 0.1, sie = 0; bool wall = false, diss = false, before = false; double oy = 0, oz = 0, rate = 0, xi = 0; bool turn = false; };
static S wallText(const Brick& b, const Run& r) { double m = 1e9; for (auto& p : b.x) m = std::min(m, p[0]); return r.wall ? bc("x_plane", m, velbc("fixed")) : S(""); }
static S deckOf(const Brick& b, const Law& L, const Run& r) { S turn = r.turn ? "    - boundary_condition:\n        solver_id: 0\n        surface:\n            type: global\n" + velbc("user_defined", {1, r.oy, r.oz, r.rate, r.xi}) : S(""); S w = wallText(b, r) + turn; return dynamics(1000, r.cycles, r.dt, r.dt, r.dt, r.rk) + filemesh(scratch() + "/brick.vtk", 3) + outputs("state", 1e30) + "solver_options:\n" + solver("dynx_FE") + "boundary_conditions:\n" + (r.before ? w + lawText(L) : lawText(L) + w) + "materials:\n" + gas(0, 1.4, 1e-9, 1, r.diss ? "MARS" : "") + "regions:\n" + regionOf(GLOBAL, 0, uniform("density", 1) + uniform("specific_internal_energy", r.sie) + cartesian(0, 0, 0)); }
struct End { std::vector<V3> x, v, f; std::vector<double> m; std::vector<int> rank; };
static bool run(Sim& s, const Brick& b, const Law& L, const Run& r, End& z, S& why) { simulate(s, deckOf(b, L, r), SETUP); if (!s.out.ok) { why = "refused: " + s.out.what; return false; } auto& n = s.st().node; size_t N = b.x.size(); for (size_t g = 0; g < N; g++) for (int d = 0; d < 3; d++) { n.vel.host(g, d) = b.v[g][d]; n.vel_n0.host(g, d) = b.v[g][d]; } n.vel.update_device(); n.vel_n0.update_device(); n.mass.update_host(); z.m.clear(); for (size_t g = 0; g < N; g++) z.m.push_back(n.mass.host(g)); z.rank.assign(N, 0); auto& M = s.mesh(); for (size_t i = 0; i < M.num_bdy_nodes; i++) z.rank[M.bdy_nodes.host(i)] = i; Outcome o = guarded([&] { s.d->execute(); }); if (!o.ok) { why = "the run ends with " + o.what; return false; } n.force.update_host(); n.coords.update_host(); n.vel.update_host(); z.x.assign(N, {}); z.v = z.f = z.x; for (size_t g = 0; g < N; g++) for (int d = 0; d < 3; d++) { z.x[g][d] = n.coords.host(g, d); z.v[g][d] = n.vel.host(g, d); z.f[g][d] = n.force.host(g, d); } return true; }
static S show(const Brick& b, const Law& L, const Run& r) { std::ostringstream o; o << b.n[0] << "x" << b.n[1] << "x" << b.n[2] << " cut " << b.cut << " warp " << b.warp << " gap " << b.gap << " rotation"; for (double q : b.Q) o << " " << num(q); o << " shift " << b.T[0] << " local numbering " << b.relabel << " numbering " << b.number << "; law "; if (!L.on) o << "off"; else { o << L.E << " " << L.a1 << " " << L.n << " " << L.un << " " << L.ut; for (auto& p : L.pr) o << " (" << p[0] << " " << p[1] << ")"; } o << "; stages " << r.rk << " cycles " << r.cycles << " dt " << r.dt << " energy " << r.sie << " wall " << r.wall << " first " << r.before; if (r.turn) o << " turning " << r.oy << " " << r.oz << " opening " << r.rate << " at " << r.xi; return o.str(); }
static S vel(const Brick& b) { S r; for (size_t g = 0; g < b.v.size(); g++) r += " " + vec({b.v[g][0], b.v[g][1], b.v[g][2]}); return r; }
static const int SH[10][4] = {{1, 1, 2, 0}, {2, 1, 2, 0}, {2, 2, 2, 0}, {2, 1, 2, 1}, {2, 2, 1, 2}, {2, 2, 2, 3}, {1, 1, 3, 4}, {2, 1, 2, 5}, {2, 2, 2, 6}, {3, 2, 2, 1}};
static void shape(Ctx& c, Brick& b, int count) { int k = c.choose(count); for (int d = 0; d < 3; d++) b.n[d] = SH[k][d]; b.cut = SH[k][3]; }
static void pose(Ctx& c, Brick& b, bool th) { static const int O[4] = {0, 14, 24, 25}; int o = th ? c.choose(27) : O[c.choose(4)]; b.Q = orient(o); b.T = o % 2 ? V3{-2, 3, 5} : V3{0, 0, 0}; b.relabel = (o * 7 + b.n[0] * 5 + b.n[1] * 3 + b.cut) % 26; b.number = th ? c.choose(3) : (o + b.relabel + b.warp) % 3; }
// motions: 0 together, 1 apart along the last axis, 2 sliding, 3 mixed, 4 closing, 5 every piece turning about its own axis, 6 node by node, 7 only the first piece moves
static void motion(Brick& b, int k) { V3 w = b.number ? V3{0.03, -0.05, 0.02} : V3{0, 0, 0}; for (size_t g = 0; g < b.x.size(); g++) { int p = b.piece[g]; double f = p == 0 ? 0 : p == 1 ? 1 : 0.3 + 0.4 * p; V3 r; for (int d = 0; d < 3; d++) r[d] = (b.grid[g][d] - b.n[d] / 2.) * b.h[d]; V3 v{0, 0, 0}; switch (k) { case 0: break; case 1: v = {0, 0, 0.15 * f}; break; case 2: v = {0.12 * f, -0.05 * f * f, 0}; break; case 3: v = {0.05 * f, 0.1 * f, 0.08 * (f * f - 0.1)}; break; case 4: v = {0.02 * f, 0, -0.1 * f}; break; case 5: { V3 o{0.1 * f, -0.15 * f * f, 0.2 * (f - 0.2)}; v = crs(o, r); v[2] += 0.03 * f; } break; case 6: v = {0.05 * ((g * 7) % 5) - 0.1, 0.04 * ((g * 11) % 7) - 0.11, 0.06 * ((g * 5) % 3) - 0.05}; break; default: if (p == 0) v = {-0.03, 0.02, -0.09}; } v = mul(b.Q, v); for (int d = 0; d < 3; d++) b.v[g][d] = v[d] + w[d]; } }
static S prepare(Ctx& c, Brick& b, const Law& L, const Run& r) { S key = show(b, L, r); put(scratch() + "/brick.vtk", vtkmesh(b.x, b.e)); key += "; velocities" + vel(b); c.key(key); c.note(key); return key; }
static void compare(Ctx& c, const S& key, const Brick& b, const End& z, const std::vector<V3>& x, const std::vector<V3>& v, double sc, const S& what) { for (size_t g = 0; g < x.size(); g++) for (int d = 0; d < 3; d++) { S at = what + "node " + std::to_string(g) + " of piece " + std::to_string(b.piece[g]) + " at (" + num(b.x[g][0]) + " " + num(b.x[g][1]) + " " + num(b.x[g][2]) + "): "; c.check(std::fabs(z.v[g][d] - v[g][d]) <= sc, key, at + "velocity " + vec({z.v[g][0], z.v[g][1], z.v[g][2]}) + " instead of " + vec({v[g][0], v[g][1], v[g][2]})); c.check(std::fabs(z.x[g][d] - x[g][d]) <= sc, key, at + "position " + vec({z.x[g][0], z.x[g][1], z.x[g][2]}) + " instead of " + vec({x[g][0], x[g][1], x[g][2]})); } }
// pieces without stiffness of their own: the whole run follows from the law of the interfaces
static void drift(Ctx& c) { bool th = c.thorough; Brick b; shape(c, b, 10); int law = c.choose(9), mo = c.choose(8); Run r; int t = c.choose(th ? 4 : 3); r.rk = t == 2 ? 3 : 1 + t % 2; r.cycles = th ? (t == 3 ? 20 : 12) : 6; b.warp = c.flip(); pose(c, b, th); const Law& L = LAWS[law]; build(b); r.wall = !b.warp && (b.Q[0] == 0 || std::fabs(b.Q[0]) == 1) && (law + mo) % 3 == 0; r.before = (b.relabel + mo) % 2; motion(b, mo); if (mo != 6 && (b.cut == 2 || b.cut == 6)) { M9 P = CUBE[b.cut == 2 ? 5 : 9]; M9 QP; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { QP[3 * i + j] = 0; for (int k = 0; k < 3; k++) QP[3 * i + j] += b.Q[3 * i + k] * P[3 * k + j]; } M9 keep = b.Q; b.Q = QP; motion(b, mo); b.Q = keep; }
    double wx = 1e9; for (auto& p : b.x) wx = std::min(wx, p[0]); std::vector<char> held(b.x.size(), 0); if (r.wall) for (size_t g = 0; g < b.x.size(); g++) if (std::fabs(b.x[g][0] - wx) < 1e-7) { held[g] = 1; b.v[g] = {0, 0, 0}; }
    S key = prepare(c, b, L, r); Sim s; End z; S why; std::vector<Pair> ps; 
    c.check(run(s, b, L, r, z, why), key, why); if (!pairsOf(b, z.rank, ps)) c.prune(); std::vector<V3> x, v, F; auto go = [&](double eps) { x = b.x; v = b.v; auto qs = ps; for (size_t g = 0; g < v.size(); g++) for (int d = 0; d < 3; d++) v[g][d] *= 1 + eps; for (int cy = 0; cy < r.cycles; cy++) { auto x0 = x, v0 = v; for (int k = 0; k < r.rk; k++) { double al = 1.0 / (r.rk - k); if (!forces(L, qs, x, v, al * r.dt, k + 1 == r.rk, F)) return false; for (size_t g = 0; g < x.size(); g++) for (int d = 0; d < 3; d++) { v[g][d] = held[g] ? 0 : v0[g][d] + al * r.dt * F[g][d] / z.m[g]; x[g][d] = x0[g][d] + al * r.dt * 0.5 * (v[g][d] + v0[g][d]); } } } return true; };
    // how much the motion magnifies what rounding leaves open, by a run from slightly other velocities
    double tol = 2e-10; if (mo) { if (!go(1e-11)) c.prune(); auto X = x, V = v; if (!go(0)) c.prune(); for (size_t g = 0; g < x.size(); g++) for (int d = 0; d < 3; d++) { double q = 100 * (std::fabs(X[g][d] - x[g][d]) + std::fabs(V[g][d] - v[g][d])); if (!(q < 1e-5)) c.prune(); tol = std::max(tol, q); } } else if (!go(0)) c.prune();
    c.step(r.cycles * r.rk); c.evals(); c.state(hash(key)); compare(c, key, b, z, x, v, tol, ""); for (size_t g = 0; g < x.size(); g++) for (int d = 0; d < 3; d++) c.check(std::fabs(z.f[g][d] - F[g][d]) <= 10 * tol, key, "node " + std::to_string(g) + ": force " + vec({z.f[g][0], z.f[g][1], z.f[g][2]}) + " instead of " + vec({F[g][0], F[g][1], F[g][2]})); c.validated(); }
// stiff pieces: the first step is that of the pieces alone plus the push of the interfaces; momentum stays
static void stiff(Ctx& c) { bool th = c.thorough; Brick b; shape(c, b, 10); int law = c.choose(9), mo = c.choose(8); b.warp = c.flip(); pose(c, b, th); build(b); motion(b, mo); Law L = LAWS[law]; Run r; r.dt = 0.02; r.sie = 0.4; r.diss = c.flip(); Law off; off.on = false; S key = prepare(c, b, L, r); Sim s, f; End z, y; S why; c.check(run(f, b, off, r, y, why), key, why); c.check(run(s, b, L, r, z, why), key, why); std::vector<Pair> ps; if (!pairsOf(b, z.rank, ps)) c.prune(); std::vector<V3> F, x = y.x, v = y.v; if (!forces(L, ps, b.x, b.v, r.dt, true, F)) c.prune(); for (size_t g = 0; g < x.size(); g++) for (int d = 0; d < 3; d++) { v[g][d] += r.dt * F[g][d] / z.m[g]; x[g][d] += 0.5 * r.dt * r.dt * F[g][d] / z.m[g]; } c.step(2); c.evals(); c.state(hash(key)); compare(c, key, b, z, x, v, 1e-11, "");
    Run q = r; q.rk = 2; q.cycles = 4; Sim h; End w; S k2 = prepare(c, b, L, q); c.check(run(h, b, L, q, w, why), k2, why); for (int d = 0; d < 3; d++) { double p0 = 0, p1 = 0; for (size_t g = 0; g < x.size(); g++) { p0 += w.m[g] * b.v[g][d]; p1 += w.m[g] * w.v[g][d]; } c.check(std::fabs(p1 - p0) < 1e-11, k2, "momentum " + num(p1) + " instead of " + num(p0)); } c.step(8); c.validated(); }
// pieces almost in touch: only nodes at the same place are joined
static void almost(Ctx& c) { bool th = c.thorough; Brick b; shape(c, b, 3); static const double G[6] = {0, 5e-9, 9e-9, 1.5e-8, 1e-6, 1e-3}; b.gap = G[c.choose(6)]; int law = c.choose(9), mo = 1 + c.choose(3); pose(c, b, false); b.Q = CUBE[b.relabel % 24]; b.T = {0, 0, 0}; build(b); motion(b, mo); Run r; r.cycles = 3; Law L = LAWS[law], ref = L; if (b.gap > 1e-8) ref.on = false; S key = prepare(c, b, L, r); Sim s; End z; S why; c.check(run(s, b, L, r, z, why), key, why); std::vector<Pair> ps; pairsOf(b, z.rank, ps); std::vector<V3> x = b.x, v = b.v, F; for (int cy = 0; cy < r.cycles; cy++) { forces(ref, ps, x, v, r.dt, true, F); auto v0 = v; for (size_t g = 0; g < x.size(); g++) for (int d = 0; d < 3; d++) { v[g][d] += r.dt * F[g][d] / z.m[g]; x[g][d] += r.dt * 0.5 * (v[g][d] + v0[g][d]); } } c.step(3); c.evals(); c.state(hash(key)); compare(c, key, b, z, x, v, b.gap && ref.on ? 1e-6 : 1e-9, ""); c.validated(); }
// pieces turned and opened along a given path: the traction follows the law and turns with them
static void turning(Ctx& c) { bool th = c.thorough; Brick b; static const int SHT[3][3] = {{2, 1, 1}, {2, 2, 1}, {2, 2, 2}}; int k = c.choose(3); for (int d = 0; d < 3; d++) b.n[d] = SHT[k][d]; b.cut = 7; b.Q = CUBE[0]; b.T = {0.3, 0.2, -0.1}; 
    // a cut across the first axis: the brick is built along the last one and turned
    Brick q = b; q.n[0] = b.n[2]; q.n[1] = b.n[1]; q.n[2] = b.n[0]; q.cut = 0; q.Q = {0, 0, 1, 0, 1, 0, -1, 0, 0}; q.h[0] = 0.8; q.h[2] = 1; q.relabel = c.choose(th ? 26 : 4) * (th ? 1 : 7); q.number = c.choose(3); build(q); Run r; r.turn = true; static const double W[5][2] = {{0, 0}, {0.5, 0}, {0, -0.7}, {0.4, 0.9}, {-2, 1.5}}; int w = c.choose(5); r.oy = W[w][0]; r.oz = W[w][1]; static const double RT[3] = {0.02, 0, 0.3}; r.rate = RT[c.choose(3)]; r.xi = 0.3; r.cycles = 1 + c.choose(th ? 14 : 8); int law = c.choose(9); const Law& L = LAWS[law]; if (!L.on) c.prune(); r.dt = 0.1; r.before = (q.relabel + w) % 2; S key = prepare(c, q, L, r); Sim s; End z; S why; c.check(run(s, q, L, r, z, why), key, why); std::vector<Pair> ps; if (!pairsOf(q, z.rank, ps)) c.prune();
    std::vector<char> far(q.x.size(), 0); for (size_t e = 0; e < q.e.size(); e++) { double m = 0; for (int g : q.e[e]) m += q.x[g][0] / 8; if (m > r.xi) for (int g : q.e[e]) far[g] = 1; } auto place = [&](double t, std::vector<V3>& x) { double a = r.oy * t, g = r.oz * t; x.resize(q.x.size()); for (size_t i = 0; i < x.size(); i++) { V3 p = q.x[i]; if (far[i]) p[0] += r.rate * t; V3 y{std::cos(a) * p[0] + std::sin(a) * p[2], p[1], -std::sin(a) * p[0] + std::cos(a) * p[2]}; x[i] = {std::cos(g) * y[0] - std::sin(g) * y[1], std::sin(g) * y[0] + std::cos(g) * y[1], y[2]}; } };
    // the opening as the nodes stand is that of the path; turning leaves the law alone, so the forces are those of the untwisted motion, turned
    std::vector<V3> x, y, v(q.x.size()), F; double t = 0; for (int cy = 0; cy < r.cycles; cy++) { place(t, x); place(t + r.dt, y); for (size_t g = 0; g < x.size(); g++) for (int d = 0; d < 3; d++) v[g][d] = (y[g][d] - x[g][d]) / r.dt; if (!forces(L, ps, x, v, r.dt, true, F)) c.prune(); t += r.dt; }
    c.step(r.cycles); c.evals(); c.state(hash(key)); for (size_t g = 0; g < x.size(); g++) for (int d = 0; d < 3; d++) { c.check(std::fabs(z.x[g][d] - x[g][d]) <= 1e-10, key, "node " + std::to_string(g) + ": position " + vec({z.x[g][0], z.x[g][1], z.x[g][2]}) + " instead of " + vec({x[g][0], x[g][1], x[g][2]})); c.check(std::fabs(z.v[g][d] - v[g][d]) <= 1e-9, key, "node " + std::to_string(g) + ": velocity"); c.check(std::fabs(z.f[g][d] - F[g][d]) <= 1e-8, key, "node " + std::to_string(g) + ": force " + vec({z.f[g][0], z.f[g][1], z.f[g][2]}) + " instead of " + vec({F[g][0], F[g][1], F[g][2]})); } c.validated(); }
int main(int a, char** b) { return main_(a, b, "fracture", {{"drift", drift, 5}, {"stiff", stiff, 5}, {"almost", almost, 5}, {"turning", turning, 5}}); }
