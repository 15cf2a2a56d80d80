// Contact between bodies: every way of meeting, orientation and numbering; impulses against the solution of the contact problem.
#include "bodies.hpp"
using namespace mp;
MP_EXIT
// a body: a box of elements in the frame of the contact (the contact plane is z = 0)
struct Body { int n[3]; double h[3], o[3], rho; V3 v; M9 R{1, 0, 0, 0, 1, 0, 0, 0, 1}; std::vector<int> id; V3 at(int i, int j, int k) const { V3 p = mul(R, {h[0] * i, h[1] * j, h[2] * k}); for (int d = 0; d < 3; d++) p[d] += o[d]; return p; } int el(int i, int j, int k) const { return i + n[0] * (j + n[1] * k); } int node(int i, int j, int k) const { return i + (n[0] + 1) * (j + (n[1] + 1) * k); } int nodes() const { return (n[0] + 1) * (n[1] + 1) * (n[2] + 1); } };
struct Scene { std::vector<Body> b; M9 Q; V3 T; int relabel = 0, number = 0; double sie = 0, dt = 0.005; int rk = 1, cycles = 1; bool diss = false; std::vector<V3> x, v; std::vector<std::vector<int>> e; std::vector<int> body; };
static void number(Scene& s) { int N = 0; for (auto& b : s.b) N += b.nodes(); int st = 1; if (s.number == 2) for (int q = 2; q < N; q++) if (std::gcd(q, N) == 1) { st = q; if (q * 2 > N) break; } s.x.assign(N, {}); s.v.assign(N, {}); s.body.assign(N, 0); s.e.clear(); int g = 0; for (size_t q = 0; q < s.b.size(); q++) { auto& b = s.b[q]; b.id.clear(); for (int i = 0; i < b.nodes(); i++, g++) b.id.push_back(s.number == 0 ? g : s.number == 1 ? N - 1 - g : (g * st + 1) % N);
        for (int k = 0; k <= b.n[2]; k++) for (int j = 0; j <= b.n[1]; j++) for (int i = 0; i <= b.n[0]; i++) { int id = b.id[b.node(i, j, k)]; s.x[id] = mul(s.Q, b.at(i, j, k)); for (int d = 0; d < 3; d++) s.x[id][d] += s.T[d]; s.v[id] = mul(s.Q, b.v); s.body[id] = q; }
        for (int k = 0; k < b.n[2]; k++) for (int j = 0; j < b.n[1]; j++) for (int i = 0; i < b.n[0]; i++) { auto& R = relabelled(s.relabel, s.e.size()); std::vector<int> v; for (int l = 0; l < 8; l++) { V3 c{(l & 1) - 0.5, (l >> 1 & 1) - 0.5, (l >> 2) - 0.5}; V3 y = mul(R, c); v.push_back(b.id[b.node(i + (y[0] > 0), j + (y[1] > 0), k + (y[2] > 0))]); } s.e.push_back(v); } }
    if (s.number) std::reverse(s.e.begin(), s.e.end()); }
static S vtk(const Scene& s) { return vtkmesh(s.x, s.e); }
static S deckOf(const Scene& s, bool contact) { S reg = regionOf(GLOBAL, 0, uniform("density", 1) + uniform("specific_internal_energy", s.sie) + cartesian(0, 0, 0)); return dynamics(100, s.cycles, s.dt, s.dt, s.dt, s.rk) + filemesh(scratch() + "/bodies.vtk", 3) + outputs("state", 1e30) + "solver_options:\n" + solver("dynx_FE") + "boundary_conditions:\n    - boundary_condition:\n        solver_id: 0\n        surface:\n            type: global\n" + (contact ? "        stress_model: global_contact\n        contact_bc_vars:\n            - 500\n            - 400\n" : "        stress_model: none\n") + "materials:\n" + gas(0, 1.4, 1e-9, 1, s.diss ? "MARS" : "") + "regions:\n" + reg; }
struct End { std::vector<V3> x, v; std::vector<double> m, den, sie; };
static bool run(Sim& s, const Scene& c, bool contact, End& r, S& why) { simulate(s, deckOf(c, contact), SETUP); if (!s.out.ok) { why = "refused: " + s.out.what; return false; } auto& n = s.st().node; auto& P = s.st().MaterialPoints; auto& mm = s.st().MaterialToMeshMaps; auto& M = s.mesh();
    for (size_t g = 0; g < c.x.size(); g++) for (int d = 0; d < 3; d++) { n.vel.host(g, d) = c.v[g][d]; n.vel_n0.host(g, d) = c.v[g][d]; } n.vel.update_device(); n.vel_n0.update_device();
    n.mass.update_host(); P.den.update_host(); P.mass.update_host(); P.pres.update_host();   // densities by body (masses of points and nodes alike)
    for (size_t l = 0; l < mm.num_mat_elems.host(0); l++) { size_t e = mm.elem_in_mat_elem.host(0, l); double f = c.b[c.body[M.nodes_in_elem.host(e, 0)]].rho; P.den.host(0, l) *= f; P.mass.host(0, l) *= f; } for (size_t g = 0; g < c.x.size(); g++) n.mass.host(g) *= c.b[c.body[g]].rho; P.den.update_device(); P.mass.update_device(); n.mass.update_device();
    for (size_t l = 0; l < mm.num_mat_elems.host(0); l++) { P.pres.host(0, l) *= c.b[c.body[M.nodes_in_elem.host(mm.elem_in_mat_elem.host(0, l), 0)]].rho; } P.pres.update_device();
    r.m.clear(); for (size_t g = 0; g < c.x.size(); g++) r.m.push_back(n.mass.host(g)); Outcome o = guarded([&] { s.d->execute(); }); if (!o.ok) { why = "the run ends with " + o.what; return false; } n.coords.update_host(); n.vel.update_host(); P.den.update_host(); P.sie.update_host(); r.x.assign(c.x.size(), {}); r.v = r.x; for (size_t g = 0; g < c.x.size(); g++) for (int d = 0; d < 3; d++) { r.x[g][d] = n.coords.host(g, d); r.v[g][d] = n.vel.host(g, d); } r.den.clear(); r.sie.clear(); for (size_t l = 0; l < mm.num_mat_elems.host(0); l++) { r.den.push_back(P.den.host(0, l)); r.sie.push_back(P.sie.host(0, l)); } return true; }
static V3 back(const Scene& s, const V3& x, bool pos) { V3 y, r{0, 0, 0}; for (int d = 0; d < 3; d++) y[d] = x[d] - (pos ? s.T[d] : 0); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[i] += s.Q[3 * j + i] * y[j]; return r; }
// one step: the motion without contact, corrected by the least push (kinetic energy) that keeps the faces apart
struct Con { std::vector<std::pair<int, double>> w; double g; };
static bool faces(const Scene& s, const End& f, std::vector<Con>& cs) { auto& A = s.b[0]; auto& B = s.b[1]; std::vector<V3> x; for (auto& p : f.x) x.push_back(back(s, p, true));
    double gap = B.o[2]; double ea = std::min(A.h[0], A.h[1]), eb = std::min(B.h[0], B.h[1]);
    // nodes of P on the face of R: sign +1 if R is below
    auto pass = [&](const Body& P, int kp, const Body& R, int kr, double sg, double er) -> bool { if (std::fabs(gap) > 0.1 * er) return true; for (int j = 0; j <= P.n[1]; j++) for (int i = 0; i <= P.n[0]; i++) { double lat[2] = {P.o[0] + P.h[0] * i, P.o[1] + P.h[1] * j}; bool in = true; for (int d = 0; d < 2; d++) { double lo = lat[d] - R.o[d], hi = R.o[d] + R.n[d] * R.h[d] - lat[d]; in &= lo > -1e-9 && hi > -1e-9; double q = std::min(std::fabs(lo), std::fabs(hi)); if (q > 1e-9 && q < 0.12 * std::max(R.h[d], P.h[d])) return false; } if (!in) continue; int g = P.id[P.node(i, j, kp)];
            for (int b = 0; b < R.n[1]; b++) for (int a = 0; a < R.n[0]; a++) { double u0 = (lat[0] - R.o[0]) / R.h[0] - a, w0 = (lat[1] - R.o[1]) / R.h[1] - b; if (u0 < -1e-9 || u0 > 1 + 1e-9 || w0 < -1e-9 || w0 > 1 + 1e-9) continue; int c00 = R.id[R.node(a, b, kr)], c10 = R.id[R.node(a + 1, b, kr)], c01 = R.id[R.node(a, b + 1, kr)], c11 = R.id[R.node(a + 1, b + 1, kr)]; double u = (x[g][0] - x[c00][0]) / (x[c10][0] - x[c00][0]), w = (x[g][1] - x[c00][1]) / (x[c01][1] - x[c00][1]); Con c; c.w = {{g, sg}, {c00, -sg * (1 - u) * (1 - w)}, {c10, -sg * u * (1 - w)}, {c01, -sg * (1 - u) * w}, {c11, -sg * u * w}}; c.g = 0; for (auto& [n, k] : c.w) c.g += k * x[n][2]; cs.push_back(c); } } return true; };
    return pass(B, 0, A, A.n[2], 1, ea) && pass(A, A.n[2], B, 0, -1, eb); }
// the lowest nodes of a tilted body over the face of the first
static bool corners(const Scene& s, const End& f, std::vector<Con>& cs) { auto &R = s.b[0], &P = s.b[1]; std::vector<V3> x; for (auto& p : f.x) x.push_back(back(s, p, true)); for (int k = 0; k <= P.n[2]; k++) for (int j = 0; j <= P.n[1]; j++) for (int i = 0; i <= P.n[0]; i++) { V3 p = P.at(i, j, k); double e = std::min(R.h[0], R.h[1]); if (p[2] > 0.1 * e) { if (p[2] < 0.12 * e) return false; continue; } double U = (p[0] - R.o[0]) / R.h[0], W = (p[1] - R.o[1]) / R.h[1]; if (U < 0.15 || W < 0.15 || U > R.n[0] - 0.15 || W > R.n[1] - 0.15) return false; int a = U, b = W, kr = R.n[2], g = P.id[P.node(i, j, k)]; int c00 = R.id[R.node(a, b, kr)], c10 = R.id[R.node(a + 1, b, kr)], c01 = R.id[R.node(a, b + 1, kr)], c11 = R.id[R.node(a + 1, b + 1, kr)]; double u = (x[g][0] - x[c00][0]) / (x[c10][0] - x[c00][0]), w = (x[g][1] - x[c00][1]) / (x[c01][1] - x[c00][1]); if (U - a < 0.02 || W - b < 0.02 || U - a > 0.98 || W - b > 0.98) return false; Con c; c.w = {{g, 1}, {c00, -(1 - u) * (1 - w)}, {c10, -u * (1 - w)}, {c01, -(1 - u) * w}, {c11, -u * w}}; c.g = 0; for (auto& [n, q] : c.w) c.g += q * x[n][2]; cs.push_back(c); } return true; }
static void solve(const Scene& s, const End& f, const std::vector<Con>& cs, End& r, bool& any) { any = false; std::vector<double> lam(cs.size(), 0), dz(s.x.size(), 0); double h2 = 0.5 * s.dt * s.dt; for (int it = 0; it < 200000; it++) { double ch = 0; for (size_t i = 0; i < cs.size(); i++) { double g = cs[i].g, k = 0; for (auto& [n, w] : cs[i].w) { g += w * dz[n]; k += w * w / f.m[n] * h2; } double l = std::max(0.0, lam[i] - g / k), dl = l - lam[i]; lam[i] = l; if (dl) for (auto& [n, w] : cs[i].w) dz[n] += dl * w / f.m[n] * h2; ch = std::max(ch, std::fabs(dl * k)); } if (ch < 1e-13) break; }
    r = f; for (size_t g = 0; g < s.x.size(); g++) { if (dz[g]) any = true; V3 n = mul(s.Q, {0, 0, 1}); for (int d = 0; d < 3; d++) { r.x[g][d] += dz[g] * n[d]; r.v[g][d] += 2 * dz[g] / s.dt * n[d]; } } }
static S where(const Scene& s, int g) { V3 p = back(s, s.x[g], true); return "node " + std::to_string(g) + " at (" + num(p[0]) + " " + num(p[1]) + " " + num(p[2]) + ") of body " + std::to_string(s.body[g]); }
static S show(const Scene& s) { std::ostringstream o; for (auto& b : s.b) { o << b.n[0] << "x" << b.n[1] << "x" << b.n[2] << " elements of " << b.h[0] << " " << b.h[1] << " " << b.h[2] << " from " << b.o[0] << " " << b.o[1] << " " << b.o[2] << " density " << b.rho << " velocity " << b.v[0] << " " << b.v[1] << " " << b.v[2] << "; "; } o << "rotation"; for (double q : s.Q) o << " " << num(q); o << " shift " << s.T[0] << " local numbering " << s.relabel << " numbering " << s.number << " energy " << s.sie << " dt " << s.dt << " stages " << s.rk << " cycles " << s.cycles << " dissipation " << s.diss; return o.str(); }
static const int SZ[5][3] = {{1, 1, 1}, {2, 1, 1}, {1, 2, 2}, {2, 2, 1}, {3, 2, 1}};
static const double OF[5][2] = {{0, 0}, {0.35, 0.3}, {-0.4, 0.5}, {0.5, -0.6}, {0.27, 0}};
static void bodies(Ctx& c, Scene& s, int sizes) { Body a, b; int p = c.choose(sizes), q = c.choose(sizes); for (int d = 0; d < 3; d++) { a.n[d] = SZ[p][d]; b.n[d] = SZ[q][d]; } double k = c.flip() ? 0.7 : 1; a.h[0] = 1; a.h[1] = 0.9; a.h[2] = 0.8; for (int d = 0; d < 3; d++) b.h[d] = k * a.h[d]; a.o[0] = a.o[1] = 0; a.o[2] = -a.n[2] * a.h[2]; b.o[0] = b.o[1] = b.o[2] = 0; a.rho = 1; b.rho = c.flip() ? 3 : 1; s.b = {a, b}; }
static void pose(Ctx& c, Scene& s, bool th) { static const int O[5] = {0, 7, 14, 24, 25}; int o = th ? c.choose(27) : O[c.choose(5)]; s.Q = orient(o); s.T = o % 2 ? V3{-2, 3, 5} : V3{0, 0, 0}; s.relabel = th ? std::array<int, 4>{0, 11, 18, 25}[c.choose(4)] : (o * 7 + s.b[0].n[0] * 5 + s.b[1].n[1] * 3) % 26; s.number = (o + s.relabel) % 3; }
static const V3 VV[6] = {{0, 0, -0.2}, {0.11, 0.07, -0.2}, {0.1, -0.1, 0.15}, {0.2, 0.1, 0}, {0, 0, -0.02}, {0, 0, 0}};
static void move(Scene& s, int k) { V3 w = s.number ? V3{0.3, -0.2, 0.1} : V3{0, 0, 0}; for (size_t b = 0; b < s.b.size(); b++) for (int d = 0; d < 3; d++) s.b[b].v[d] = w[d] + (b == 1) * VV[k][d]; }
static S vtkof(Ctx& c, Scene& s) { number(s); S key = show(s); c.key(key); c.note(key); put(scratch() + "/bodies.vtk", vtk(s)); return key; }
static void push(Ctx& c, Scene& s, bool tilted) {
    S key = vtkof(c, s); Sim f, g; End F, R, G_; S why; c.check(run(f, s, false, F, why), key, why); std::vector<Con> cs; bool any; if (!(tilted ? corners(s, F, cs) : faces(s, F, cs))) c.prune(); solve(s, F, cs, R, any); c.check(run(g, s, true, G_, why), key, why); c.step(2); c.evals(); c.state(hash(key)); double sc = 0; for (size_t n = 0; n < s.x.size(); n++) for (int d = 0; d < 3; d++) sc = std::max(sc, std::fabs(R.v[n][d] - F.v[n][d]));
    double tol = 0.01 * sc + (any ? 2e-4 : 1e-9); for (size_t n = 0; n < s.x.size(); n++) for (int d = 0; d < 3; d++) { c.check(std::fabs(G_.v[n][d] - R.v[n][d]) <= tol, key, where(s, n) + ": velocity " + vec({G_.v[n][0], G_.v[n][1], G_.v[n][2]}) + " instead of " + vec({R.v[n][0], R.v[n][1], R.v[n][2]}) + " (without contact " + vec({F.v[n][0], F.v[n][1], F.v[n][2]}) + ")"); c.check(std::fabs(G_.x[n][d] - R.x[n][d]) <= tol * s.dt, key, where(s, n) + ": position"); } c.validated(); }
// one step of two bodies in touch or nearly so
static void touch(Ctx& c) { Scene s; bool th = c.thorough; bodies(c, s, th ? 5 : 3); int of = c.choose(5); s.b[1].o[0] = OF[of][0]; s.b[1].o[1] = OF[of][1]; static const double G[4] = {0, 5e-4, -2e-4, 0.04}; s.b[1].o[2] = G[c.choose(4)]; int k = c.choose(6); pose(c, s, th); move(s, k); s.sie = s.relabel % 2 ? 1e-3 : 0; 
    push(c, s, false); }
// the same with the second body tilted: a corner or an edge meets the face
static void corner(Ctx& c) { Scene s; bool th = c.thorough; bodies(c, s, th ? 4 : 3); static const double P[5][2] = {{0.5, 0.4}, {0.3, 0.6}, {1.4, 0.35}, {0.25, 1.3}, {0.8, 0.7}}; static const double Z[3] = {0, 5e-4, -2e-4}; static const double W[5][3] = {{0.3, 0, 0.6}, {0, 0.4, 0.5}, {0.4, -0.5, 0.2}, {1.1, 0.2, 0}, {-0.2, 0.1, 0.15}}; auto& b = s.b[1]; int t = c.choose(5), p = c.choose(5); b.R = turn(W[t][0], W[t][1], W[t][2]); if (t == 3) b.R = turn(0.3, 0, 0.7); 
    // lowest corner at the chosen place
    double lo = 9; V3 m{}; for (int k = 0; k < 8; k++) { V3 q = b.at(k & 1 ? b.n[0] : 0, k & 2 ? b.n[1] : 0, k & 4 ? b.n[2] : 0); if (q[2] < lo - 1e-9) { lo = q[2]; m = q; } } double z = Z[c.choose(3)]; b.o[0] += P[p][0] - m[0]; b.o[1] += P[p][1] - m[1]; b.o[2] += z - m[2]; int k = c.choose(6); pose(c, s, th); move(s, k); s.sie = s.relabel % 2 ? 1e-3 : 0; push(c, s, true); }
// bodies that do not meet move as if contact were off
static void apart(Ctx& c) { Scene s; bool th = c.thorough; bodies(c, s, th ? 5 : 4); static const double W[5][3] = {{0.1, 0.2, 0.25}, {3.5, 0, 0}, {0.2, 3.1, -0.3}, {0, 0, 0}, {0.3, 0.2, 5e-4}}; int w = c.choose(5); for (int d = 0; d < 3; d++) s.b[1].o[d] = W[w][d]; int k = w > 2 ? 2 : c.choose(6); s.rk = 1 + c.choose(2); s.cycles = 3; s.diss = s.rk > 1; pose(c, s, th); move(s, k); s.sie = 1e-4;
    S key = vtkof(c, s); Sim f, g; End F, G_; S why; c.check(run(f, s, false, F, why), key, why); c.check(run(g, s, true, G_, why), key, why); c.step(6); c.evals(); c.state(hash(key)); for (size_t n = 0; n < s.x.size(); n++) for (int d = 0; d < 3; d++) { c.check(G_.v[n][d] == F.v[n][d], key, where(s, n) + ": velocity " + vec({G_.v[n][0], G_.v[n][1], G_.v[n][2]}) + " although nothing is near (without contact " + vec({F.v[n][0], F.v[n][1], F.v[n][2]}) + ")"); c.check(G_.x[n][d] == F.x[n][d], key, where(s, n) + ": position"); } for (size_t e = 0; e < F.den.size(); e++) c.check(G_.den[e] == F.den[e] && G_.sie[e] == F.sie[e], key, "state of element " + std::to_string(e)); c.validated(); }
// collisions of two or three bodies over many steps: momentum stays, bodies end on their own sides
static void collide(Ctx& c) { Scene s; bool th = c.thorough; bodies(c, s, th ? 5 : 3); int of = c.choose(th ? 5 : 3); s.b[1].o[0] = OF[of][0]; s.b[1].o[1] = OF[of][1]; s.b[1].o[2] = c.flip() ? 5e-4 : 0; int k = c.choose(2); if (c.flip()) { Body t = s.b[0]; t.o[0] = s.b[1].o[0] + 0.2; t.o[1] = s.b[1].o[1] - 0.25; t.o[2] = s.b[1].o[2] + s.b[1].n[2] * s.b[1].h[2]; t.rho = 2; s.b.push_back(t); } s.rk = 1 + c.choose(2); s.cycles = th ? 12 : 5; s.diss = c.flip(); pose(c, s, th); move(s, k); s.sie = 1e-4;
    S key = vtkof(c, s); Sim g; End G_; S why; c.check(run(g, s, true, G_, why), key, why); c.step(s.cycles); c.evals(); c.state(hash(key)); for (int d = 0; d < 3; d++) { double p0 = 0, p1 = 0, sc = 0; for (size_t n = 0; n < s.x.size(); n++) { p0 += G_.m[n] * s.v[n][d]; p1 += G_.m[n] * G_.v[n][d]; sc += G_.m[n] * 0.4; } c.check(std::fabs(p1 - p0) <= 1e-11 * sc, key, "momentum " + num(p1) + " instead of " + num(p0)); }
    // no node deeper in another body than the step's tolerance
    for (size_t b = 0; b + 1 < s.b.size(); b++) { auto &A = s.b[b], &B = s.b[b + 1]; double top = -9, bot = 9; double lo[2], hi[2]; for (int d = 0; d < 2; d++) { lo[d] = std::max(A.o[d], B.o[d]) - 1e-9; hi[d] = std::min(A.o[d] + A.n[d] * A.h[d], B.o[d] + B.n[d] * B.h[d]) + 1e-9; } for (auto* q : {&A, &B}) for (int j = 0; j <= q->n[1]; j++) for (int i = 0; i <= q->n[0]; i++) { double x = q->o[0] + i * q->h[0], y = q->o[1] + j * q->h[1]; if (x < lo[0] || x > hi[0] || y < lo[1] || y > hi[1]) continue; V3 p = back(s, G_.x[q->id[q->node(i, j, q == &A ? A.n[2] : 0)]], true); if (q == &A) top = std::max(top, p[2]); else bot = std::min(bot, p[2]); } if (top > -9 && bot < 9) c.check(bot > top - 2e-3, key, "body " + std::to_string(b + 1) + " at " + num(bot) + " under the top of body " + std::to_string(b) + " at " + num(top)); }
    c.validated(); }
int main(int a, char** b) { return main_(a, b, "contact", {{"touch", touch, 5}, {"corner", corner, 5}, {"apart", apart, 5}, {"collide", collide, 5}}); }
