// Hydrodynamics: every cycle against a direct evaluation of the equations, conservation of mass, momentum and energy, and the state after setup.
#include "sghcase.hpp"
using namespace mp;
MP_EXIT
static bool pick(Ctx& c, Case& q, int nd, bool th, bool cons) {
    static const int M3[4][3] = {{1, 1, 1}, {2, 1, 1}, {2, 2, 1}, {2, 2, 2}}, M2[4][2] = {{1, 1}, {2, 1}, {2, 2}, {3, 2}}; q.nd = nd; int m = c.choose(th ? 4 : 3); if (nd == 3) { q.nx = M3[m][0]; q.ny = M3[m][1]; q.nz = M3[m][2]; } else { q.nx = M2[m][0]; q.ny = M2[m][1]; q.nz = 1; } q.L[0] = 0.8 * q.nx; q.L[1] = 0.5 * q.ny; q.L[2] = nd == 3 ? 0.6 * q.nz : 0; q.O[0] = -0.3; q.O[1] = 0.2; q.O[2] = 0; if (nd == 2 && c.flip()) q.O[1] = 0;
    q.mix = c.choose(m ? 7 : 5); q.diss = c.choose(th ? 5 : 4); q.walls = c.choose(2); q.rk = 1 + c.choose(th ? 3 : 2); q.cycles = cons ? th ? 25 : 8 : 1 + c.choose(th ? 3 : 2); q.dt = 0.01; return true; }
static void run(Ctx& c, int nd, bool th, bool cons) {
    Case q; pick(c, q, nd, th, cons); int kind = c.choose(3), dir = q.diss && (th || q.mix < 2) ? c.choose(2) : 0; int nodes = (q.nx + 1) * (q.ny + 1) * (nd == 3 ? q.nz + 1 : 1), single = (cons || (q.mix > 2 && !th) || q.cycles > 1) ? 0 : nodes * nd; int k = c.choose(NV + single); if (k == 0 && kind == 0 && !th) c.prune();
    Ref r; S deck = deckOf(q, r, dir); S key = deck + "distortion " + std::to_string(kind) + " flow " + std::to_string(k) + " mixture " + std::to_string(q.mix); c.key(key); c.note(key); Sim s; simulate(s, deck, SETUP); c.check(s.out.ok, key, "refused: " + s.out.what);
    r.mesh(s.mesh()); for (size_t g = 0; g < r.x.size(); g++) for (int d = 0; d < nd; d++) r.x[g][d] = s.st().node.coords.host(g, d); auto box = r.x; for (auto& x : r.x) distort(x, q, kind); flow(r, q, k); wallsOf(r, q, box); r.pt.assign(r.mats.size(), {}); r.state(); fill(s, r, q); r.state(); r.masses(); imprint(s, r); if (r.bcs) r.bcs(r, 0); if (nd == 2) { /* extensive masses are set when the run starts */ }
    double mass0, mom0[3], E0; r.totals(mass0, mom0, E0); Outcome o = guarded([&] { s.d->execute(); }); c.check(o.ok, key, "the run ends with " + o.what); c.step(q.cycles);
    if (!cons) { for (int n = 0; n < q.cycles; n++) r.step(q.dt, q.rk, n * q.dt); if (!r.fuzzy) compare(c, key, s, r, "after " + std::to_string(q.cycles) + " cycles"); }
    else { fetch(s); auto& P = s.st().MaterialPoints; double mass = 0, mom[3] = {0}, E = 0, nm = 0, big = 0; Ref r0 = r; for (size_t g = 0; g < r.x.size(); g++) { double M = s.st().node.mass.host(g) * (nd == 2 ? s.st().node.coords.host(g, 1) : 1); nm += M; for (int d = 0; d < nd; d++) { double v = s.st().node.vel.host(g, d); mom[d] += M * v; E += 0.5 * M * v * v; big += M * std::fabs(v); } } for (size_t m = 0; m < r.mats.size(); m++) for (size_t i = 0; i < r.pt[m].size(); i++) { mass += P.mass.host(m, i); E += P.mass.host(m, i) * P.sie.host(m, i); c.check(near(P.mass.host(m, i), r.pt[m][i].m, 1e-12), key, "the mass of a material in an element changed"); double vf = P.volfrac.host(m, i) * r.pt[m][i].gf, V = s.st().GaussPoints.vol.host(r.pt[m][i].e); c.check(near(P.den.host(m, i) * V * vf, r.pt[m][i].m, 1e-10), key, "density x volume is not the mass of the material"); }
        double nm0 = 0; for (double x : r0.M) nm0 += x; c.check(near(mass, mass0, 1e-12), key, "mass " + num(mass) + " from " + num(mass0)); c.check(near(nm, nm0, 1e-11), key, "mass of the nodes " + num(nm) + " from " + num(nm0)); if (nd == 3 || kind < 3) c.check(near(nm, mass, 1e-11), key, "the nodes weigh " + num(nm) + ", the materials " + num(mass)); c.check(near(E, E0, 1e-11), key, "total energy " + num(E) + " from " + num(E0)); if (nd == 3 && !q.walls) for (int d = 0; d < 3; d++) c.check(near(mom[d], mom0[d], 1e-11, 1 + big), key, "momentum " + std::to_string(d) + " is " + num(mom[d]) + " from " + num(mom0[d])); c.evals(5); }
    c.state(hash(key)); c.validated(); }
// after setup: densities, energies and masses from the deck, pressures, sound speeds, corner and node masses
static void setup(Ctx& c, int nd, bool th) {
    Case q; pick(c, q, nd, true, true); if (q.walls || q.diss > 1) c.prune(); q.lin = c.choose(2); q.str = nd == 3 ? c.choose(2) : 0; q.O[0] = c.flip() ? -0.3 : 0; Ref r; S deck = deckOf(q, r, false); c.key(deck); c.note(deck); Sim s; simulate(s, deck, SETUP); c.check(s.out.ok, deck, "refused: " + s.out.what); r.mesh(s.mesh()); for (size_t g = 0; g < r.x.size(); g++) for (int d = 0; d < nd; d++) r.x[g][d] = s.st().node.coords.host(g, d); r.pt.assign(r.mats.size(), {}); r.state(); fill(s, r, q);
    double mid = q.O[0] + q.L[0] * (q.nx > 1 ? 0.4 : 2); bool mixed = false; for (size_t k = 0; k < r.mats.size(); k++) for (auto& p : r.pt[k]) { double cx = 0; for (size_t g : r.el[p.e]) cx += r.x[g][0] / r.nn; bool half = cx > mid && (q.mix == 1 || q.mix == 6); p.gf = 1; p.gone = false; p.sie = sie0(k, half); p.m = den0(k, half) * r.vol[p.e] * p.vf; mixed |= p.vf < 1; double want = q.mix == 1 ? 1 : q.mix == 5 ? (k == 2 ? 0.4 : 0.3) : q.mix == 6 ? (half ? (k ? 0.6 : 0.4) : 1) : q.mix == 0 ? 1 : (k ? 0.7 : 0.3); c.check(near(p.vf, want), deck, "volume fraction " + num(p.vf) + ", filled with " + num(want)); }
    r.state(); r.masses(); auto& st = s.st(); st.corner.mass.update_host(); st.node.mass.update_host(); std::vector<double> wrong(r.x.size(), 0), right = r.m; std::vector<double> cm(st.corner.mass.dims(0), 0), cw = cm; // the unweighted masses of a listed finding
    for (size_t k = 0; k < r.mats.size(); k++) for (auto& p : r.pt[k]) { double w[4]; if (nd == 2) r.corners(p.e, w); for (int n = 0; n < r.nn; n++) { size_t g = s.mesh().corners_in_elem(p.e, n); if (nd == 3) cm[g] += p.m / 8; else { cm[g] += p.m / r.vol[p.e] * w[n] * r.x[r.el[p.e][n]][1]; cw[g] += p.den * w[n] * r.x[r.el[p.e][n]][1]; wrong[r.el[p.e][n]] += p.den * w[n]; } } }
    bool listed = false; if (nd == 2 && mixed) { bool ok = true, bad = true; for (size_t g = 0; g < right.size(); g++) { ok &= near(st.node.mass.host(g), right[g], 1e-9, 1e-2); bad &= near(st.node.mass.host(g), wrong[g], 1e-9, 1e-2); } if (!ok && bad) { listed = true; r.m = wrong; cm = cw; } }
    compare(c, deck, s, r, "after setup"); for (size_t g = 0; g < cm.size(); g++) c.check(near(st.corner.mass.host(g), cm[g], 1e-9, 1e-2), deck, "mass of corner " + std::to_string(g) + " is " + num(st.corner.mass.host(g)) + ", the equations give " + num(cm[g])); c.evals(cm.size());
    if (listed) c.fail("RZ nodal mass of mixed elements: " + deck, "node 0 weighs " + num(st.node.mass.host(0)) + " per radius, the materials around it " + num(right[0])); c.state(hash(deck)); c.validated(); }
int main(int argc, char** argv) { bool th = false; for (int i = 1; i < argc; i++) th |= !strcmp(argv[i], "--thorough");
    return main_(argc, argv, "SGH", {{"setup3d", [th](Ctx& c) { setup(c, 3, th); }, 2}, {"setuprz", [th](Ctx& c) { setup(c, 2, th); }, 2}, {"step3d", [th](Ctx& c) { run(c, 3, th, false); }, 5}, {"steprz", [th](Ctx& c) { run(c, 2, th, false); }, 5}, {"conserve3d", [th](Ctx& c) { run(c, 3, th, true); }, 5}, {"conserverz", [th](Ctx& c) { run(c, 2, th, true); }, 5}}); }
