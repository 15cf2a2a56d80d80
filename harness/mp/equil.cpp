// Tipton equilibration of mixed elements: every stage against a direct evaluation, and what it must conserve.
#include "sghcase.hpp"
using namespace mp;
MP_EXIT
static S section(const S& what, const double v[2]) { return "    " + what + "_equilibration_model: tipton\n" + list(what + "_equilibration_global_vars", {v[0], v[1]}, 4); }
// how the fractions lie: 0 material fractions as filled, 1 geometric fractions with every material fraction one, 2 both (not adding up)
static void run(Ctx& c, bool cons, bool th) {
    static const int M3[4][3] = {{1, 1, 1}, {2, 1, 1}, {2, 2, 1}, {2, 2, 2}}; static const double LIM[6] = {0.05, 0.9, 0.4, 3, 0, -1}, CO[3] = {0.25, 1, 40}; static const int MX[7] = {2, 5, 6, 1, 3, 4, 0};
    Case q; q.nd = 3; int m = c.choose(th ? 3 : 2); q.nx = M3[m][0]; q.ny = M3[m][1]; q.nz = M3[m][2]; q.L[0] = 0.8 * q.nx; q.L[1] = 0.5 * q.ny; q.L[2] = 0.6 * q.nz; q.O[0] = -0.3; q.O[1] = 0.2; q.O[2] = 0; q.dt = 0.01;
    q.mix = MX[c.choose(7)]; if (m == 0 && (q.mix == 1 || q.mix == 6)) c.prune(); if (q.mix == 3 || q.mix == 4) q.ero = 1; q.diss = c.choose(2); q.walls = th || cons ? c.choose(2) : 1 - q.diss; q.rk = 1 + c.choose(th ? 3 : 2); q.cycles = cons ? 6 : 1 + c.choose(th ? 4 : 2); q.lin = c.choose(2); int kind = 2 * c.choose(2), fl = c.choose(NV), lay = c.choose(cons ? 2 : 3), on = 1 + c.choose(3), hot = c.choose(cons ? 2 : 3); double ev[2][2]; int a = c.choose(th || cons ? 6 : 5), b = c.choose(3); if (cons && a == 3) c.prune(); ev[0][0] = LIM[a]; ev[0][1] = CO[b]; ev[1][0] = LIM[on == 3 ? (cons && a == 2 ? 0 : (a + 1) % 6) : a]; ev[1][1] = CO[on == 3 ? (b + 1) % 3 : b]; if (!th && on == 3 && lay < 2) c.prune(); if (!th && !cons && q.rk == 2 && q.cycles == 2) c.prune(); if (cons && (q.mix == 3 || q.mix == 4)) c.prune();
    Ref r; if (on & 1) { q.multi += section("mat", ev[0]); memcpy(r.eqv[0], ev[0], sizeof ev[0]); } if (on & 2) { q.multi += section("geo", ev[1]); memcpy(r.eqv[1], ev[1], sizeof ev[1]); } for (auto& v : r.eqv) if ((&v == &r.eqv[0] ? on & 1 : on & 2) && v[0] < 0) v[0] = 0; // limits are cut to 0..1
    S deck = deckOf(q, r, false), key = deck + "distortion " + std::to_string(kind) + " flow " + std::to_string(fl) + " mixture " + std::to_string(q.mix) + " fractions " + std::to_string(lay) + " energies " + std::to_string(hot); c.key(key); c.note(key); Sim s; simulate(s, deck, SETUP); c.check(s.out.ok, key, "refused: " + s.out.what);
    r.mesh(s.mesh()); for (size_t g = 0; g < r.x.size(); g++) for (int d = 0; d < 3; d++) r.x[g][d] = s.st().node.coords.host(g, d); auto box = r.x; for (auto& x : r.x) distort(x, q, kind); flow(r, q, fl); wallsOf(r, q, box); r.pt.assign(r.mats.size(), {}); r.state(); fill(s, r, q); static const double DEN[3] = {1.3, 0.6, 2};
    for (size_t k = 0; k < r.mats.size(); k++) for (auto& p : r.pt[k]) { if (lay == 0) p.gf = 1; if (lay == 1) { p.gf = p.vf; p.vf = 1; } p.m = DEN[k] * (1 + 0.1 * (p.e % 2)) * r.vol[p.e] * p.vf * p.gf; if (hot == 1) p.sie *= k ? 3 : 0.2; if (hot == 2 && r.mats[k].eos == 0) p.sie = 0.9 * r.vol[p.e] * p.vf * p.gf / (p.m * (r.mats[k].g - 1)); }
    r.state(); r.masses(); imprint(s, r); if (r.bcs) r.bcs(r, 0); double mass0, mom0[3], E0; r.totals(mass0, mom0, E0); Ref r0 = r; Outcome o = guarded([&] { s.d->execute(); }); c.check(o.ok, key, "the run ends with " + o.what); c.step(q.cycles); auto& P = s.st().MaterialPoints; S when = "after " + std::to_string(q.cycles) + " cycles: "; fetch(s); P.geo_volfrac.update_host();
    if (!cons) { for (int n = 0; n < q.cycles; n++) r.step(q.dt, q.rk, n * q.dt); if (!r.fuzzy) { compare(c, key, s, r, when); for (size_t k = 0; k < r.mats.size(); k++) for (size_t i = 0; i < r.pt[k].size(); i++) { auto& p = r.pt[k][i]; S n = " of material " + std::to_string(k) + " in element " + std::to_string(p.e) + " is "; c.check(near(P.volfrac.host(k, i), p.vf, 1e-9), key, when + "volume fraction" + n + num(P.volfrac.host(k, i)) + ", the model gives " + num(p.vf)); c.check(near(P.geo_volfrac.host(k, i), p.gf, 1e-9), key, when + "geometric fraction" + n + num(P.geo_volfrac.host(k, i)) + ", the model gives " + num(p.gf)); } } }
    else { std::vector<double> sum(r.el.size(), 0); double mass = 0, E = 0, mom[3] = {0}, big = 0; for (size_t g = 0; g < r.x.size(); g++) for (int d = 0; d < 3; d++) { double M = s.st().node.mass.host(g), v = s.st().node.vel.host(g, d); E += 0.5 * M * v * v; mom[d] += M * v; big += M * std::fabs(v); }
        for (size_t k = 0; k < r.mats.size(); k++) for (size_t i = 0; i < r.pt[k].size(); i++) { auto& p = r0.pt[k][i]; double f = P.volfrac.host(k, i) * P.geo_volfrac.host(k, i), V = s.st().GaussPoints.vol.host(p.e); S n = " of material " + std::to_string(k) + " in element " + std::to_string(p.e); sum[p.e] += f; mass += P.mass.host(k, i); E += P.mass.host(k, i) * P.sie.host(k, i); c.check(near(P.mass.host(k, i), p.m, 1e-12), key, when + "the mass" + n + " changed"); c.check(f >= 0 && f <= 1 + 1e-12, key, when + "fraction" + n + " is " + num(f)); if (f > 1e-6) c.check(near(P.den.host(k, i) * V * f, p.m, 1e-10), key, when + "density x volume is not the mass" + n); if (p.vf * p.gf == 1) c.check(f == 1, key, when + "the fraction" + n + " was one and is " + num(f)); if (ev[0][0] <= 0 && on == 1) c.check(f == p.vf * p.gf, key, when + "the fraction" + n + " changed although the limit is zero"); }
        for (size_t e = 0; e < sum.size(); e++) c.check(near(sum[e], 1, 1e-11), key, when + "the fractions of element " + std::to_string(e) + " add up to " + num(sum[e])); c.check(near(mass, mass0, 1e-12), key, when + "mass " + num(mass) + " from " + num(mass0)); c.check(near(E, E0, 1e-10), key, when + "total energy " + num(E) + " from " + num(E0)); if (!q.walls) for (int d = 0; d < 3; d++) c.check(near(mom[d], mom0[d], 1e-11, 1 + big), key, when + "momentum " + num(mom[d]) + " from " + num(mom0[d])); c.evals(4 + sum.size()); }
    c.state(hash(key)); c.validated(); }
int main(int argc, char** argv) { bool th = false; for (int i = 1; i < argc; i++) th |= !strcmp(argv[i], "--thorough");
    return main_(argc, argv, "EQ", {{"step", [th](Ctx& c) { run(c, false, th); }, 5}, {"conserve", [th](Ctx& c) { run(c, true, th); }, 5}}); }
