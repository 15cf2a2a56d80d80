// The small-strain crystal-plasticity application (EVPFFT) as a whole: every enumerated case is written as input files, run by the
// real program (one process per rank) and every step of it is checked against an independent formulation of the laws.
#include "evp.hpp"
using namespace mc; using namespace evp;
typedef std::array<double, 9> M3;
namespace evp { void capture(EVPFFT& e, StepS& t) { for (int k = 1; k <= e.npts3; k++) for (int j = 1; j <= e.npts2; j++) for (int i = 1; i <= e.npts1; i++) { VoxS& v = t.v[(i - 1 + e.local_start1) + e.npts1_g * ((j - 1 + e.local_start2) + e.npts2_g * (k - 1 + e.local_start3))]; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { int q = 3 * a + b; v.ag[q] = e.ag(a + 1, b + 1, i, j, k); v.sg[q] = e.sg(a + 1, b + 1, i, j, k); v.dg[q] = e.disgrad(a + 1, b + 1, i, j, k); v.vg[q] = e.velgrad(a + 1, b + 1, i, j, k); v.ep[q] = e.edotp(a + 1, b + 1, i, j, k); v.ept[q] = e.ept(a + 1, b + 1, i, j, k); }
    v.ph = e.jphase(i, j, k); v.gr = e.jgrain(i, j, k); v.eul[0] = e.ph_array(i, j, k); v.eul[1] = e.th_array(i, j, k); v.eul[2] = e.om_array(i, j, k); v.ga = e.gacumgr(i, j, k); for (int s = 0; s < e.NSYSMX && s < NS; s++) { v.gd[s] = e.gamdot(s + 1, i, j, k); v.crss[2 * s] = e.crss(s + 1, 1, i, j, k); v.crss[2 * s + 1] = e.crss(s + 1, 2, i, j, k); v.xk[s] = e.xkin(s + 1, i, j, k); } }
    if (g_rank == 0) { mat9(t.sav, e.scauav); mat9(t.sav1, e.scauav1); mat9(t.epav, e.epav); mat9(t.edav, e.edotpav); mat9(t.dma, e.disgradmacroactual); mat9(t.vgm, e.velgradmacro); t.iter = e.iter; t.errs = e.errs; t.erre = e.erre; t.evm = e.evm; t.dvm = e.dvm; t.svm = e.svm; t.svm1 = e.svm1; t.evmp = e.evmp; t.dvmp = e.dvmp; t.tdot = e.tdot; for (int i = 0; i < 3; i++) t.delt[i] = e.delt(i + 1); } } }
// ---- tensors ----
static M3 ld(const double* p) { M3 m; for (int i = 0; i < 9; i++) m[i] = p[i]; return m; }
static M3 mul(const M3& a, const M3& b) { M3 r{}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) r[3 * i + j] += a[3 * i + k] * b[3 * k + j]; return r; }
static M3 tr(const M3& a) { M3 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[3 * i + j] = a[3 * j + i]; return r; }
static M3 sym(const M3& a) { M3 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[3 * i + j] = .5 * (a[3 * i + j] + a[3 * j + i]); return r; }
static M3 skw(const M3& a) { M3 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[3 * i + j] = .5 * (a[3 * i + j] - a[3 * j + i]); return r; }
static M3 lin(double x, const M3& a, double y, const M3& b) { M3 r; for (int i = 0; i < 9; i++) r[i] = x * a[i] + y * b[i]; return r; }
static double dot(const M3& a, const M3& b) { double s = 0; for (int i = 0; i < 9; i++) s += a[i] * b[i]; return s; }
static double nrm(const M3& a) { return std::sqrt(dot(a, a)); }
static M3 dev(const M3& a) { M3 r = a; double t = (a[0] + a[4] + a[8]) / 3; r[0] -= t; r[4] -= t; r[8] -= t; return r; }
static M3 bunge(double p1, double P, double p2) { double d = std::acos(-1.0) / 180; p1 *= d; P *= d; p2 *= d; double c1 = cos(p1), s1 = sin(p1), c = cos(P), s = sin(P), c2 = cos(p2), s2 = sin(p2); return {c1 * c2 - s1 * s2 * c, s1 * c2 + c1 * s2 * c, s2 * s, -c1 * s2 - s1 * c2 * c, -s1 * s2 + c1 * c2 * c, c2 * s, s1 * s, -c1 * s, c}; } // sample -> crystal
static M3 expm(const M3& w) { M3 r = {1, 0, 0, 0, 1, 0, 0, 0, 1}, t = r; for (int n = 1; n < 30; n++) { t = mul(t, w); for (double& x : t) x /= n; for (int i = 0; i < 9; i++) r[i] += t[i]; } return r; }
static const int VO[3][3] = {{0, 5, 4}, {5, 1, 3}, {4, 3, 2}};
static M3 hooke(const Phase& p, const M3& Q, const M3& e) { M3 ec = mul(mul(Q, e), tr(Q)), s{}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) { double C; if (p.iso) { double mu = p.young / (2 * (1 + p.nu)), la = 2 * mu * p.nu / (1 - 2 * p.nu); C = la * (i == j) * (k == l) + mu * ((i == k) * (j == l) + (i == l) * (j == k)); } else C = p.C[VO[i][j]][VO[k][l]]; s[3 * i + j] += C * ec[3 * k + l]; } return mul(mul(tr(Q), s), Q); } // Q: sample -> crystal
struct Slip { double n[3], b[3]; const Mode* m; int mode; };
static vector<Slip> slips(const Phase& p) { vector<Slip> r; if (p.gas) return r; for (const Mode& m : p.modes) { int im = -1; for (size_t a = 0; a < p.active.size(); a++) if (p.active[a] == m.label) im = a; if (im < 0) continue; for (const System& s : m.sys) { Slip q; q.m = &m; q.mode = m.label - 1; if (p.cryst[0] == 'H' || p.cryst[0] == 'h' || p.cryst[0] == 'T' || p.cryst[0] == 't') { double ca = p.cdim[2] / p.cdim[0]; q.n[0] = s.n[0]; q.n[1] = (s.n[0] + 2. * s.n[1]) / std::sqrt(3.); q.n[2] = s.n[3] / ca; q.b[0] = 1.5 * s.b[0]; q.b[1] = (s.b[0] * .5 + s.b[1]) * std::sqrt(3.); q.b[2] = s.b[3] * ca; } else for (int i = 0; i < 3; i++) { q.n[i] = s.n[i] / p.cdim[i]; q.b[i] = s.b[i] * p.cdim[i]; } double x = 0, y = 0; for (int i = 0; i < 3; i++) { x += q.n[i] * q.n[i]; y += q.b[i] * q.b[i]; } for (int i = 0; i < 3; i++) { q.n[i] /= std::sqrt(x); q.b[i] /= std::sqrt(y); } r.push_back(q); } } return r; }
static double voce(const Mode& m, double G) { double t1 = m.t1, h0 = m.h0, h1 = m.h1; if (t1 <= 1e-6) { t1 = 1e-6; h0 = h1; } if (std::fabs(h0) <= 1e-4 * m.tf) return 0; if (std::fabs(t1) <= 1e-4 * m.tf) return h1 * G; return (t1 + h1 * G) * (1 - std::exp(-G * std::fabs(h0 / t1))); }
// ---- the oracle ----
struct Tol { double eq = 2e-5, ex = 1e-9, rate = 2e-5; };
static bool g_measure = getenv("EVP_MEASURE") != nullptr; static std::map<string, double> g_max;
struct Chk { Ctx& c; string what; bool on; void operator()(bool ok, const string& m) { if (on) c.check(ok, what, m); } void rel(const char* name, double err, double scale, double tol) { if (!on) return; double r = scale > 0 ? err / scale : err; if (g_measure) { auto& x = g_max[name]; if (!(r <= x)) { x = r; static FILE* mf = fopen((string(getenv("EVP_MEASURE")) + std::to_string(getpid())).c_str(), "a"); fprintf(mf, "%s @ %.3g @ %s\n", name, r, what.c_str()); fflush(mf); } return; } c.check(r <= tol, what, string(name) + ": relative deviation " + std::to_string(r) + " (" + g17(err) + " of " + g17(scale) + ")"); } };
static string at(int t, int v) { return " [step " + std::to_string(t) + " voxel " + std::to_string(v) + "]"; }
// part: 1 = fields (equilibrium, compatibility, elasticity, boundary conditions, averages), 2 = evolution (flow, hardening, lattice rotation, thermal strains)
static void oracle(Ctx& c, const Case& q, const Outcome& o, const string& what, int part) {
    Chk F{c, what, (part & 1) != 0}, E{c, what, (part & 2) != 0}; Tol T; c.check(o.ok, what, "the run ended with '" + o.what + "', status " + std::to_string(o.exitcode)); c.check(o.s->steps == q.nsteps, what, "steps run"); const StepS* st = o.s->st; int N = q.N(); double dt = q.eqincr; M3 ud; for (int i = 0; i < 9; i++) ud[i] = q.udot[i / 3][i % 3]; if (q.ictrl == 0) dt = q.eqincr / std::sqrt(2. / 3. * dot(dev(sym(ud)), dev(sym(ud))));
    F.rel("time step", std::fabs(st[1].tdot - dt), dt, T.ex); vector<vector<Slip>> sl; for (auto& p : q.phases) sl.push_back(slips(p)); vector<M3> Q0(N), P0; const double pi = std::acos(-1.0);
    for (int v = 0; v < N; v++) { const VoxS& s = st[0].v[v]; const Voxel& x = q.vox[v]; E(s.ph == x.phase && s.gr == x.grain, "grain or phase of a voxel" + at(0, v)); if (q.phases[x.phase - 1].gas) continue; Q0[v] = bunge(x.ph, x.th, x.om); E.rel("initial orientation", nrm(lin(1, ld(s.ag), -1, tr(Q0[v]))), 1, T.ex); auto& L = sl[x.phase - 1]; for (size_t k = 0; k < L.size(); k++) { E.rel("initial strength", std::fabs(s.crss[2 * k] - L[k].m->tf) + std::fabs(s.crss[2 * k + 1] - L[k].m->tb), L[k].m->tf, T.ex); E(s.xk[k] == 0, "back stress before the first step" + at(0, v)); } }
    double SS = 0, SE = 0; for (int t = 1; t <= q.nsteps; t++) for (int v = 0; v < N; v++) { SS = std::max(SS, nrm(ld(st[t].v[v].sg))); SE = std::max(SE, nrm(ld(st[t].v[v].dg))); } F(std::isfinite(SS) && std::isfinite(SE), "non-finite fields"); if (!std::isfinite(SS)) c.fail(what, "non-finite stress");
    double fric = 1e300; for (auto& p : q.phases) if (!p.gas) { M3 e = {1, 0, 0, 0, 0, 0, 0, 0, 0}; fric = std::min(fric, nrm(hooke(p, {1, 0, 0, 0, 1, 0, 0, 0, 1}, e))); } double ES = std::max(SE, SS / fric), SF = std::max(SS, 1e-9 * fric * nrm(ud) * dt); if (SF == 0) SF = 1;
    for (int t = 1; t <= q.nsteps; t++) { const StepS &a = st[t - 1], &b = st[t]; bool thermo1 = q.ithermo == 1 && t == 1; F(b.iter < q.itmax, "the iteration did not converge in step " + std::to_string(t) + ": " + std::to_string(b.iter) + " iterations, stress error " + g17(b.errs));
        double GM = 1e-9 * nrm(ud) + 1e-30; for (int v = 0; v < N; v++) if (!q.phases[q.vox[v].phase - 1].gas) for (double z : b.v[v].gd) GM = std::max(GM, std::fabs(z)); M3 ms{}, ms1{}, mp{}, mpd{}, md{}; int n1 = 0; double wgt = 1. / N;
        for (int v = 0; v < N; v++) { const VoxS &x = a.v[v], &y = b.v[v]; const Phase& p = q.phases[q.vox[v].phase - 1]; auto& L = sl[q.vox[v].phase - 1]; M3 sg = ld(y.sg), ep = ld(y.ep); ms = lin(1, ms, wgt, sg); if (q.vox[v].phase == 1) { ms1 = lin(1, ms1, 1, sg); n1++; } mp = lin(1, mp, wgt, ld(y.ept)); mpd = lin(1, mpd, wgt, ep); md = lin(1, md, wgt, ld(y.dg));
            F.rel("velocity gradient", nrm(lin(1, ld(y.vg), -1 / dt, lin(1, ld(y.dg), -1, ld(x.dg)))), ES / dt, T.ex); if (p.gas) { F(nrm(sg) == 0, "stress in a void" + at(t, v)); E(nrm(ep) == 0, "plastic strain rate in a void" + at(t, v)); for (int i = 0; i < 9; i++) E(y.ept[i] == x.ept[i], "plastic strain in a void" + at(t, v)); continue; }
            F.rel("stress symmetry", nrm(skw(sg)), SF, T.ex); F.rel("elasticity", nrm(lin(1, sg, -1, hooke(p, Q0[v], lin(1, sym(ld(y.dg)), -1, lin(1, ld(x.ept), thermo1 ? 0 : dt, ep))))), SF, T.eq);
            // slip
            M3 R = ld(x.ag), W{}, D{}; double G = 0, gm = GM;
            for (size_t k = 0; k < L.size(); k++) { M3 nb; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) nb[3 * i + j] = L[k].b[i] * L[k].n[j]; nb = mul(mul(R, nb), tr(R)); M3 P = sym(nb); double rss = dot(P, sg) - x.xk[k], cr = rss < 0 ? x.crss[2 * k + 1] : x.crss[2 * k], u = rss / cr, g = L[k].m->gamd0 * std::pow(std::fabs(u), L[k].m->nrs) * (u < 0 ? -1 : 1); if (thermo1) { g = 0; E.rel("back stress", std::fabs(y.xk[k] - dot(P, sg)), SF, T.eq); } else { E.rel("slip rate", std::fabs(y.gd[k] - g), gm, T.rate * L[k].m->nrs); E(y.xk[k] == x.xk[k], "back stress changed" + at(t, v)); g = y.gd[k]; } G += std::fabs(g) * dt; D = lin(1, D, g, P); W = lin(1, W, g, skw(nb)); }
            E.rel("plastic strain rate", nrm(lin(1, ep, -1, D)), std::max(nrm(D), gm), 1e-6); E.rel("plastic strain", nrm(lin(1, ld(y.ept), -1, lin(1, ld(x.ept), dt, ep))), std::max(nrm(ld(y.ept)), 1e-30), T.ex);
            bool hd = q.iuphard == 1 && (q.ithermo != 1 || t > 2), tx = q.iupdate == 1 && (q.ithermo != 1 || t > 1);
            E.rel("accumulated slip", std::fabs(y.ga - (hd ? x.ga + G : x.ga)), std::max(y.ga, 1e-30), T.ex);
            for (size_t k = 0; k < L.size(); k++) { double dV = voce(*L[k].m, x.ga + G) - voce(*L[k].m, x.ga), dtau = 0; for (size_t m = 0; m < L.size(); m++) dtau += (m == k ? L[k].m->self : L[k].m->lat.size() > (size_t)L[m].mode ? L[k].m->lat[L[m].mode] : 1.0) * std::fabs(y.gd[m]) * dt; double inc = hd && G > 0 ? dtau * dV / G : 0; for (int s = 0; s < 2; s++) E.rel("hardening", std::fabs(y.crss[2 * k + s] - x.crss[2 * k + s] - inc), std::max(std::fabs(inc), 1e-7 * x.crss[2 * k + s]), 1e-5); }
            M3 w = lin(1, skw(ld(y.vg)), -1, W); for (double& z : w) z *= dt; M3 an = tx ? mul(expm(w), ld(x.ag)) : ld(x.ag); E.rel("lattice rotation", nrm(lin(1, ld(y.ag), -1, an)), tx ? std::max(nrm(w), 1e-3 * (G + nrm(skw(ld(y.vg))) * dt) + 1e-12) : 1e-9, 1e-4); }
        // macroscopic quantities
        F.rel("average stress", nrm(lin(1, ld(b.sav), -1, ms)), SF, T.ex); for (double& z : ms1) z /= std::max(n1, 1); F.rel("average stress of phase 1", nrm(lin(1, ld(b.sav1), -1, ms1)), SF, T.ex); F.rel("average deformation", nrm(lin(1, ld(b.dma), -1, md)), ES, T.eq); F.rel("average velocity gradient", nrm(lin(1, ld(b.vgm), -1 / dt, lin(1, ld(b.dma), -1, t > 1 ? ld(a.dma) : M3{}))), ES / dt, T.ex);
        F.rel("average plastic strain", nrm(lin(1, ld(b.epav), -1, mp)), std::max(nrm(mp), 1e-12), T.ex); F.rel("average plastic strain rate", nrm(lin(1, ld(b.edav), -1, mpd)), std::max(nrm(mpd), 1e-12), T.ex);
        auto vms = [&](const M3& s) { return std::sqrt(1.5 * dot(dev(s), dev(s))); }; auto vme = [&](const M3& s) { return std::sqrt(2. / 3. * dot(dev(sym(s)), dev(sym(s)))); }; F.rel("equivalent stress", std::fabs(b.svm - vms(ms)), SF, 1e-8); F.rel("equivalent stress of phase 1", std::fabs(b.svm1 - vms(ms1)), SF, 1e-8); F.rel("equivalent strain", std::fabs(b.evm - vme(ld(b.dma))), ES, 1e-8); F.rel("equivalent rate", std::fabs(b.dvm - vme(ld(b.vgm))), ES / dt, 1e-8); if (!q.ithermo) { F.rel("equivalent plastic strain", std::fabs(b.evmp - vme(mp)), std::max(nrm(mp), 1e-12), 1e-7); F.rel("equivalent plastic rate", std::fabs(b.dvmp - vme(mpd)), std::max(nrm(mpd), 1e-12), 1e-7); }
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { int id = VO[i][j]; if (q.iudot[i][j]) F.rel("imposed velocity gradient", std::fabs(b.vgm[3 * i + j] - q.udot[i][j]), std::max(nrm(ud), 1e-30), 1e-7); if (q.iscau[id]) { int lo = std::min(i, j), hi = std::max(i, j); F.rel("imposed stress", std::fabs(b.sav[3 * i + j] - q.scauchy[lo][hi]), SF, 2e-4); } }
        if (q.iupdate == 1 && (q.ithermo != 1 || t > 1)) { for (int i = 0; i < 3; i++) { E(std::isfinite(b.delt[i]), "voxel size is not a number"); if (q.n[i] > 1) E.rel("voxel size", std::fabs(b.delt[i] - a.delt[i] * (1 + b.vgm[4 * i] * dt)), a.delt[i], T.ex); } } else for (int i = 0; i < 3; i++) E(b.delt[i] == a.delt[i], "voxel size changed");
        // fields in Fourier space: divergence-free stress, gradient strain
        for (int kz = 0; kz < q.n[2]; kz++) for (int ky = 0; ky < q.n[1]; ky++) for (int kx = 0; kx < q.n[0]; kx++) { if (!kx && !ky && !kz) continue; int kk[3] = {kx, ky, kz}; bool ny = false; double k[3], kn = 0; for (int i = 0; i < 3; i++) { int z = kk[i]; if (q.n[i] % 2 == 0 && z == q.n[i] / 2) ny = true; if (z > q.n[i] / 2) z -= q.n[i]; k[i] = z / (q.delt[i] * q.n[i]); kn += k[i] * k[i]; } kn = std::sqrt(kn); double S[2][9] = {}, G[2][9] = {}; for (int v = 0; v < N; v++) { int i = v % q.n[0], j = v / q.n[0] % q.n[1], l = v / (q.n[0] * q.n[1]); double ph = -2 * pi * ((double)kx * i / q.n[0] + (double)ky * j / q.n[1] + (double)kz * l / q.n[2]); for (int m = 0; m < 9; m++) { S[0][m] += b.v[v].sg[m] * cos(ph) / N; S[1][m] += b.v[v].sg[m] * sin(ph) / N; G[0][m] += b.v[v].dg[m] * cos(ph) / N; G[1][m] += b.v[v].dg[m] * sin(ph) / N; } }
            double eq = 0, cp = 0; for (int r = 0; r < 2; r++) for (int i = 0; i < 3; i++) { double d = 0; for (int j = 0; j < 3; j++) { d += S[r][3 * i + j] * k[j] / kn; if (ny) eq = std::max(eq, std::fabs(S[r][3 * i + j])); else for (int l = 0; l < 3; l++) cp = std::max(cp, std::fabs(G[r][3 * i + j] * k[l] - G[r][3 * i + l] * k[j]) / kn); } eq = std::max(eq, std::fabs(d)); } F.rel("equilibrium", eq, SF, 2e-4); if (!ny) F.rel("compatibility", cp, ES, 1e-7); }
        c.step(); c.evals(N * (1 + (int)sl[0].size())); }
    uint64_t h = 0; for (int v = 0; v < N; v++) for (double x : st[q.nsteps].v[v].sg) h = mc::hash(g17(x) + std::to_string(h)); c.state(h); c.validated(); }
// ---- cases ----
static const int F12[12][6] = {{1,1,-1,0,1,1},{1,1,-1,1,0,1},{1,1,-1,1,-1,0},{1,-1,-1,0,1,-1},{1,-1,-1,1,0,1},{1,-1,-1,1,1,0},{1,-1,1,0,1,1},{1,-1,1,1,0,-1},{1,-1,1,1,1,0},{1,1,1,0,1,-1},{1,1,1,1,0,-1},{1,1,1,1,-1,0}};
static void cubic(Phase& p, double c11, double c12, double c44) { for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) p.C[i][j] = i == j ? c11 : c12; p.C[i + 3][i + 3] = c44; } }
static Phase fcc(int nrs, double tau, int nsys) { Phase p; Mode m; m.nrs = nrs; m.tf = tau; m.tb = tau * 1.2; m.t1 = 5; m.h0 = 400; m.h1 = 250; m.self = 1; m.lat = {1.4}; for (int i = 0; i < nsys; i++) { auto& b = F12[i * 12 / nsys]; m.sys.push_back({{b[0], b[1], b[2]}, {b[3], b[4], b[5]}}); } p.modes = {m}; p.active = {1}; cubic(p, 168400, 121400, 75400); return p; }
static Phase hexa(int nrs) { Phase p; p.cryst = "HEXAGONAL"; p.cdim[2] = 1.594; Mode a, b, d; a.label = 1; a.nrs = nrs; a.tf = 6; a.tb = 7; a.t1 = 3; a.h0 = 200; a.h1 = 30; a.lat = {1.1, 1.5, 1.2}; a.self = 0.9; for (auto& s : {System{{1, 0, -1, 0}, {-1, 2, -1, 0}}, System{{0, -1, 1, 0}, {2, -1, -1, 0}}, System{{-1, 1, 0, 0}, {-1, -1, 2, 0}}}) a.sys.push_back(s); b = a; b.label = 2; b.tf = 9; b.tb = 9; b.t1 = 0; b.h1 = 100; b.h0 = 150; b.lat = {0.7, 1.3, 1.6}; b.sys = {System{{0, 0, 0, 1}, {2, -1, -1, 0}}, System{{0, 0, 0, 1}, {-1, 2, -1, 0}}}; d = a; d.label = 3; d.nrs = nrs + 1; d.gamd0 = 2; d.tf = 8; d.tb = 5; d.h0 = d.h1 = 0; d.lat = {1.7, 1.8, 1.9}; d.sys = {System{{1, 0, -1, 1}, {-1, -1, 2, 3}}, System{{1, 0, -1, 1}, {-2, 1, 1, 3}}, System{{0, -1, 1, 1}, {1, 1, -2, 3}}}; p.modes = {a, b, d}; p.active = {1, 3}; double C[6][6] = {{143500, 72500, 65400}, {72500, 143500, 65400}, {65400, 65400, 164900}}; memcpy(p.C, C, sizeof C); p.C[3][3] = p.C[4][4] = 32100; p.C[5][5] = 35500; return p; }
static Phase isot(int nrs) { Phase p = fcc(nrs, 14, 3); p.iso = true; p.young = 70000; p.nu = 0.3; p.modes[0].gamd0 = 0.5; return p; }
static Phase gas() { Phase p; p.gas = true; return p; }
static const double OR[4][3] = {{0, 0, 0}, {30, 45, 10}, {127, 70, 61}, {211, 123, 300}};
static const int GR[][3] = {{1, 1, 1}, {3, 1, 1}, {1, 3, 1}, {1, 1, 3}, {2, 2, 1}, {3, 2, 1}, {1, 2, 3}, {3, 3, 1}, {2, 1, 4}, {5, 1, 1}, {1, 4, 2}, {3, 2, 2}, {3, 3, 3}};
// material: 0 one cubic crystal, 1 hexagonal with two of three modes, 2 cubic + isotropic, 3 cubic + void, 4 hexagonal + cubic
static void material(Case& q, int mat, int nrs) { switch (mat) { case 0: q.phases = {fcc(nrs, 9, 12)}; break; case 1: q.phases = {hexa(nrs)}; break; case 2: q.phases = {fcc(nrs, 9, 4), isot(nrs + 1)}; break; case 3: q.phases = {fcc(nrs, 9, 6), gas()}; break; default: q.phases = {hexa(nrs), fcc(nrs, 7, 4)}; } }
static void texture(Case& q, int pat) { int N = q.N(), P = q.phases.size(); q.vox.assign(N, {}); for (int v = 0; v < N; v++) { int i = v % q.n[0], j = v / q.n[0] % q.n[1], k = v / (q.n[0] * q.n[1]), o, ph; if (pat == 0) { o = 1; ph = 0; } else if (pat == 1) { o = (i + j + k) % 2 ? 2 : 1; ph = (i + j + k) % 2; } else if (pat == 2) { o = v == 0 ? 3 : 1; ph = v == N - 1; } else { o = (v * 7 + 3) % 4; ph = (v / 2) % 2; } if (ph >= P) ph = 0; q.vox[v] = {OR[o][0], OR[o][1], OR[o][2], 100 + v, ph + 1}; } }
struct BC { const char* name; int iu[9]; double u[9]; int is[6]; double s[6]; };
static const BC BCS[] = {
    {"rolling", {1,1,1,1,1,1,1,1,1}, {1,0,0, 0,0,0, 0,0,-1}, {}, {}}, {"general", {1,1,1,1,1,1,1,1,1}, {.3,.7,-.2, .1,-.5,.4, .6,-.3,.25}, {}, {}},
    {"tension", {0,1,1,1,0,1,1,1,1}, {-.35,0,0, 0,-.35,0, 0,0,1}, {1,1,0,0,0,0}, {}}, {"tension free shear", {0,1,1,0,0,1,0,0,1}, {-.35,0,0, 0,-.35,0, 0,0,1}, {1,1,0,1,1,1}, {}},
    {"free shear below", {1,0,0,1,1,0,1,1,1}, {.5,0,0, .3,-.2,0, .2,.1,.4}, {0,0,0,1,1,1}, {}}, {"stress", {0,1,1,0,0,1,0,0,0}, {}, {1,1,1,1,1,1}, {3,-2,1.5,.5,.8,-1.1}}, {"shear", {1,1,1,1,1,1,1,1,1}, {0,1,0, 0,0,0, 0,0,0}, {}, {}}, {"spin", {1,1,1,1,1,1,1,1,1}, {0,1,0, -1,0,0, 0,0,0}, {}, {}} };
static void bc(Case& q, int b) { const BC& x = BCS[b]; for (int i = 0; i < 9; i++) { q.iudot[i / 3][i % 3] = x.iu[i]; q.udot[i / 3][i % 3] = x.u[i]; } for (int i = 0; i < 6; i++) q.iscau[i] = x.is[i]; static const int A[6] = {0, 1, 2, 1, 0, 0}, B[6] = {0, 1, 2, 2, 2, 1}; for (int i = 0; i < 6; i++) q.scauchy[A[i]][B[i]] = x.s[i]; }
static string desc(const Case& q, int mat, int pat, int b) { char s[300]; snprintf(s, sizeof s, "grid %dx%dx%d spacing %g,%g,%g material %d texture %d loading '%s' exponent %d dt %g steps %d update %d harden %d thermal %d ictrl %d ranks %d", q.n[0], q.n[1], q.n[2], q.delt[0], q.delt[1], q.delt[2], mat, pat, b < 0 ? "-" : BCS[b].name, q.phases[0].modes[0].nrs, q.eqincr, q.nsteps, q.iupdate, q.iuphard, q.ithermo, q.ictrl, q.ranks); return s; }
static void laws(Ctx& c, int part, bool th) {
    Case q; int ng = th ? 13 : 10; int g = c.choose(ng); for (int i = 0; i < 3; i++) q.n[i] = GR[g][i]; int mat = c.choose(5), pat = g == 0 ? 0 : c.choose(th ? 4 : 3) + (th ? 0 : 1), b = c.choose(8), var = c.choose(th ? 10 : 6); static const int NR[10] = {10, 5, 2, 10, 3, 10, 1, 20, 5, 4}; material(q, mat, NR[var]); if (mat == 3) { if (g >= 3) c.prune(); static const int GG[3][3] = {{3, 3, 1}, {1, 3, 3}, {3, 1, 3}}; for (int i = 0; i < 3; i++) q.n[i] = GG[g][i]; } texture(q, pat); if (mat == 3) { static const int VD[4][2] = {{8, 8}, {0, 4}, {3, 3}, {2, 7}}; for (int v = 0; v < 9; v++) q.vox[v].phase = v == VD[pat][0] || v == VD[pat][1] ? 2 : 1; } bc(q, b); q.nsteps = 3; q.err = mat == 3 ? 1e-12 : 1e-16; q.itmax = 3000; q.eqincr = var % 2 ? 4e-5 : 2e-4; if (var == 1 || var == 7) { q.delt[1] = 2; q.delt[2] = 0.5; } q.iupdate = var != 3; q.iuphard = var != 4; if (var == 5 || var == 8) { q.ithermo = 1; } if (b == 5 && q.ithermo == 0 && var == 2) q.ictrl = -1; if (var == 1 && b != 5 && b != 7) { q.ictrl = 0; }
    if (q.ithermo) { int m = 0; for (auto& v : q.vox) { v.grain = 1 + (int)(&v - &q.vox[0]) % 3; m = std::max(m, v.grain); } for (int i = 0; i < 3; i++) q.eth.push_back({1e-4 * (i + 1), -5e-5, 3e-5 * i, 2e-5, -1e-5 * i, 4e-5}); }
    string what = desc(q, mat, pat, b); c.key(what); c.note(what); Outcome o = run(c, q); oracle(c, q, o, what, part); }
// ---- the same problem, posed differently ----
struct Run { bool ok = false; string what; vector<StepS> st; std::map<string, string> files; };
static Run runit(Ctx& c, const Case& q, const string& what) { Outcome o = run(c, q); Run r; r.ok = o.ok; r.what = o.what; c.check(o.ok && o.s->steps == q.nsteps, what, "the run ended with '" + o.what + "', status " + std::to_string(o.exitcode)); r.st.assign(o.s->st, o.s->st + q.nsteps + 1); r.files = o.files; c.step(); return r; }
static M3 rot(const M3& R, const M3& a) { return mul(mul(R, a), tr(R)); }
static const M3 I3 = {1, 0, 0, 0, 1, 0, 0, 0, 1};
static void same(Ctx& c, const string& what, const Case& q, const Run& A, const Run& B, const vector<int>& map, const M3& R, const int* axis, double tol, bool grains = true) {
    Chk F{c, what, true}; int N = q.N(); double sgn = R[0] * (R[4] * R[8] - R[5] * R[7]) - R[1] * (R[3] * R[8] - R[5] * R[6]) + R[2] * (R[3] * R[7] - R[4] * R[6]);
    for (int t = 0; t <= q.nsteps; t++) { const StepS &a = A.st[t], &b = B.st[t]; double un = 0, SS, SD, SP, SE, SC = 1, SV, SG; for (auto& r : q.udot) for (double x : r) un += x * x; un = std::sqrt(un) + 1e-9; SV = SP = SG = un * 1e-9; SD = SE = un * 1e-9 * a.tdot + 1e-300; SS = SD * 1e5; for (int v = 0; v < N; v++) { const VoxS& x = a.v[v]; SS = std::max(SS, nrm(ld(x.sg))); SD = std::max(SD, nrm(ld(x.dg))); SV = std::max(SV, nrm(ld(x.vg))); SP = std::max(SP, nrm(ld(x.ep))); SE = std::max(SE, nrm(ld(x.ept))); for (int k = 0; k < NS; k++) { SG = std::max(SG, std::fabs(x.gd[k])); SC = std::max(SC, x.crss[2 * k]); } }
        auto cmp = [&](const char* n, const double* x, const double* y, double sc) { F.rel(n, nrm(lin(1, rot(R, ld(x)), -1, ld(y))), sc, tol); };
        for (size_t m = 0; m < map.size(); m++) { const VoxS &x = a.v[map[m]], &y = b.v[m]; F(x.ph == y.ph && (!grains || x.gr == y.gr), "phase or grain of voxel " + std::to_string(m)); cmp("stress", x.sg, y.sg, SS); cmp("displacement gradient", x.dg, y.dg, SD); if (t) { cmp("velocity gradient", x.vg, y.vg, SV); cmp("plastic strain rate", x.ep, y.ep, SP); cmp("plastic strain", x.ept, y.ept, SE); } if (!q.phases[x.ph - 1].gas) { M3 g = mul(R, ld(x.ag)); for (double& z : g) z *= sgn; F.rel("orientation", nrm(lin(1, g, -1, ld(y.ag))), 1, 1e-9); for (int k = 0; k < NS; k++) { if (t) F.rel("slip rate", std::fabs(x.gd[k] - y.gd[k]), SG, tol * 30); F.rel("strength", std::fabs(x.crss[2 * k] - y.crss[2 * k]) + std::fabs(x.crss[2 * k + 1] - y.crss[2 * k + 1]), SC, tol); } } }
        if (t) { cmp("average stress", a.sav, b.sav, SS); cmp("average deformation", a.dma, b.dma, SD); cmp("average plastic strain", a.epav, b.epav, SE); F.rel("equivalent stress", std::fabs(a.svm - b.svm), SS, tol); F.rel("equivalent stress of phase 1", std::fabs(a.svm1 - b.svm1), SS, tol); F.rel("equivalent strain", std::fabs(a.evm - b.evm), SD, tol); F.rel("equivalent plastic strain", std::fabs(a.evmp - b.evmp), SE, tol); } for (int i = 0; i < 3; i++) F.rel("voxel size", std::fabs(a.delt[i] - b.delt[axis[i]]), a.delt[i], 1e-9); } }
static vector<int> ident(int n) { vector<int> m; for (int i = 0; i < n; i++) m.push_back(i); return m; }
static void base(Ctx& c, Case& q, string& what, bool th, bool full, bool ranks = false) { static const int GS[][3] = {{3, 2, 1}, {1, 3, 2}, {2, 1, 4}, {3, 3, 1}, {1, 1, 5}, {3, 2, 2}, {5, 1, 1}, {1, 4, 2}, {3, 3, 2}}; int g = c.choose(ranks ? (th ? 9 : 7) : th ? 6 : 4); for (int i = 0; i < 3; i++) q.n[i] = GS[g][i]; int mat = c.choose(5), pat = c.choose(th ? 3 : 2) + 1, b = c.choose(full ? 8 : 4), var = c.choose(th ? 4 : 2); if (!full) b = b == 0 ? 1 : b == 1 ? 3 : b == 2 ? 4 : 7; if (mat == 3 && (q.n[0] % 2 == 0 || q.n[1] % 2 == 0 || q.n[2] % 2 == 0 || q.N() < 9 || b == 5)) c.prune(); static const int NR[4] = {10, 3, 5, 1}; material(q, mat, NR[var]); texture(q, pat); if (mat == 3) for (int v = 0; v < q.N(); v++) q.vox[v].phase = v == q.N() - 1 ? 2 : 1; bc(q, b); q.nsteps = 2; q.err = mat == 3 ? 1e-12 : 1e-16; q.itmax = 3000; q.eqincr = 2e-4; if (var & 1) { q.delt[0] = .7; q.delt[1] = 2; q.delt[2] = 1.1; } what = desc(q, mat, pat, b); }
static void f_ranks(Ctx& c, bool th) { Case q; string what; base(c, q, what, th, th, true); int R = 2 + c.choose(th ? 5 : 3); if (R > q.N() / 1) c.prune(); c.key(what + " ranks " + std::to_string(R)); c.note(what); q.iwtex = q.iwfields = 1; Run a = runit(c, q, what); q.ranks = R; what = "on " + std::to_string(R) + " ranks: " + what; Run b = runit(c, q, what); int ax[3] = {0, 1, 2}; same(c, what, q, a, b, ident(q.N()), I3, ax, 1e-5);
    auto rows = [&](const string& t) { vector<string> r; std::istringstream i(t); string l; while (std::getline(i, l)) r.push_back(l); return r; };
    for (const char* f : {"vm.out", "str_str.out"}) { auto x = rows(a.files[f]), y = rows(b.files[f]); c.check(x.size() == y.size() && x.size() == (size_t)q.nsteps + 1 && x[0] == y[0], what, string(f) + " has " + std::to_string(y.size()) + " lines"); }
    auto x = rows(a.files["tex.out"]), y = rows(b.files["tex.out"]); c.check(x.size() == y.size(), what, "tex.out has " + std::to_string(y.size()) + " instead of " + std::to_string(x.size()) + " lines"); c.check(x.size() == (size_t)q.N() + 4, what, "lines of tex.out"); c.state(mc::hash(what)); c.validated(); }
static void f_translate(Ctx& c, bool th) { Case q; string what; base(c, q, what, th, th); int s[3]; for (int i = 0; i < 3; i++) s[i] = c.choose(q.n[i]); if (!s[0] && !s[1] && !s[2]) c.prune(); c.key(what + " moved"); Run a = runit(c, q, what); Case p = q; vector<int> map(q.N()); for (int k = 0; k < q.n[2]; k++) for (int j = 0; j < q.n[1]; j++) for (int i = 0; i < q.n[0]; i++) { int v = q.id(i, j, k), w = q.id((i + s[0]) % q.n[0], (j + s[1]) % q.n[1], (k + s[2]) % q.n[2]); p.vox[w] = q.vox[v]; map[w] = v; } what = "microstructure moved by " + std::to_string(s[0]) + "," + std::to_string(s[1]) + "," + std::to_string(s[2]) + ": " + what; c.note(what); Run b = runit(c, p, what); int ax[3] = {0, 1, 2}; same(c, what, q, a, b, map, I3, ax, 1e-5); c.state(mc::hash(what)); c.validated(); }
static void f_tile(Ctx& c, bool th) { Case q; string what; base(c, q, what, th, th); int ax = c.choose(3); if (q.N() * 2 > NV) c.prune(); c.key(what + " repeated"); Run a = runit(c, q, what); Case p = q; p.n[ax] *= 2; p.vox.assign(p.N(), {}); vector<int> map(p.N()); for (int k = 0; k < p.n[2]; k++) for (int j = 0; j < p.n[1]; j++) for (int i = 0; i < p.n[0]; i++) { int v = q.id(i % q.n[0], j % q.n[1], k % q.n[2]), w = p.id(i, j, k); p.vox[w] = q.vox[v]; map[w] = v; } what = "microstructure repeated along axis " + std::to_string(ax) + ": " + what; c.note(what); Run b = runit(c, p, what); int x[3] = {0, 1, 2}; for (int t = 0; t <= q.nsteps; t++) for (int i = 0; i < 3; i++) if (q.n[i] == 1) b.st[t].delt[i] = a.st[t].delt[i]; same(c, what, q, a, b, map, I3, x, 1e-5); c.state(mc::hash(what)); c.validated(); }
static void f_axes(Ctx& c, bool th) { static const int P[5][3] = {{1, 2, 0}, {2, 0, 1}, {1, 0, 2}, {0, 2, 1}, {2, 1, 0}}; Case q; string what; base(c, q, what, th, true); int pm = c.choose(5); const int* s = P[pm]; c.key(what + " turned " + std::to_string(pm)); M3 R{}; for (int i = 0; i < 3; i++) R[3 * s[i] + i] = 1; double sgn = pm < 2 ? 1 : -1; Run a = runit(c, q, what); Case p = q; for (int i = 0; i < 3; i++) { p.n[s[i]] = q.n[i]; p.delt[s[i]] = q.delt[i]; for (int j = 0; j < 3; j++) { p.iudot[s[i]][s[j]] = q.iudot[i][j]; p.udot[s[i]][s[j]] = q.udot[i][j]; p.iscau[VO[s[i]][s[j]]] = q.iscau[VO[i][j]]; p.scauchy[std::min(s[i], s[j])][std::max(s[i], s[j])] = q.scauchy[std::min(i, j)][std::max(i, j)]; } } vector<int> map(q.N());
    for (int k = 0; k < q.n[2]; k++) for (int j = 0; j < q.n[1]; j++) for (int i = 0; i < q.n[0]; i++) { int v = q.id(i, j, k), x[3]; x[s[0]] = i; x[s[1]] = j; x[s[2]] = k; int w = p.id(x[0], x[1], x[2]); map[w] = v; Voxel z = q.vox[v]; M3 Q = mul(bunge(z.ph, z.th, z.om), tr(R)); for (double& y : Q) y *= sgn; double d = 180 / std::acos(-1.0); z.th = d * std::acos(std::max(-1.0, std::min(1.0, Q[8]))); if (std::fabs(Q[8]) > 1 - 1e-12) { z.om = 0; z.ph = d * std::atan2(Q[1], Q[0]); } else { z.om = d * std::atan2(Q[2], Q[5]); z.ph = d * std::atan2(Q[6], -Q[7]); } p.vox[w] = z; }
    what = "axes permuted to " + std::to_string(s[0]) + std::to_string(s[1]) + std::to_string(s[2]) + ": " + what; c.note(what); Run b = runit(c, p, what); same(c, what, q, a, b, map, R, s, 1e-5); c.state(mc::hash(what)); c.validated(); }
// ---- output files ----
static vector<vector<double>> table(const string& t, size_t skip) { vector<vector<double>> r; std::istringstream in(t); string l; while (std::getline(in, l)) { if (skip) { skip--; continue; } for (char& x : l) if (x == ',') x = ' '; std::istringstream w(l); vector<double> v; double d; while (w >> d) v.push_back(d); r.push_back(v); } return r; }
static M3 inv3(const M3& a) { M3 r; double D = a[0] * (a[4] * a[8] - a[5] * a[7]) - a[1] * (a[3] * a[8] - a[5] * a[6]) + a[2] * (a[3] * a[7] - a[4] * a[6]); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { int p = (j + 1) % 3, s = (j + 2) % 3, u = (i + 1) % 3, w = (i + 2) % 3; r[3 * i + j] = (a[3 * p + u] * a[3 * s + w] - a[3 * p + w] * a[3 * s + u]) / D; } return r; }
static bool ipf(const M3& ag, unsigned char* rgb, int slack) { double d[3] = {std::fabs(ag[6]), std::fabs(ag[7]), std::fabs(ag[8])}; std::sort(d, d + 3); double pi = std::acos(-1.0), phi = std::min(pi / 4, std::acos(std::min(1.0, d[2]))), th = std::atan2(d[0], d[1]), r = 1 - std::sin(1.6 * phi), g = (1 - r) * std::cos(2 * th), b = (1 - r) * std::sin(2 * th), m = std::max(r, std::max(g, b)); double v[3] = {255 * r / m, 255 * g / m, 255 * b / m}; for (int i = 0; i < 3; i++) if (std::fabs(v[i] - rgb[i]) > slack + 1) return false; return true; }
static void f_outputs(Ctx& c, bool th) { Case q; string what; base(c, q, what, th, true); int R = 1 + c.choose(2); q.ranks = R; q.iwtex = q.iwfields = 1; q.nsteps = 3; q.iwstep = 1 + c.choose(2); what += " ranks " + std::to_string(R) + " every " + std::to_string(q.iwstep); c.key(what); c.note(what); Run a = runit(c, q, what); int N = q.N(); double dt = a.st[1].tdot;
    auto near4 = [](double x, double y) { return std::fabs(x - y) <= 1.1e-4 * std::fabs(y) + 1e-300; };
    { auto t = table(a.files["vm.out"], 1), u = table(a.files["str_str.out"], 1), e = table(a.files["err.out"], 1); c.check(t.size() == (size_t)q.nsteps && u.size() == t.size(), what, "lines of vm.out or str_str.out"); size_t row = 0; for (int s = 1; s <= q.nsteps; s++) { const StepS& z = a.st[s]; double w[6] = {z.evm, z.evmp, z.dvm, z.dvmp, z.svm, z.svm1}; c.check(t[s - 1].size() == 6, what, "columns of vm.out"); for (int k = 0; k < 6; k++) c.check(near4(t[s - 1][k], w[k]), what, "vm.out step " + std::to_string(s) + " column " + std::to_string(k + 1) + " is " + g17(t[s - 1][k]) + " instead of " + g17(w[k])); const double* ten[5] = {z.dma, z.sav, z.epav, z.vgm, z.edav}; static const int ix[6] = {0, 4, 8, 5, 2, 1}; c.check(u[s - 1].size() == 35, what, "columns of str_str.out"); for (int m = 0; m < 5; m++) for (int k = 0; k < 6; k++) c.check(near4(u[s - 1][6 * m + k], ten[m][ix[k]]), what, "str_str.out step " + std::to_string(s) + " column " + std::to_string(6 * m + k + 1) + " is " + g17(u[s - 1][6 * m + k]) + " instead of " + g17(ten[m][ix[k]])); double w2[5] = {z.evm, z.evmp, z.dvm, z.dvmp, z.svm}; for (int k = 0; k < 5; k++) c.check(near4(u[s - 1][30 + k], w2[k]), what, "str_str.out equivalent values"); for (int it = 1; it <= z.iter; it++, row++) c.check(row < e.size() && e[row].size() == 6 && e[row][0] == s && e[row][1] == it, what, "err.out row " + std::to_string(row)); c.check(row && near4(e[row - 1][2], z.erre) && near4(e[row - 1][3], z.errs), what, "err.out last errors"); } c.check(row == e.size(), what, "err.out has more rows"); }
    { const string& t = a.files["tex.out"]; std::istringstream in(t); string l; vector<string> L; while (std::getline(in, l)) L.push_back(l); c.check(L.size() == 4 + (size_t)N, what, "lines of tex.out"); int cnt; c.check(sscanf(L[3].c_str(), "B %d", &cnt) == 1 && cnt == N, what, "count in tex.out: " + L[3]); vector<int> seen(N); for (size_t r = 4; r < L.size(); r++) { double p, h, o, w; int i, j, k, g, f; c.check(sscanf(L[r].c_str(), "%9lf%9lf%9lf%9lf%5d%5d%5d%5d%5d", &p, &h, &o, &w, &i, &j, &k, &g, &f) == 9 && i >= 1 && i <= q.n[0] && j >= 1 && j <= q.n[1] && k >= 1 && k <= q.n[2], what, "line of tex.out: " + L[r]); int v = q.id(i - 1, j - 1, k - 1); seen[v]++; const VoxS& x = a.st[q.nsteps].v[v]; c.check(g == q.vox[v].grain && f == q.vox[v].phase, what, "grain or phase in tex.out: " + L[r]); if (!q.phases[f - 1].gas) c.check(nrm(lin(1, bunge(p, h, o), -1, tr(ld(x.ag)))) < 1e-4, what, "angles in tex.out: " + L[r]); } for (int x : seen) c.check(x == 1, what, "voxels in tex.out"); }
    int files = 0; for (auto& f : a.files) if (f.first.size() > 4 && f.first.substr(f.first.size() - 4) == ".vtu") files++; c.check(files == R * (1 + q.nsteps / q.iwstep), what, std::to_string(files) + " vtu files");
    for (int s = 0; s <= q.nsteps; s += q.iwstep) { const StepS& z = a.st[s]; M3 Fi = s ? inv3(lin(1, I3, 1, ld(z.dma))) : I3; vector<int> seen(N); char nm[100]; snprintf(nm, sizeof nm, "pvtu/MicroState_%05d.pvtu", s); c.check(a.files.count(nm), what, string("no ") + nm); const string& pv = a.files[nm]; 
        for (int r = 0; r < R; r++) { snprintf(nm, sizeof nm, "pvtu/MicroState_%05d/MicroState_%05d_%05d.vtu", s, s, r); c.check(a.files.count(nm), what, string("no ") + nm); c.check(pv.find("Source=\"" + string(nm + 5) + "\"") != string::npos, what, string("the pvtu file does not list ") + nm); const string& t = a.files[nm]; int np = 0, ncell = 0; size_t pp = t.find("<Piece "); c.check(pp != string::npos && sscanf(t.c_str() + pp, "<Piece NumberOfPoints=\"%d\" NumberOfCells=\"%d\"", &np, &ncell) == 2, what, "piece"); size_t ap = t.find("<AppendedData encoding=\"raw\">\n_"); c.check(ap != string::npos, what, "appended data"); ap += 31; 
            auto arr = [&](const char* name, const char* type, int esz, size_t n) -> const char* { string key = string("type=\"") + type + "\" Name=\"" + name + "\""; size_t p = t.find(key); c.check(p != string::npos, what, string("no array ") + name); size_t o = t.find("offset=\"", p), e = t.find(">", p); c.check(o != string::npos && o < e, what, "offset"); unsigned long off = strtoul(t.c_str() + o + 8, nullptr, 10), len; c.check(ap + off + 8 <= t.size(), what, string("array beyond the file: ") + name); memcpy(&len, t.data() + ap + off, 8); c.check(len == n * esz && ap + off + 8 + len <= t.size(), what, string("size of array ") + name + " " + std::to_string(len)); return t.data() + ap + off + 8; };
            auto D = [](const char* p, size_t i) { double d; memcpy(&d, p + 8 * i, 8); return d; }; auto I = [](const char* p, size_t i) { int d; memcpy(&d, p + 4 * i, 4); return d; };
            c.check(std::fabs(D(arr("TimeValue", "Float64", 8, 1), 0) - s * dt) < 1e-12, what, "time value"); const char *P = arr("Points", "Float64", 8, 3 * np), *cn = arr("connectivity", "Int32", 4, 8 * ncell), *of = arr("offsets", "Int32", 4, ncell), *ty = arr("types", "Int32", 4, ncell), *rk = arr("rank", "Int32", 4, ncell), *ph = arr("phase_id", "Int32", 4, ncell), *gr = arr("grain_id", "Int32", 4, ncell), *sf[4] = {arr("vm-strain", "Float64", 8, ncell), arr("vm-stress", "Float64", 8, ncell), arr("vm-pl-strain-rate", "Float64", 8, ncell), arr("vm-el-strain", "Float64", 8, ncell)}, *tf[4] = {arr("strain", "Float64", 8, 6 * ncell), arr("stress", "Float64", 8, 6 * ncell), arr("pl-strain-rate", "Float64", 8, 6 * ncell), arr("el-strain", "Float64", 8, 6 * ncell)}, *cl = arr("IPFColor", "UInt8", 1, 3 * ncell);
            for (int e = 0; e < ncell; e++) { c.check(I(of, e) == 8 * (e + 1) && I(ty, e) == 12 && I(rk, e) == r, what, "offset, type or rank of a cell"); double X[8][3], m[3] = {}; for (int n = 0; n < 8; n++) { int id = I(cn, 8 * e + n); c.check(id >= 0 && id < np, what, "connectivity"); for (int i = 0; i < 3; i++) { X[n][i] = 0; for (int j = 0; j < 3; j++) X[n][i] += Fi[3 * i + j] * D(P, 3 * id + j); X[n][i] /= q.delt[i]; m[i] += X[n][i] / 8; } } int ix[3]; for (int i = 0; i < 3; i++) { ix[i] = (int)std::lround(m[i]) - 1; c.check(std::fabs(m[i] - 1 - ix[i]) < 1e-6 && ix[i] >= 0 && ix[i] < q.n[i], what, "place of a cell: " + g17(m[i])); } static const int CO[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}}; for (int n = 0; n < 8; n++) for (int i = 0; i < 3; i++) c.check(std::fabs(X[n][i] - (ix[i] + .5 + CO[n][i])) < 1e-6, what, "corner of a cell"); int v = q.id(ix[0], ix[1], ix[2]); seen[v]++; VoxS x = z.v[v]; if (!s) memset(x.sg, 0, sizeof x.sg), memset(x.ep, 0, sizeof x.ep); /* the first file is of the unloaded state */ const Phase& pz = q.phases[q.vox[v].phase - 1]; c.check(I(ph, e) == q.vox[v].phase && I(gr, e) == q.vox[v].grain, what, "phase or grain of a cell");
                const double* src[3] = {x.dg, x.sg, x.ep}; static const int TI[6] = {0, 4, 8, 1, 5, 2}; for (int f = 0; f < 4; f++) { if (f == 3 && pz.gas) continue; M3 y; static const int back[9] = {0, 3, 5, 3, 1, 4, 5, 4, 2}; for (int k = 0; k < 9; k++) y[k] = D(tf[f], 6 * e + back[k]); static const char* FN[4] = {"strain", "stress", "pl-strain-rate", "el-strain"}; if (f < 3) { M3 w = sym(ld(src[f])); c.check(nrm(lin(1, y, -1, w)) <= 1e-12 * nrm(w), what, string(FN[f]) + " of a cell, step " + std::to_string(s) + ", off by " + g17(nrm(lin(1, y, -1, w))) + " of " + g17(nrm(w))); } else { M3 h = hooke(pz, bunge(q.vox[v].ph, q.vox[v].th, q.vox[v].om), y); c.check(nrm(lin(1, h, -1, ld(x.sg))) <= 1e-4 * nrm(ld(x.sg)), what, "el-strain of a cell"); } double w = f == 1 ? std::sqrt(1.5 * dot(dev(y), dev(y))) : std::sqrt(2. / 3. * dot(dev(y), dev(y))); c.check(std::fabs(D(sf[f], e) - w) <= 1e-9 * nrm(y), what, string("vm-") + FN[f] + " of a cell is " + g17(D(sf[f], e)) + " instead of " + g17(w)); (void)TI; }
                if (!pz.gas) { unsigned char rgb[3]; memcpy(rgb, cl + 3 * e, 3); c.check(ipf(ld(x.ag), rgb, 1), what, "IPF colour of a cell: " + std::to_string(rgb[0]) + "," + std::to_string(rgb[1]) + "," + std::to_string(rgb[2]) + " voxel " + std::to_string(v)); } } }
        for (int x : seen) c.check(x == 1, what, "a voxel is written " + std::to_string(x) + " times"); c.evals(N * 30); }
    c.state(mc::hash(what)); c.validated(); }
// ---- input files ----
static void f_masks(Ctx& c, bool th) { // every combination of imposed velocity gradients and stresses is accepted exactly if each of the six components is given once
    Case q; q.n[0] = 3; material(q, 0, 5); texture(q, 1); int a = c.choose(512), b = c.choose(64); for (int i = 0; i < 9; i++) { q.iudot[i / 3][i % 3] = a >> i & 1; q.udot[i / 3][i % 3] = .1 * i - .3; } for (int i = 0; i < 6; i++) q.iscau[i] = b >> i & 1; string what = "imposed velocity gradients " + std::to_string(a) + " stresses " + std::to_string(b); c.key(what); c.note(what); bool ok = q.iudot[0][0] + q.iudot[1][1] + q.iudot[2][2] != 2; for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) { int u = q.iudot[i][j] + q.iudot[j][i], s = q.iscau[VO[i][j]]; if (i != j && !u) ok = false; if ((u == 2) == (s == 1)) ok = false; } Outcome o = run(c, q, true); c.check(!o.crashed, what, "crash: " + o.what); c.check(o.ok == ok, what, ok ? "refused: " + o.what : "accepted"); c.state(mc::hash(what)); c.validated(); c.step(); }
static void f_systems(Ctx& c, bool th) { // slip systems are accepted exactly if direction and normal are orthogonal
    Case q; bool hex = c.choose(2); material(q, hex ? 1 : 0, 5); q.n[0] = 1; texture(q, 0); bc(q, 0); System& s = q.phases[0].modes[hex ? 2 : 0].sys[1]; int n[3], b[3]; for (int i = 0; i < 3; i++) n[i] = c.choose(3) - 1; for (int i = 0; i < 3; i++) b[i] = c.choose(3) - 1; if ((!n[0] && !n[1] && !n[2]) || (!b[0] && !b[1] && !b[2])) c.prune(); double cs; if (hex) { int N[4] = {n[0], n[1], -n[0] - n[1], n[2]}, B[4] = {b[0], b[1], -b[0] - b[1], b[2]}; memcpy(s.n, N, sizeof N); memcpy(s.b, B, sizeof B); } else { double ax[3] = {1, 1, 1}; if (c.choose(2)) { ax[2] = 1.5; q.phases[0].cryst = "TETRAGONAL"; q.phases[0].cryst = "ORTHORHOMBIC"; } for (int i = 0; i < 3; i++) { q.phases[0].cdim[i] = ax[i]; s.n[i] = n[i]; s.b[i] = b[i]; } for (auto& y : q.phases[0].modes[0].sys) if (&y != &s) { int e[4] = {0, 0, 1, 0}, d[4] = {1, 0, 0, 0}; memcpy(y.n, e, sizeof e); memcpy(y.b, d, sizeof d); } } auto L = slips(q.phases[0]); Slip t; for (auto& x : L) if (x.m == &q.phases[0].modes[hex ? 2 : 0]) { t = *(&x + 1); break; } cs = t.n[0] * t.b[0] + t.n[1] * t.b[1] + t.n[2] * t.b[2]; bool ok = std::fabs(cs) < 1e-3; string what = string(hex ? "hexagonal" : q.phases[0].cryst) + " system " + std::to_string(n[0]) + std::to_string(n[1]) + std::to_string(n[2]) + " / " + std::to_string(b[0]) + std::to_string(b[1]) + std::to_string(b[2]); c.key(what); c.note(what); Outcome o = run(c, q, true); c.check(!o.crashed, what, "crash: " + o.what); c.check(o.ok == ok, what, (ok ? "refused: " + o.what : string("accepted")) + " (cosine " + g17(cs) + ")"); c.state(mc::hash(what)); c.validated(); c.step(); }
static void f_formats(Ctx& c, bool th) { Case q; string what; base(c, q, what, th, false); int kind = c.choose(4), R = 1 + c.choose(2); c.key(what + std::to_string(kind) + std::to_string(R)); static const char* KN[4] = {"HDF5, degrees", "HDF5, radians", "VTK lattice", "comments behind the numbers"}; what = string(KN[kind]) + " on " + std::to_string(R) + " ranks: " + what; c.note(what); if (kind == 2) for (auto& v : q.vox) { v.ph = v.th = v.om = 0; v.grain = v.phase; } if (kind == 3) { q.ithermo = 1; for (auto& v : q.vox) v.grain = 1 + (int)(&v - &q.vox[0]) % 3; for (int i = 0; i < 3; i++) q.eth.push_back({1e-4 * (i + 1), -5e-5, 3e-5 * i, 2e-5, -1e-5 * i, 4e-5}); } Run a = runit(c, q, what); q.ranks = R; if (kind < 2) { q.filetype = 1; q.eulunit = kind; } else if (kind == 2) q.filetype = 2; else q.comments = true; Run b = runit(c, q, what); int ax[3] = {0, 1, 2}; same(c, what, q, a, b, ident(q.N()), I3, ax, 1e-5); c.state(mc::hash(what)); c.validated(); }
int main(int argc, char** argv) { bool th = false; for (int i = 1; i < argc; i++) th |= !strcmp(argv[i], "--thorough"); vector<Scenario> sc = {
    {"fields", [th](Ctx& c) { laws(c, 1, th); }, 3}, {"evolution", [th](Ctx& c) { laws(c, 2, th); }, 3},
    {"ranks", [th](Ctx& c) { f_ranks(c, th); }, 3}, {"translate", [th](Ctx& c) { f_translate(c, th); }, 3}, {"tile", [th](Ctx& c) { f_tile(c, th); }, 3}, {"axes", [th](Ctx& c) { f_axes(c, th); }, 3},
    {"outputs", [th](Ctx& c) { f_outputs(c, th); }, 3}, {"masks", [th](Ctx& c) { f_masks(c, th); }, 1}, {"systems", [th](Ctx& c) { f_systems(c, th); }, 3}, {"formats", [th](Ctx& c) { f_formats(c, th); }, 3} };
    return main_(argc, argv, "EVPFFT", sc); }
