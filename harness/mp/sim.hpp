// Whole runs of the application through its public driver: decks in, state out.
#pragma once
#include "mp.hpp"
#include "driver.hpp"
#include "region.hpp"
namespace mp {
typedef std::string S;
inline S g17(double d) { char b[40]; snprintf(b, 40, "%.17g", d); return b; }
inline S v3(double a, double b, double c) { return "[" + g17(a) + ", " + g17(b) + ", " + g17(c) + "]"; }
inline S dynamics(double tf, long cycles, double dt0 = 1e-3, double dtmin = 1e-8, double dtmax = 1e-1, int rk = 2, const S& more = "") { return "dynamic_options:\n    time_final: " + g17(tf) + "\n    dt_min: " + g17(dtmin) + "\n    dt_max: " + g17(dtmax) + "\n    dt_start: " + g17(dt0) + "\n    cycle_stop: " + std::to_string(cycles) + "\n    rk_num_stages: " + std::to_string(rk) + "\n" + more; }
inline S box3(int a, int b, int c, double lx = 1, double ly = 1, double lz = 1, double ox = 0, double oy = 0, double oz = 0) { return "mesh_options:\n    source: generate\n    num_dims: 3\n    type: box\n    origin: " + v3(ox, oy, oz) + "\n    length: " + v3(lx, ly, lz) + "\n    num_elems: [" + std::to_string(a) + ", " + std::to_string(b) + ", " + std::to_string(c) + "]\n"; }
inline S box2(int a, int b, double lx = 1, double ly = 1, double ox = 0, double oy = 0) { return "mesh_options:\n    source: generate\n    num_dims: 2\n    type: box\n    origin: [" + g17(ox) + ", " + g17(oy) + "]\n    length: [" + g17(lx) + ", " + g17(ly) + "]\n    num_elems: [" + std::to_string(a) + ", " + std::to_string(b) + "]\n"; }
inline S filemesh(const S& path, int dims) { return "mesh_options:\n    source: file\n    file_path: " + path + "\n    num_dims: " + std::to_string(dims) + "\n"; }
inline S outputs(const S& fmt = "none", double gdt = 1e30, const S& more = "") { return "output_options:\n    timer_output_level: thorough\n    output_file_format: " + fmt + "\n    graphics_time_step: " + g17(gdt) + "\n" + more; }
inline S solver(const S& method, int id = 0, const S& more = "") { return "  - solver:\n        method: " + method + "\n        id: " + std::to_string(id) + "\n" + more; }
inline S list(const S& key, const std::vector<double>& v, int ind = 8) { if (v.empty()) return ""; S r = S(ind, ' ') + key + ":\n"; for (double d : v) r += S(ind + 4, ' ') + "- " + g17(d) + "\n"; return r; }
inline S gas(int id, double gamma = 5. / 3., double cmin = 1e-14, double cv = 1, const S& diss = "MARS", const std::vector<double>& dv = {1, 1, 1.333, 1.333, 0, 1}, const S& more = "") { return "    - material:\n        id: " + std::to_string(id) + "\n        eos_model_type: decoupled\n        eos_model: gamma_law_gas\n" + list("eos_global_vars", {gamma, cmin, cv}) + (diss.empty() ? "" : "        dissipation_model: " + diss + "\n" + list("dissipation_global_vars", dv)) + more; }
inline S cartesian(double u, double v, double w) { return "        velocity:\n            type: cartesian\n            u: " + g17(u) + "\n            v: " + g17(v) + "\n            w: " + g17(w) + "\n"; }
inline S uniform(const S& what, double v) { return "        " + what + ":\n            type: uniform\n            value: " + g17(v) + "\n"; }
inline S regionOf(const S& volume, int mat, const S& rest, int solver = 0) { return "    - region:\n        volume:\n" + volume + "        solver_id: " + std::to_string(solver) + "\n        material_id: " + std::to_string(mat) + "\n" + rest; }
inline const S GLOBAL = "            type: global\n";
inline S boxvol(double x1, double x2, double y1, double y2, double z1, double z2) { return "            type: box\n            x1: " + g17(x1) + "\n            x2: " + g17(x2) + "\n            y1: " + g17(y1) + "\n            y2: " + g17(y2) + "\n            z1: " + g17(z1) + "\n            z2: " + g17(z2) + "\n"; }
inline S bc(const S& type, double pos, const S& rest, int solver = 0, double tol = 1e-7) { return "    - boundary_condition:\n        solver_id: " + std::to_string(solver) + "\n        surface:\n            type: " + type + "\n            " + (type.find("plane") != S::npos ? "plane_position: " : "radius: ") + g17(pos) + "\n            tolerance: " + g17(tol) + "\n" + rest; }
inline S velbc(const S& model, const std::vector<double>& v = {}) { return "        velocity_model: " + model + "\n" + list("velocity_bc_global_vars", v); }
inline S planes6(double x0, double x1, double y0, double y1, double z0, double z1, const S& rest = "") { auto f = [&](int d) { std::vector<double> v(3, 0.0); v[d] = 1; return rest.empty() ? velbc("reflected", v) : rest; }; S r; const double P[3][2] = {{x0, x1}, {y0, y1}, {z0, z1}}; const char* T[3] = {"x_plane", "y_plane", "z_plane"}; for (int d = 0; d < 3; d++) for (int s = 0; s < 2; s++) r += bc(T[d], P[d][s], f(d)); return r; }
// A run of a deck: initialize, setup, and (if asked) execute; the driver stays for inspection.
struct Sim { std::unique_ptr<Driver> d; Outcome out; S deck;
    State_t& st() { return d->State; } swage::Mesh& mesh() { return d->mesh; } Material_t& mats() { return d->Materials; }
#if defined(MC_MONITOR) || defined(MC_SEPARATE)
    long epoch = g_epoch; void capture() { if (!g_capture || !d || !out.ok || epoch != g_epoch) return; auto& n = st().node; auto& g = st().GaussPoints; auto& m = st().MaterialPoints;
#define GRAB(x, a) grab(#a, x.a);
        GRAB(n, coords) GRAB(n, vel) GRAB(n, mass) GRAB(n, force) GRAB(n, temp) GRAB(n, q_transfer) GRAB(n, gradient_level_set) GRAB(g, vol) GRAB(g, vel_grad) GRAB(g, level_set)
        GRAB(m, den) GRAB(m, pres) GRAB(m, stress) GRAB(m, sie) GRAB(m, sspd) GRAB(m, mass) GRAB(m, q_flux) GRAB(m, volfrac) GRAB(m, geo_volfrac) GRAB(m, eos_state_vars) GRAB(m, strength_state_vars) GRAB(m, eroded)
    }
#ifdef MC_SEPARATE
    ~Sim() { capture(); if (d && out.ok && epoch == g_epoch) watch::files(); if (d) {
#else
    ~Sim() { capture(); if (d) {
#endif
#else
    ~Sim() { if (d) {
#endif
        for (auto* s : d->solvers) delete s; d->solvers.clear(); } } };
enum Stage { INIT = 0, SETUP = 1, EXEC = 2 };
inline S deckfile(const S& deck) { S f = scratch() + "/deck.yaml"; put(f, deck); return f; }
inline void simulate(Sim& s, const S& deck, Stage upto) { s.deck = deck; S f = deckfile(deck); s.out = guarded([&] { s.d = std::make_unique<Driver>((char*)f.c_str()); s.d->initialize(); if (upto >= SETUP) s.d->setup(); if (upto >= EXEC) s.d->execute(); }); }
}
