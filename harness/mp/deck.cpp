// P04: settings in the deck reach the simulation, those left out keep their defaults, wrong ones are refused.
// Every section is described by a table: option -> values -> the fields they set (the reference). The deck is made of the base
// deck plus up to three options of one section (or two items of a list section); all fields of all sections are compared.
#include "mp.hpp"
#include "parse_yaml.hpp"
#include <new>
using namespace mp; typedef std::string S; typedef std::map<S, S> Fields;
MP_EXIT
struct Val { S text; std::vector<std::pair<S, S>> set; bool bad = false; };
struct Option { S group, key; std::vector<Val> v; };
struct Section { S name; std::vector<Option> opts; std::vector<S> base; /* keys ("group/key") always present, with value 0, unless dropped */ std::vector<S> required; };
static S full(const Option& o) { return o.group.empty() ? o.key : o.group + "/" + o.key; }
static S I(long i) { return std::to_string(i); }
static Option D(const S& k, const S& f, std::vector<S> v = {"0.25", "3.5e2"}) { Option o; size_t p = k.find('/'); o.group = p == S::npos ? "" : k.substr(0, p); o.key = p == S::npos ? k : k.substr(p + 1); for (auto& t : v) o.v.push_back({t, {{f, num(std::stod(t))}}}); return o; }
static Option Wd(const S& k, const S& f, std::vector<std::pair<S, long>> ws, std::vector<S> bad = {}) { Option o = D(k, f, {}); for (auto& w : ws) o.v.push_back({w.first, {{f, I(w.second)}}}); bad.push_back("bogus"); bad.push_back(ws[0].first + "x"); bad.push_back(ws[0].first.substr(0, ws[0].first.size() - 1)); for (auto& b : bad) o.v.push_back({b, {}, true}); return o; }
static Option V(const S& k, const S& f, bool whole = false) { Option o = D(k, f, {}); auto add = [&](const S& t, std::vector<double> v) { Val x; x.text = t; for (int i = 0; i < 3; i++) x.set.push_back({f + I(i), num(v[i])}); o.v.push_back(x); };
    if (whole) { add("[2, 3, 4]", {2, 3, 4}); add("[7,5]", {7, 5, 0}); } else { add("[0.5, -1.5, 2e1]", {.5, -1.5, 20}); add("[0.75,0.125]", {.75, .125, 0}); }
    for (S b : {"[1]", "1, 2, 3", "[]", "[1, 2, 3, 4]", "[a, 1, 2]", "[1, , 2]"}) o.v.push_back({b, {}, true}); return o; }
static Option Lst(const S& k, const S& f, std::vector<std::vector<double>> vs, size_t lo = 1, size_t hi = 100) { Option o = D(k, f, {}); for (auto& v : vs) { Val x; x.text = "\n"; S s; for (double d : v) { x.text += "@- " + num(d) + "\n"; s += (s.empty() ? "" : " ") + num(d); } x.set.push_back({f, s}); x.set.push_back({f + "#", I(v.size())}); x.bad = v.size() < lo || v.size() > hi; o.v.push_back(x); } return o; }
static std::vector<double> seq(int n, double a) { std::vector<double> r; for (int i = 0; i < n; i++) r.push_back(a + i); return r; }
static std::vector<S> words(const std::vector<std::pair<S, long>>& m) { std::vector<S> r; for (auto& p : m) r.push_back(p.first); return r; }

static std::vector<std::pair<S, long>> scalarTypes(bool all) { using namespace init_conds; std::vector<std::pair<S, long>> r = {{"uniform", uniform}, {"tg_vortex", tgVortexScalar}}; if (all) { r.push_back({"radial", radialScalar}); r.push_back({"spherical", sphericalScalar}); r.push_back({"x_linear", xlinearScalar}); r.push_back({"y_linear", ylinearScalar}); r.push_back({"z_linear", zlinearScalar}); } return r; }
static std::vector<Section> sections() { std::vector<Section> R; Section s;
    s = {"mesh_options", {}, {"source", "num_dims"}, {"source", "num_dims"}};
    s.opts = {Wd("source", "mesh.source", {{"generate", mesh_input::generate}, {"file", mesh_input::file}}), D("num_dims", "mesh.num_dims", {"3", "2"}), Wd("type", "mesh.type", {{"box", mesh_input::Box}, {"polar", mesh_input::Polar}}), D("file_path", "mesh.file_path", {}), V("origin", "mesh.origin"), V("length", "mesh.length"), V("num_elems", "mesh.num_elems", true), D("polynomial_order", "mesh.p_order", {"2", "3"})};
    s.opts[3].v = {{"some/mesh.vtk", {{"mesh.file_path", "some/mesh.vtk"}}}};
    for (S k : {"inner_radius", "outer_radius", "starting_angle", "ending_angle", "scale_x", "scale_y", "scale_z"}) s.opts.push_back(D(k, "mesh." + k)); for (S k : {"num_radial_elems", "num_angular_elems"}) s.opts.push_back(D(k, "mesh." + k, {"4", "17"})); R.push_back(s);
    s = {"dynamic_options", {}, {"time_final", "cycle_stop"}, {"time_final", "cycle_stop"}};
    for (S k : {"time_final", "time_initial", "dt_min", "dt_max", "dt_start", "dt_cfl", "fuzz", "tiny", "small"}) s.opts.push_back(D(k, "dyn." + k)); for (S k : {"cycle_stop", "rk_num_stages"}) s.opts.push_back(D(k, "dyn." + k, {"3", "400"})); R.push_back(s);
    s = {"output_options", {}, {"output_file_format"}, {}};
    auto names = [&](const S& k, const S& f, const S& word, std::vector<std::pair<S, long>> m, bool sie) { Option o = D(k, f, {}); auto add = [&](std::vector<int> ix) { Val x; x.text = "\n"; S t; bool e = false, ms = false; for (int i : ix) { x.text += "@- " + m[i].first + "\n"; t += " " + I(m[i].second); e |= m[i].first == "sie"; ms |= m[i].first == "mass"; } if (sie && e && !ms) { t += " " + I((long)material_pt_state::mass); } x.set = {{f, t}}; o.v.push_back(x); };
        for (int i = 0; i < (int)m.size(); i++) add({i}); add({(int)m.size() - 1, 0}); if (m.size() > 3) add({3, 1, 2}); Val b; b.text = "\n@- " + m[0].first + "\n@- bogus\n"; b.bad = true; o.v.push_back(b); o.v.push_back({"\n@- " + word + "\n", {}, true}); return o; };
    std::vector<std::pair<S, long>> ns = {{"coords", (long)node_state::coords}, {"vel", (long)node_state::velocity}, {"temp", (long)node_state::temp}, {"mass", (long)node_state::mass}, {"force", (long)node_state::force}, {"grad_level_set", (long)node_state::gradient_level_set}},
        gs = {{"volume", (long)gauss_pt_state::volume}, {"level_set", (long)gauss_pt_state::level_set}, {"vel_grad", (long)gauss_pt_state::gradient_velocity}},
        ms = {{"den", (long)material_pt_state::density}, {"pres", (long)material_pt_state::pressure}, {"stress", (long)material_pt_state::stress}, {"sie", (long)material_pt_state::specific_internal_energy}, {"sspd", (long)material_pt_state::sound_speed}, {"mass", (long)material_pt_state::mass}, {"volfrac", (long)material_pt_state::volume_fraction}, {"eroded", (long)material_pt_state::eroded_flag}}, es(ms.begin(), ms.begin() + 6);
    s.opts = {Wd("output_file_format", "out.format", {{"viz", output_options::viz}, {"ensight", output_options::ensight}, {"state", output_options::state}, {"viz_and_state", output_options::viz_and_state}}), Wd("timer_output_level", "out.timer", {{"thorough", output_options::thorough}}), D("graphics_time_step", "out.dt"), D("graphics_iteration_step", "out.it", {"3", "400"}), names("node_field_outputs", "out.node", "den", ns, false), names("gauss_pt_field_outputs", "out.gauss", "den", gs, false), names("mat_pt_field_outputs", "out.mat", "vel", ms, false), names("elem_field_outputs", "out.elem", "volfrac", es, true)};
    R.push_back(s);
    s = {"multimaterial_options", {}, {}, {}};
    std::vector<std::pair<S, long>> eq = {{"no_equilibration", model::noEquilibration}, {"tipton", model::tiptonEquilibration}, {"user_defined", model::userDefinedEquilibration}};
    s.opts = {D("max_num_mats_per_element", "mm.max", {"2", "5"}), Wd("mat_equilibration_model", "mm.mat_model", eq), Wd("geo_equilibration_model", "mm.geo_model", eq), Lst("mat_equilibration_global_vars", "mm.mat_vars", {{.25, 1}, {3, 2, 1}, {7}}, 2), Lst("geo_equilibration_global_vars", "mm.geo_vars", {{.5, 2}, {6, 5, 4}, {8}}, 2)}; R.push_back(s);
    // list sections: '%' is the index of the item
    s = {"solver_options", {}, {"method", "id"}, {"method", "id"}};
    s.opts = {Wd("method", "solver%.method", {{"dynx_FE", solver_input::SGH3D}, {"dynx_FE_rz", solver_input::SGHRZ}, {"thrmex_FE", solver_input::SGTM3D}, {"level_set", solver_input::levelSet}, {"qstatx_FE", solver_input::TLQS3D}}), D("id", "solver%.id", {}), D("time_end", "solver%.time_end", {"0.5", "2e1"}), Wd("use_moving_heat_source", "solver%.moving", {{"true", 1}, {"false", 0}})};
    s.opts[1].v = {{"%", {}}, {"-1", {}, true}, {"9", {}, true}}; s.opts[2].v.push_back({"-0.5", {}, true}); s.opts[3].v.resize(2); R.push_back(s);
    s = {"boundary_conditions", {}, {"solver_id", "surface/type"}, {"solver_id", "surface"}};
    { using namespace boundary_conditions;
      s.opts = {D("solver_id", "bc%.solver", {"0"}), Wd("surface/type", "bc%.surface", {{"y_plane", yPlane}, {"x_plane", xPlane}, {"z_plane", zPlane}, {"cylinder", boundary_conditions::cylinder}, {"sphere", boundary_conditions::sphere}, {"global", boundary_conditions::global}}), D("surface/plane_position", "bc%.value"), D("surface/radius", "bc%.value", {"0.125", "4"}), D("surface/tolerance", "bc%.tol", {"0.001", "2e-5"}), V("surface/origin", "bc%.origin"),
        Wd("velocity_model", "bc%.vmodel", {{"constant", constantVelocityBC}, {"none", noVelocityBC}, {"time_varying", timeVaryingVelocityBC}, {"reflected", reflectedVelocityBC}, {"fixed", zeroVelocityBC}, {"user_defined", userDefinedVelocityBC}, {"piston", pistonVelocityBC}}),
        Wd("stress_model", "bc%.smodel", {{"constant", constantStressBC}, {"none", noStressBC}, {"time_varying", timeVaryingStressBC}, {"user_defined", userDefinedStressBC}, {"fracture", fractureStressBC}}),
        Wd("temperature_model", "bc%.tmodel", {{"constant", constantTemperatureBC}, {"none", noTemperatureBC}, {"convection", convectionTemperatureBC}, {"radiation", radiationTemperatureBC}}),
        Lst("velocity_bc_global_vars", "bc%.vvars", {{1.5, -2, 3}, seq(100, .5), seq(101, 0)}), Lst("stress_bc_global_vars", "bc%.svars", {{4.5}, {1, 2, 3, 4, 5, 6, 7, 8}, seq(101, 0)}), Lst("temperature_bc_global_vars", "bc%.tvars", {{300}, {10, 20, 30}, seq(101, 0)}), Lst("contact_bc_vars", "bc.contact", {{30, 20}, {11, 12}, {1}, {1, 2, 3}}, 2, 2)};
      s.opts[0].v = {{"0", {{"bc%.solver", "0"}}}, {"1", {{"bc%.solver", "1"}}}, {"-1", {}, true}, {"2", {}, true}};
      s.opts[7].v.push_back({"global_contact", {{"bc.contact_on", "1"}}}); s.opts[7].v.push_back({"preload_contact", {{"bc.contact_on", "1"}, {"bc.preload_on", "1"}}});
      for (auto& o : s.opts) if (o.key == "stress_model") for (auto& v : o.v) if (v.text == "fracture") v.set.push_back({"bc.fracture", "%"}); }
    R.push_back(s);
    s = {"materials", {}, {"id", "eos_model", "eos_model_type", "eos_global_vars"}, {"id"}};
    s.opts = {D("id", "m", {}), Wd("eos_model", "mat%.eos", {{"gamma_law_gas", model::gammaLawGasEOS}, {"no_eos", model::noEOS}, {"void", model::voidEOS}, {"user_defined_eos", model::userDefinedEOS}, {"host_user_defined_eos", model::hostUserDefinedEOS}, {"linear_elastic_eos", model::linearElasticEOS}}, {"mie_gruneisen_eos"}), Wd("eos_model_type", "mat%.eos_type", {{"decoupled", model::decoupledEOSType}, {"coupled", model::coupledEOSType}}),
        Lst("eos_global_vars", "mat%.eos_vars", {{1.4, 1e-14, .7}, seq(100, .5), {2.5}, seq(101, 0)}), D("strength_model", "m", {}), Wd("strength_model_type", "mat%.str_type", {{"increment_based", model::incrementBased}, {"no_strength", model::noStrengthType}}, {"state_based"}), Lst("strength_global_vars", "mat%.str_vars", {{5, 6}, seq(100, 1), seq(101, 0)}),
        D("dissipation_model", "m", {}), Lst("dissipation_global_vars", "mat%.dis_vars", {{1.25, 1, 1.5, .5, .25, .125}, seq(10, 2), seq(5, 1), seq(11, 1)}, 6, 10), Wd("erosion_model", "mat%.erosion", {{"basic", model::basicErosion}, {"no_erosion", model::noErosion}}), D("erode_tension_val", "mat%.tension", {"0.5", "-3"}), D("erode_density_val", "mat%.eden", {"0.75", "2"}), Wd("level_set_type", "mat%.ls", {{"evolve_front", model::evolveFront}, {"no_level_set", model::noLevelSet}}), D("normal_velocity", "mat%.vn", {"0.5", "-1"}), D("curvature_velocity", "mat%.vc", {"0.75", "-1.5"})};
    s.opts[0].v = {{"%", {}}, {"-1", {}, true}, {"9", {}, true}};
    for (S w : {"hypo_plasticity_strength"}) s.opts[4].v.push_back({w, {{"mat%.has_stress", "1"}, {"need3", "1"}}}); for (S w : {"hypo_plasticity_strength_rz"}) s.opts[4].v.push_back({w, {{"mat%.has_stress", "1"}, {"need2", "1"}}}); for (S w : {"no_strength", "user_defined_strength"}) s.opts[4].v.push_back({w, {{"mat%.has_stress", "1"}}});
    /* the last two words need sources that are not in the repository */ for (S w : {"bogus", "hypo", "no_strengthx", "hypo_elastic_plastic_strength", "hypo_elastic_plastic_strength_rz"}) s.opts[4].v.push_back({w, {}, true});
    s.opts[7].v = {{"MARS", {{"mat%.dis", I(model::MARS)}, {"need3", "1"}}}, {"directional_MARS", {{"mat%.dis", I(model::directionalMARS)}, {"need3", "1"}}}, {"MARS_rz", {{"mat%.dis", I(model::MARSRZ)}, {"need2", "1"}}}, {"directional_MARS_rz", {{"mat%.dis", I(model::directionalMARSRZ)}, {"need2", "1"}}}, {"bogus", {}, true}, {"mars", {}, true}};
    R.push_back(s);
    s = {"regions", {}, {"material_id", "solver_id", "volume/type", "density/type", "density/value"}, {"material_id", "volume"}};
    auto vt = [](const S& k, const S& f, bool all) { Option o = Wd(k, f, scalarTypes(all)); if (!all) for (S b : {"radial", "x_linear"}) o.v.push_back({b, {}, true}); return o; };
    s.opts = {D("material_id", "reg%.mat", {}), D("solver_id", "reg%.solver", {}), Wd("volume/type", "reg%.volume", {{"box", region::box}, {"global", region::global}, {"sphere", region::sphere}, {"cylinder", region::cylinder}, {"vtu_file", region::readVTUFile}}), vt("density/type", "reg%.den_field", false), D("density/value", "reg%.den")};
    s.opts[0].v = {{"0", {{"reg%.mat", "0"}}}, {"1", {{"reg%.mat", "1"}}}, {"2", {}, true}, {"-1", {}, true}}; s.opts[1].v = {{"0", {{"reg%.solver", "0"}}}, {"1", {{"reg%.solver", "1"}}}, {"2", {}, true}, {"-1", {}, true}};
    { Val v; v.text = "voxel_file"; v.bad = true; s.opts[2].v.push_back(v); } // without a file
    for (S k : {"x1", "x2", "y1", "y2", "z1", "z2", "radius1", "radius2", "scale_x", "scale_y", "scale_z"}) s.opts.push_back(D("volume/" + k, "reg%." + k, {"0.25", "-3.5"})); s.opts.push_back(D("volume/part_id", "reg%.part", {"3", "7"})); s.opts.push_back(V("volume/origin", "reg%.origin"));
    struct Q { const char *k, *f; }; for (Q q : {Q{"specific_internal_energy", "sie"}, {"internal_energy", "ie"}, {"specific_heat", "specific_heat"}, {"thermal_conductivity", "thermal_conductivity"}, {"temperature", "temperature"}}) { s.opts.push_back(vt(S(q.k) + "/type", S("reg%.") + q.f + "_field", false)); s.opts.push_back(D(S(q.k) + "/value", S("reg%.") + q.f)); }
    for (Q q : {Q{"volume_fraction", "volfrac"}, {"level_set", "level_set"}}) { s.opts.push_back(vt(S(q.k) + "/type", S("reg%.") + q.f + "_field", true)); s.opts.push_back(D(S(q.k) + "/value", S("reg%.") + q.f)); s.opts.push_back(D(S(q.k) + "/slope", S("reg%.") + q.f + "_slope")); s.opts.push_back(V(S(q.k) + "/origin", S("reg%.") + q.f + "_origin")); }
    { using namespace init_conds; s.opts.push_back(Wd("velocity/type", "reg%.vel_field", {{"cartesian", cartesian}, {"static", stationary}, {"radial", radialVec}, {"spherical", sphericalVec}, {"radial_linear", radialLinearVec}, {"spherical_linear", sphericalLinearVec}, {"tg_vortex", tgVortexVec}})); } for (S k : {"u", "v", "w", "speed"}) s.opts.push_back(D("velocity/" + k, "reg%." + k));
    R.push_back(s);
    for (auto& x : R) { Option o; o.key = "bogus_option"; o.v = {{"1", {}, true}}; x.opts.push_back(o); std::set<S> g; for (auto& p : x.opts) if (!p.group.empty()) g.insert(p.group); for (auto& p : g) { Option o2; o2.group = p; o2.key = "bogus_option"; o2.v = {{"1", {}, true}}; x.opts.push_back(o2); } }
    return R; }

// the fields the deck leaves at their documented defaults
static void defaults(Fields& F, int nsol, int nbc, int nmat, int nreg) {
    auto z3 = [&](const S& f, double v = 0) { for (int i = 0; i < 3; i++) F[f + I(i)] = num(v); };
    F["mesh.source"] = "0"; F["mesh.type"] = "0"; F["mesh.num_dims"] = "3"; F["mesh.file_path"] = ""; z3("mesh.origin"); z3("mesh.length"); z3("mesh.num_elems", 1); F["mesh.p_order"] = "1"; F["mesh.inner_radius"] = "0"; F["mesh.outer_radius"] = "1"; F["mesh.starting_angle"] = "0"; F["mesh.ending_angle"] = "90"; F["mesh.scale_x"] = F["mesh.scale_y"] = F["mesh.scale_z"] = "1"; F["mesh.num_radial_elems"] = "10"; F["mesh.num_angular_elems"] = "10";
    for (auto& p : std::vector<std::pair<S, double>>{{"time_initial", 1e-10}, {"time_final", 1}, {"dt_min", 1e-8}, {"dt_max", 1e-2}, {"dt_start", 1e-5}, {"dt_cfl", .4}, {"cycle_stop", 2000000}, {"fuzz", 1e-16}, {"tiny", 1e-12}, {"small", 1e-8}, {"rk_num_stages", 2}}) F["dyn." + p.first] = num(p.second);
    F["out.format"] = "0"; F["out.timer"] = "0"; F["out.dt"] = "1"; F["out.it"] = "2000000"; for (S k : {"node", "gauss", "mat", "elem"}) F["out." + k] = "";
    F["mm.max"] = "3"; F["mm.mat_model"] = F["mm.geo_model"] = I(model::noEquilibration); F["mm.mat_vars"] = F["mm.geo_vars"] = ""; F["mm.mat_vars#"] = F["mm.geo_vars#"] = "0";
    for (int i = 0; i < nsol; i++) { S s = "solver" + I(i) + "."; F[s + "method"] = I(solver_input::NONE); F[s + "time_end"] = "0"; F[s + "moving"] = "0"; }
    F["bc.contact_on"] = F["bc.preload_on"] = "0"; F["bc.fracture"] = "-1"; F["bc.contact"] = "default"; F["bc.contact#"] = "2";
    for (int i = 0; i < nbc; i++) { S s = "bc" + I(i) + "."; F[s + "surface"] = "0"; F[s + "value"] = "0"; F[s + "tol"] = "1e-07"; z3(s + "origin"); F[s + "vmodel"] = F[s + "smodel"] = F[s + "tmodel"] = "0"; for (S k : {"vvars", "svars", "tvars"}) { F[s + k] = ""; F[s + k + "#"] = "0"; } }
    for (int i = 0; i < nmat; i++) { S s = "mat" + I(i) + "."; F[s + "eos"] = I(model::noEOS); F[s + "eos_type"] = I(model::noEOSType); F[s + "str_type"] = I(model::noStrengthType); F[s + "dis"] = I(model::noDissipation); F[s + "erosion"] = I(model::noErosion); F[s + "ls"] = I(model::noLevelSet); F[s + "has_stress"] = "0"; for (S k : {"eos_vars", "str_vars", "dis_vars"}) { F[s + k] = ""; F[s + k + "#"] = "0"; } }
    for (int i = 0; i < nreg; i++) { S s = "reg" + I(i) + "."; F[s + "volume"] = "0"; F[s + "mat"] = F[s + "solver"] = "0"; for (S k : {"x1", "x2", "y1", "y2", "z1", "z2", "radius1", "radius2", "u", "v", "w", "speed", "temperature", "ie", "sie", "den", "level_set", "level_set_slope", "volfrac_slope", "specific_heat", "thermal_conductivity"}) F[s + k] = "0"; F[s + "volfrac"] = "1"; F[s + "part"] = "1"; for (S k : {"scale_x", "scale_y", "scale_z"}) F[s + k] = "1";
        for (S k : {"den", "sie", "ie", "level_set", "temperature", "thermal_conductivity", "specific_heat"}) F[s + k + "_field"] = I(init_conds::noICsScalar); F[s + "volfrac_field"] = I(init_conds::uniform); F[s + "vel_field"] = I(init_conds::noICsVec); for (S k : {"origin", "level_set_origin", "volfrac_origin"}) z3(s + k); }
}
template<class R> static S rag(const R& a, size_t i, size_t n) { S s; for (size_t j = 0; j < n; j++) s += (s.empty() ? "" : " ") + num(a(i, j)); return s; }
static void observe(Fields& F, SimulationParameters_t& P, Material_t& M, BoundaryCondition_t& B, const Fields& want) {
    auto v3 = [&](const S& f, auto& a) { for (int i = 0; i < 3; i++) F[f + I(i)] = num(a[i]); };
    auto& m = P.mesh_input; F["mesh.source"] = I(m.source); F["mesh.type"] = I(m.type); F["mesh.num_dims"] = I(m.num_dims); F["mesh.file_path"] = m.file_path; v3("mesh.origin", m.origin); v3("mesh.length", m.length); v3("mesh.num_elems", m.num_elems); F["mesh.p_order"] = I(m.p_order); F["mesh.inner_radius"] = num(m.inner_radius); F["mesh.outer_radius"] = num(m.outer_radius); F["mesh.starting_angle"] = num(m.starting_angle); F["mesh.ending_angle"] = num(m.ending_angle); F["mesh.scale_x"] = num(m.scale_x); F["mesh.scale_y"] = num(m.scale_y); F["mesh.scale_z"] = num(m.scale_z); F["mesh.num_radial_elems"] = I(m.num_radial_elems); F["mesh.num_angular_elems"] = I(m.num_angular_elems);
    auto& d = P.dynamic_options; F["dyn.time_initial"] = num(d.time_initial); F["dyn.time_final"] = num(d.time_final); F["dyn.dt_min"] = num(d.dt_min); F["dyn.dt_max"] = num(d.dt_max); F["dyn.dt_start"] = num(d.dt_start); F["dyn.dt_cfl"] = num(d.dt_cfl); F["dyn.cycle_stop"] = num(d.cycle_stop); F["dyn.fuzz"] = num(d.fuzz); F["dyn.tiny"] = num(d.tiny); F["dyn.small"] = num(d.small); F["dyn.rk_num_stages"] = num(d.rk_num_stages);
    auto& o = P.output_options; F["out.format"] = I(o.format); F["out.timer"] = I(o.timer_level); F["out.dt"] = num(o.graphics_time_step); F["out.it"] = I(o.graphics_iteration_step); auto en = [&](const S& f, auto& v) { S s; for (auto e : v) s += " " + I((long)e); F[f] = s; }; en("out.node", o.output_node_state); en("out.gauss", o.output_gauss_pt_state); en("out.mat", o.output_mat_pt_state); en("out.elem", o.output_elem_state);
    F["mm.max"] = I(M.max_num_mats_per_element); F["mm.mat_model"] = I(M.EquilibrationModels); F["mm.geo_model"] = I(M.GeoEquilibrationModels); auto ca = [&](const S& f, auto& a, size_t n) { S s; for (size_t i = 0; i < n; i++) s += (s.empty() ? "" : " ") + num(a(i)); F[f] = s; F[f + "#"] = I(n); }; ca("mm.mat_vars", M.equilibration_global_vars, M.num_equilibration_global_vars); ca("mm.geo_vars", M.geo_equilibration_global_vars, M.num_geo_equilibration_global_vars);
    for (size_t i = 0; i < P.solver_inputs.size(); i++) { S s = "solver" + I(i) + "."; F[s + "method"] = I(P.solver_inputs[i].method); F[s + "time_end"] = num(P.solver_inputs[i].time_end); F[s + "moving"] = I(P.solver_inputs[i].use_moving_heat_source); }
    F["bc.contact_on"] = I(B.allow_contact); F["bc.preload_on"] = I(B.allow_preload); F["bc.fracture"] = I(B.fracture_bc_id); F["bc.contact#"] = "2"; F["bc.contact"] = want.at("bc.contact") == "default" ? S("default") : I(B.contact_max_local_iter) + " " + I(B.contact_max_global_iter);
    size_t nb = B.num_bcs; for (size_t i = 0; i < nb; i++) { S s = "bc" + I(i) + "."; auto& e = B.BoundaryConditionEnums(i); auto& u = B.BoundaryConditionSetup(i); F[s + "surface"] = I(u.surface); F[s + "value"] = num(u.value); F[s + "tol"] = num(u.tolerance); v3(s + "origin", u.origin); F[s + "vmodel"] = I(e.BCVelocityModel); F[s + "smodel"] = I(e.BCStressModel); F[s + "tmodel"] = I(e.BCTemperatureModel);
        F[s + "vvars#"] = I(B.num_velocity_bc_global_vars(i)); F[s + "svars#"] = I(B.num_stress_bc_global_vars(i)); F[s + "tvars#"] = I(B.num_temperature_bc_global_vars(i)); F[s + "vvars"] = rag(B.velocity_bc_global_vars, i, B.num_velocity_bc_global_vars(i)); F[s + "svars"] = rag(B.stress_bc_global_vars, i, B.num_stress_bc_global_vars(i)); F[s + "tvars"] = rag(B.temperature_bc_global_vars, i, B.num_temperature_bc_global_vars(i)); }
    auto lists = [&](const S& f, auto& num_, auto& lst) { for (size_t k = 0; k < P.solver_inputs.size(); k++) { S s; for (size_t j = 0; j < num_.host(k); j++) s += " " + I(lst.host(k, j)); F[f + I(k)] = s; } };
    lists("bc.vel", B.num_vel_bdy_sets_in_solver, B.vel_bdy_sets_in_solver); lists("bc.stress", B.num_stress_bdy_sets_in_solver, B.stress_bdy_sets_in_solver); lists("bc.temp", B.num_temperature_bdy_sets_in_solver, B.temperature_bdy_sets_in_solver); lists("reg.in", P.region_setups.num_reg_fills_in_solver, P.region_setups.reg_fills_in_solver);
    for (size_t i = 0; i < M.num_mats; i++) { S s = "mat" + I(i) + "."; auto &e = M.MaterialEnums(i), &h = M.MaterialEnums.host(i); auto& f = M.MaterialFunctions(i); auto both = [&](long a, long b) { return a == b ? I(a) : I(a) + "/" + I(b); }; F[s + "eos"] = both(e.EOSModels, h.EOSModels); F[s + "eos_type"] = both(e.EOSType, h.EOSType); F[s + "str_type"] = both(e.StrengthType, h.StrengthType); F[s + "dis"] = both(e.DissipationModels, h.DissipationModels); F[s + "erosion"] = both(e.ErosionModels, h.ErosionModels); F[s + "ls"] = I(h.levelSetType); F[s + "has_stress"] = I(f.calc_stress != NULL || M.MaterialFunctions.host(i).calc_stress != NULL);
        if (want.count(s + "tension")) F[s + "tension"] = num(f.erode_tension_val); if (want.count(s + "eden")) F[s + "eden"] = num(f.erode_density_val); if (want.count(s + "vn")) F[s + "vn"] = num(f.normal_velocity); if (want.count(s + "vc")) F[s + "vc"] = num(f.curvature_velocity);
        F[s + "eos_vars#"] = I(M.num_eos_global_vars(i)); F[s + "str_vars#"] = I(M.num_strength_global_vars(i)); F[s + "dis_vars#"] = I(M.num_dissipation_global_vars(i)); F[s + "eos_vars"] = rag(M.eos_global_vars, i, M.num_eos_global_vars(i)); F[s + "str_vars"] = rag(M.strength_global_vars, i, M.num_strength_global_vars(i)); F[s + "dis_vars"] = rag(M.dissipation_global_vars, i, M.num_dissipation_global_vars(i)); }
    auto& R = P.region_setups; for (size_t i = 0; i < R.region_fills.size(); i++) { S s = "reg" + I(i) + "."; auto& r = R.region_fills(i); auto& h = R.region_fills_host(i); F[s + "volume"] = I(r.volume); F[s + "mat"] = I(r.material_id); F[s + "solver"] = I(r.solver_id);
#define N(f) F[s + #f] = num(r.f);
        N(x1) N(x2) N(y1) N(y2) N(z1) N(z2) N(radius1) N(radius2) N(u) N(v) N(w) N(speed) N(temperature) N(ie) N(sie) N(den) N(level_set) N(level_set_slope) N(volfrac) N(volfrac_slope) N(specific_heat) N(thermal_conductivity)
#undef N
#define N(f) F[s + #f] = I(r.f);
        N(den_field) N(sie_field) N(ie_field) N(level_set_field) N(temperature_field) N(thermal_conductivity_field) N(specific_heat_field) N(volfrac_field) N(vel_field)
#undef N
        F[s + "part"] = I(r.part_id); F[s + "scale_x"] = num(h.scale_x); F[s + "scale_y"] = num(h.scale_y); F[s + "scale_z"] = num(h.scale_z); v3(s + "origin", r.origin); v3(s + "level_set_origin", r.level_set_origin); v3(s + "volfrac_origin", r.volfrac_origin); }
    std::set<S> g; for (auto f : R.fill_gauss_states) g.insert("g" + I((long)f)); for (auto f : R.fill_node_states) g.insert("n" + I((long)f)); S t; for (auto& x : g) t += x + " "; F["reg.fills"] = t; }

static const std::vector<Section>& T() { static std::vector<Section> t = sections(); return t; }
struct Item { std::vector<std::pair<const Option*, int>> sel; };
static S subst(S s, int i) { size_t p; while ((p = s.find('%')) != S::npos) s.replace(p, 1, I(i)); return s; }
static const char* itemName(const S& s) { return s == "solver_options" ? "solver" : s == "boundary_conditions" ? "boundary_condition" : s == "materials" ? "material" : s == "regions" ? "region" : nullptr; }
static void line(S& t, const S& ind, const S& key, const S& val) { if (val[0] == '\n') { t += ind + key + ":\n"; S b = val.substr(1); size_t p = 0; while (p < b.size()) { size_t e = b.find('\n', p); t += ind + "   " + b.substr(p + 1, e - p - 1) + "\n"; p = e + 1; } } else t += ind + key + ": " + val + "\n"; }
// the text of one item / section; idx replaces '%'; rev: options in reverse order
static S render(const Item& it, const S& ind, int idx, bool rev) { S t; std::vector<std::pair<S, std::vector<std::pair<const Option*, int>>>> groups; for (auto& p : it.sel) { const S& g = p.first->group; if (g.empty()) { groups.push_back({"", {p}}); continue; } bool f = false; for (auto& q : groups) if (q.first == g) { q.second.push_back(p); f = true; } if (!f) groups.push_back({g, {p}}); }
    if (rev) { std::reverse(groups.begin(), groups.end()); for (auto& g : groups) std::reverse(g.second.begin(), g.second.end()); }
    for (auto& g : groups) { S in = ind; if (!g.first.empty()) { t += ind + g.first + ":\n"; in += "   "; } for (auto& p : g.second) line(t, in, p.first->key, subst(p.first->v[p.second].text, idx)); } return t; }

// runs the deck and compares every field
static void run(Ctx& c, const std::map<S, std::vector<Item>>& deck, const std::map<S, std::vector<int>>& ids, bool rev, bool refuse, const S& extra = "") {
    Fields F; auto n = [&](const S& k) { auto i = deck.find(k); return i == deck.end() ? 0 : (int)i->second.size(); }; int ns = n("solver_options"), nb = n("boundary_conditions"), nm = n("materials"), nr = n("regions");
    defaults(F, ns, nb, nm, nr); bool need2 = false, need3 = false; S text; std::vector<S> vel(ns), str(ns), tmp(ns), reg(ns); std::set<S> fills;
    std::vector<S> order; for (auto& s : T()) if (n(s.name)) order.push_back(s.name); if (rev) std::reverse(order.begin(), order.end());
    for (auto& name : order) { const char* in = itemName(name); text += name + ":\n"; auto& items = deck.at(name); for (size_t k = 0; k < items.size(); k++) { int idx = ids.count(name) ? ids.at(name)[k] : (int)k; if (in) text += S("  - ") + in + ":\n"; text += render(items[k], in ? "      " : "   ", idx, rev);
            int solver = 0; std::set<S> has; for (auto& p : items[k].sel) { const Val& v = p.first->v[p.second]; refuse |= v.bad; has.insert(full(*p.first)); if (!p.first->group.empty()) has.insert(p.first->group); for (auto& q : v.set) { if (q.first == "need2") need2 = true; else if (q.first == "need3") need3 = true; else { S f = subst(q.first, idx); F[f] = subst(q.second, idx); if (f == "bc" + I(idx) + ".solver" || f == "reg" + I(idx) + ".solver") solver = atoi(q.second.c_str()); } } }
            for (auto& s : T()) if (s.name == name) for (auto& r : s.required) refuse |= !has.count(r);
            if (name == "regions") for (S g : {"volume", "density", "specific_internal_energy", "internal_energy", "specific_heat", "thermal_conductivity", "temperature", "volume_fraction", "level_set", "velocity"}) refuse |= has.count(g) && !has.count(g + "/type");
            if (name == "boundary_conditions" && solver < ns) { if (has.count("velocity_model")) vel[solver] += " " + I(k); if (has.count("stress_model")) str[solver] += " " + I(k); if (has.count("temperature_model")) tmp[solver] += " " + I(k); F.erase("bc" + I(idx) + ".solver"); }
            if (name == "regions") { if (has.count("solver_id") && solver < ns) reg[solver] += " " + I(k); struct Q { const char* k; S f; }; for (Q q : {Q{"density", "g" + I((long)fill_gauss_state::density)}, {"specific_internal_energy", "g" + I((long)fill_gauss_state::specific_internal_energy)}, {"internal_energy", "g" + I((long)fill_gauss_state::internal_energy)}, {"specific_heat", "g" + I((long)fill_gauss_state::specific_heat)}, {"thermal_conductivity", "g" + I((long)fill_gauss_state::thermal_conductivity)}, {"level_set", "g" + I((long)fill_gauss_state::level_set)}, {"velocity", "n" + I((long)fill_node_state::velocity)}, {"temperature", "n" + I((long)fill_node_state::temperature)}}) if (has.count(q.k)) fills.insert(q.f); bool g = false; for (auto& f : fills) g |= f[0] == 'g'; refuse |= !g; }
            if (name == "materials") { S m = "mat" + I(idx) + "."; bool ev = F[m + "eos_vars#"] != "0", em = has.count("eos_model") && F[m + "eos"] != I(model::noEOS); bool dv = F[m + "dis_vars#"] != "0", dm = has.count("dissipation_model") && F[m + "dis"] != "0"; refuse |= ev != em || dv != dm; if (F[m + "eos"] == I(model::noEOS) && has.count("eos_model")) {} }
        } }
    text += extra; refuse |= need3 && F["mesh.num_dims"] == "2"; refuse |= need2 && F["mesh.num_dims"] == "3"; refuse |= nm == 0; if (F["mesh.source"] == I(mesh_input::generate) && F["mesh.file_path"] != "") refuse = true;
    for (int k = 0; k < ns; k++) { F["bc.vel" + I(k)] = vel[k]; F["bc.stress" + I(k)] = str[k]; F["bc.temp" + I(k)] = tmp[k]; F["reg.in" + I(k)] = reg[k]; } { S t; for (auto& x : fills) t += x + " "; F["reg.fills"] = t; }
    c.note("deck:\n" + text);
    for (int poison = 0; poison < 2; poison++) {
        static void* mem[3]; for (int i = 0; i < 3; i++) { size_t z = i == 0 ? sizeof(SimulationParameters_t) : i == 1 ? sizeof(Material_t) : sizeof(BoundaryCondition_t); if (!mem[i]) mem[i] = malloc(z); memset(mem[i], poison ? 0x11 : 0, z); }
        auto* P = new (mem[0]) SimulationParameters_t; auto* M = new (mem[1]) Material_t; auto* B = new (mem[2]) BoundaryCondition_t;
        auto o = guarded([&] { Yaml::Node root; Yaml::Parse(root, text); parse_yaml(root, *P, *M, *B); });
        c.step(); c.check(o.ok || o.code != -2 || o.what.find("Kokkos::abort") != S::npos, "library", "reading the deck fails inside the array library: " + o.what + "\n" + text);
        if (refuse) c.check(!o.ok, "accepted", "a deck that must be refused is accepted\n" + text); else c.check(o.ok, "refused", "a valid deck is refused: " + o.what + "\n" + text);
        if (o.ok) { Fields G; try { observe(G, *P, *M, *B, F); } catch (mcshim::Failure& e) { c.check(false, "field", "the settings cannot be read: " + e.what); } for (auto& p : F) { auto g = G.find(p.first); c.check(g != G.end() && g->second == p.second, "field " + p.first.substr(0, p.first.find('.')), p.first + " is '" + (g == G.end() ? S("?") : g->second) + "', the deck says '" + p.second + "'\n" + text); } c.validated(); S k; for (auto& p : G) k += p.second + "|"; c.state(hash(k)); }
        P->~SimulationParameters_t(); M->~Material_t(); B->~BoundaryCondition_t(); } }
static const Option* find(const Section& s, const S& k) { for (auto& o : s.opts) if (full(o) == k) return &o; return nullptr; }
static const Section& sec(const S& n) { for (auto& s : T()) if (s.name == n) return s; abort(); }
static Item base(const S& n) { Item i; auto& s = sec(n); for (auto& b : s.base) i.sel.push_back({find(s, b), 0}); return i; }
static std::map<S, std::vector<Item>> baseDeck() { std::map<S, std::vector<Item>> d; for (S n : {"mesh_options", "dynamic_options", "output_options"}) d[n] = {base(n)}; for (S n : {"solver_options", "boundary_conditions", "materials", "regions"}) d[n] = {base(n), base(n)}; return d; }
// sets option o of the item to value v (replacing the base value)
static void put(Item& i, const Option* o, int v) { for (auto& p : i.sel) if (full(*p.first) == full(*o)) { p.second = v; return; } i.sel.push_back({o, v}); }
static void drop(Item& i, const S& k) { for (size_t j = 0; j < i.sel.size(); j++) if (full(*i.sel[j].first) == k || i.sel[j].first->group == k) i.sel.erase(i.sel.begin() + j--); }
// up to n options of one section, any values, two orders; for a list section in item `it` of two
static void options(Ctx& c, const S& name, int n) { auto& s = sec(name); auto d = baseDeck(); std::vector<Item>& items = d[name]; if (items.empty()) items.push_back(Item()); bool list = items.size() == 2; std::map<S, std::vector<int>> ids; for (S x : {"solver_options", "materials"}) ids[x] = {0, 1};
    int which = list ? c.choose(2, "item") : 0; if (list && name != "boundary_conditions" && name != "regions" && c.flip("ids swapped")) ids[name] = {1, 0};
    bool rev = c.flip("reverse order"); int last = -1; for (int k = 0; k < n; k++) { int left = (int)s.opts.size() - last - 1; int j = c.choose(left + 1); if (j == left) break; last += 1 + j; const Option& o = s.opts[last]; int v = c.choose(o.v.size()); ::put(items[which], &o, v); }
    if (name == "materials" && c.flip("two-dimensional")) ::put(d["mesh_options"][0], find(sec("mesh_options"), "num_dims"), 1);
    run(c, d, ids, rev, false); }
// a required option, group or section is missing; ids used twice
static void missing(Ctx& c) { auto d = baseDeck(); std::map<S, std::vector<int>> ids; for (S x : {"solver_options", "materials"}) ids[x] = {0, 1}; bool refuse = false; S extra;
    int kind = c.choose(3, "missing"); if (kind == 0) { auto& s = T()[c.choose((int)T().size(), "section")]; if (!d.count(s.name)) throw Prune(); auto& items = d[s.name]; int which = c.choose((int)items.size(), "item"); std::vector<S> keys; for (auto& p : items[which].sel) { keys.push_back(full(*p.first)); if (!p.first->group.empty()) keys.push_back(p.first->group); } std::sort(keys.begin(), keys.end()); keys.erase(std::unique(keys.begin(), keys.end()), keys.end()); S k = keys[c.choose((int)keys.size(), "option")]; if (k == "density/type") {} drop(items[which], k); if (items[which].sel.empty()) throw Prune(); if (s.name == "materials" && k == "id") refuse = true; }
    else if (kind == 1) { S n = std::vector<S>{"solver_options", "materials"}[c.choose(2, "list")]; int same = c.choose(2, "id"); ids[n] = {same, same}; refuse = true; }
    else { static const std::vector<S> secs = {"mesh_options", "dynamic_options", "output_options", "solver_options", "boundary_conditions", "materials", "regions"}; int k = c.choose(secs.size(), "section"); S n = secs[k]; bool empty = c.flip("left empty"); d[n] = {}; if (empty) d[n].clear(); d.erase(n); extra = empty ? n + ":\n" : ""; refuse = k <= 1 || k == 3 || k == 5; }
    run(c, d, ids, c.flip("reverse order"), refuse, extra); }
// two items of a list section, up to n options each
static void items(Ctx& c, const S& name, int n) { auto& s = sec(name); auto d = baseDeck(); std::map<S, std::vector<int>> ids; for (S x : {"solver_options", "materials"}) ids[x] = {0, 1}; if (name == "solver_options" || name == "materials") if (c.flip("ids swapped")) ids[name] = {1, 0};
    for (int w = 0; w < 2; w++) { int last = -1; for (int k = 0; k < n; k++) { int left = (int)s.opts.size() - last - 1; int j = c.choose(left + 1); if (j == left) break; last += 1 + j; const Option& o = s.opts[last]; std::vector<int> good; for (size_t v = 0; v < o.v.size(); v++) if (!o.v[v].bad) good.push_back(v); if (good.empty()) throw Prune(); int v = good[w == 0 ? 0 : std::min<size_t>(1, good.size() - 1)]; if (name == "boundary_conditions" && o.key == "stress_model") v = good[c.choose(good.size())]; ::put(d[name][w], &o, v); } }
    bool two = name == "materials" && c.flip("two-dimensional"); if (two) ::put(d["mesh_options"][0], find(sec("mesh_options"), "num_dims"), 1);
    run(c, d, ids, c.flip("reverse order"), false); }
int main(int argc, char** argv) { bool th = false; for (int i = 1; i < argc; i++) th |= S(argv[i]) == "--thorough"; int n = th ? 3 : 2; std::vector<Scenario> sc;
    sc.push_back({"missing", missing});
    for (auto& s : T()) { S nm = s.name; int k = nm == "solver_options" || nm == "multimaterial_options" || nm == "dynamic_options" ? 3 : n; sc.push_back({"opt_" + nm, [nm, k](Ctx& c) { options(c, nm, k); }}); if (itemName(nm)) sc.push_back({"items_" + nm, [nm, th](Ctx& c) { items(c, nm, nm == "solver_options" || th ? 2 : 1); }}); }
    return main_(argc, argv, "DECK", sc); }
