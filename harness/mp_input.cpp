// Multiphysics input (apps/multiphysics/src/input parse_*.cpp, read_abaqus_files.cpp): every option of the input file reaches the setting it names.
#include "matar.h"
#include "ELEMENTS.h"
#include "fsx_in.h"
using namespace mtr;
#include "input/Yaml.cpp"
#include "input/read_abaqus_files.cpp"
#include "input/parse_tools.cpp"
#include "input/parse_mesh_inputs.cpp"
#include "input/parse_dynamic_inputs.cpp"
#include "input/parse_output_options.cpp"
#include "input/parse_solver_inputs.cpp"
#include "input/parse_bdy_conds_inputs.cpp"
#include "input/parse_regions.cpp"
#include "input/parse_material_inputs.cpp"
#include "input/parse_yaml.cpp"
#include <functional>
typedef std::string Str;
static Str num(double x) { std::ostringstream f; f << std::setprecision(17) << std::scientific << x; return f.str(); }
static Str inum(int n) { std::ostringstream f; f << n; return f.str(); }
static double sd(const char* n, double lo = -10, double hi = 10) { return fsx_double(n, lo, hi); }
static int si(const char* n) { static const int V[3] = {1, 4, 137}; return V[fsx_choose(3, n)]; }
static const char* M = "an option reaches the setting it names";
static void eqd(double a, double b) { fsx_check(a == b, M); }
static void eq(long a, long b) { fsx_check(a == b, M); }
static void load(Yaml::Node& r, const Str& t) { Yaml::Parse(r, t); }
// One option: its text (key and value), and what it does to the settings.
template <class T> struct Opt { Str key, text; std::function<void(T&)> set; };
template <class T> struct Opts { std::vector<Opt<T>> v; void add(const Str& k, const Str& val, std::function<void(T&)> s) { v.push_back({k, k + ": " + val, s}); }
  void num1(const Str& k, double T::*f, double lo = -10, double hi = 10) { double x = sd(k.c_str(), lo, hi); add(k, num(x), [=](T& t) { t.*f = x; }); }
  // which options are given: all, or the required ones and one more; in a chosen order
  Str text(const Str& ind, T& want, const std::vector<Str>& req, int only = -1) { size_t one = only >= 0 ? only : fsx_choose((int)v.size() + 1, "option"); bool back = one == v.size() && fsx_choose(2, "order"); Str r; for (size_t q = 0; q < v.size(); q++) { size_t i = back ? v.size() - 1 - q : q; bool need = one == v.size() || one == i; for (auto& k : req) need = need || k == v[i].key; if (!need) continue; r += ind + v[i].text + "\n"; v[i].set(want); } return r; } };
static Str vec(const double* x, int n) { Str s = "["; for (int i = 0; i < n; i++) s += (i ? ", " : "") + num(x[i]); return s + "]"; }
struct V3 { double x[3]; Str t; V3(const char* n) { int d = 2 + fsx_choose(2, "entries"); for (int i = 0; i < 3; i++) x[i] = i < d ? sd(n) : 0.0; t = vec(x, d); } void to(double* o) const { for (int i = 0; i < 3; i++) o[i] = x[i]; } };
static void same3(const double* a, const double* b) { for (int i = 0; i < 3; i++) eqd(a[i], b[i]); }
template <class F> static bool refused(F f) { try { f(); } catch (std::runtime_error&) { return true; } return false; }

// -- mesh
static void same(mesh_input_t& a, mesh_input_t& b) { eq(a.num_dims, b.num_dims); eq(a.source, b.source); fsx_check(a.file_path == b.file_path, M); if (b.source == mesh_input::generate) eq(a.type, b.type); same3(a.origin, b.origin); same3(a.length, b.length); for (int i = 0; i < 3; i++) eq(a.num_elems[i], b.num_elems[i]); eq(a.p_order, b.p_order); eqd(a.inner_radius, b.inner_radius); eqd(a.outer_radius, b.outer_radius); eqd(a.starting_angle, b.starting_angle); eqd(a.ending_angle, b.ending_angle); eq(a.num_radial_elems, b.num_radial_elems); eq(a.num_angular_elems, b.num_angular_elems); eqd(a.scale_x, b.scale_x); eqd(a.scale_y, b.scale_y); eqd(a.scale_z, b.scale_z); }
FSX_ENTRY h_mesh() { typedef mesh_input_t T; Opts<T> o; bool gen = fsx_choose(2, "source"); T want, got; want.type = got.type = mesh_input::Box; int nd = 2 + fsx_choose(2, "dims"), pol = fsx_choose(2, "polar"), n2 = fsx_choose(2, "entries"); o.add("num_dims", inum(nd), [=](T& t) { t.num_dims = nd; }); o.add("source", gen ? "generate" : "file", [=](T& t) { t.source = gen ? mesh_input::generate : mesh_input::file; }); if (!gen) o.add("file_path", "dir/my mesh.geo", [](T& t) { t.file_path = "dir/my mesh.geo"; }); o.add("type", pol ? "polar" : "box", [=](T& t) { t.type = pol ? mesh_input::Polar : mesh_input::Box; }); V3 og("origin"), ln("length"); o.add("origin", og.t, [=](T& t) { og.to(t.origin); }); o.add("length", ln.t, [=](T& t) { ln.to(t.length); }); o.add("num_elems", n2 ? "[3, 5]" : "[3, 5, 7]", [=](T& t) { t.num_elems[0] = 3; t.num_elems[1] = 5; t.num_elems[2] = n2 ? 0 : 7; }); o.add("polynomial_order", "3", [](T& t) { t.p_order = 3; }); o.num1("inner_radius", &T::inner_radius); o.num1("outer_radius", &T::outer_radius); o.num1("starting_angle", &T::starting_angle); o.num1("ending_angle", &T::ending_angle); o.add("num_radial_elems", "41", [](T& t) { t.num_radial_elems = 41; }); o.add("num_angular_elems", "17", [](T& t) { t.num_angular_elems = 17; }); o.num1("scale_x", &T::scale_x); o.num1("scale_y", &T::scale_y); o.num1("scale_z", &T::scale_z);
  Yaml::Node r; load(r, "mesh_options:\n" + o.text("    ", want, {"num_dims", "source", gen ? "num_dims" : "file_path"})); parse_mesh_inputs(r, got); same(got, want); fsx_cover("mesh"); }
// -- time integration
FSX_ENTRY h_dynamic() { typedef dynamic_options_t T; Opts<T> o; T want, got; int n = si("stop"), st = si("stages"); o.num1("time_initial", &T::time_initial); o.num1("time_final", &T::time_final); o.num1("dt_min", &T::dt_min); o.num1("dt_max", &T::dt_max); o.num1("dt_start", &T::dt_start); o.num1("dt_cfl", &T::dt_cfl); o.num1("fuzz", &T::fuzz); o.num1("tiny", &T::tiny); o.num1("small", &T::small); o.add("cycle_stop", inum(n), [=](T& t) { t.cycle_stop = n; }); o.add("rk_num_stages", inum(st), [=](T& t) { t.rk_num_stages = st; });
  Yaml::Node r; load(r, "dynamic_options:\n" + o.text("  ", want, {"time_final", "cycle_stop"})); parse_dynamic_options(r, got); eqd(got.time_initial, want.time_initial); eqd(got.time_final, want.time_final); eqd(got.dt_min, want.dt_min); eqd(got.dt_max, want.dt_max); eqd(got.dt_start, want.dt_start); eqd(got.dt_cfl, want.dt_cfl); eqd(got.fuzz, want.fuzz); eqd(got.tiny, want.tiny); eqd(got.small, want.small); eq(got.cycle_stop, want.cycle_stop); eq(got.rk_num_stages, want.rk_num_stages); fsx_cover("dynamic"); }
// -- output
template <class E> struct Names { std::vector<std::pair<const char*, E>> v; };
template <class T, class E> static void list(Opts<T>& o, const char* key, std::vector<std::pair<const char*, E>> names, std::vector<E> T::*f, int mass = -1) { int k = fsx_choose((int)names.size() + 2, key); std::vector<std::pair<const char*, E>> use; if (k < (int)names.size()) use = {names[k]}; else for (size_t i = 0; i < names.size(); i++) use.push_back(names[k == (int)names.size() ? i : names.size() - 1 - i]); Str t; std::vector<E> w; bool sie = false, has = false; for (auto& p : use) { t += Str("\n      - ") + p.first; w.push_back(p.second); sie = sie || Str(p.first) == "sie"; has = has || Str(p.first) == "mass"; } if (mass >= 0 && sie && !has) w.push_back((E)mass); o.add(key, t, [=](T& x) { x.*f = w; }); }
static bool same_set(std::vector<material_pt_state>& a, std::vector<material_pt_state>& b) { return a == b; }
FSX_ENTRY h_output() { typedef output_options_t T; Opts<T> o; T want, got; want.format = output_options::viz; want.timer_level = output_options::thorough; static const std::pair<const char*, output_options::format> F[4] = {{"viz", output_options::viz}, {"ensight", output_options::ensight}, {"state", output_options::state}, {"viz_and_state", output_options::viz_and_state}}; int f = fsx_choose(4, "format"), n = si("cycles"), part = fsx_choose(5, "fields"); o.add("output_file_format", F[f].first, [=](T& t) { t.format = F[f].second; }); o.add("timer_output_level", "thorough", [](T& t) { t.timer_level = output_options::thorough; }); o.num1("graphics_time_step", &T::graphics_time_step); o.add("graphics_iteration_step", inum(n), [=](T& t) { t.graphics_iteration_step = n; });
  typedef material_pt_state MS; typedef std::pair<const char*, MS> MP_; if (part == 1) list<T, MS>(o, "elem_field_outputs", {MP_("den", MS::density), MP_("pres", MS::pressure), MP_("stress", MS::stress), MP_("sie", MS::specific_internal_energy), MP_("sspd", MS::sound_speed), MP_("mass", MS::mass)}, &T::output_elem_state, (int)MS::mass);
  typedef std::pair<const char*, node_state> NP; if (part == 2) list<T, node_state>(o, "node_field_outputs", {NP("coords", node_state::coords), NP("vel", node_state::velocity), NP("temp", node_state::temp), NP("mass", node_state::mass), NP("force", node_state::force), NP("grad_level_set", node_state::gradient_level_set)}, &T::output_node_state);
  if (part == 3) list<T, MS>(o, "mat_pt_field_outputs", {MP_("den", MS::density), MP_("pres", MS::pressure), MP_("stress", MS::stress), MP_("sie", MS::specific_internal_energy), MP_("sspd", MS::sound_speed), MP_("mass", MS::mass), MP_("volfrac", MS::volume_fraction), MP_("eroded", MS::eroded_flag)}, &T::output_mat_pt_state);
  typedef std::pair<const char*, gauss_pt_state> GP; if (part == 4) list<T, gauss_pt_state>(o, "gauss_pt_field_outputs", {GP("volume", gauss_pt_state::volume), GP("level_set", gauss_pt_state::level_set), GP("vel_grad", gauss_pt_state::gradient_velocity)}, &T::output_gauss_pt_state);
  Yaml::Node r; load(r, "output_options:\n" + o.text("   ", want, {})); parse_output_options(r, got); eq(got.format, want.format); eq(got.timer_level, want.timer_level); eqd(got.graphics_time_step, want.graphics_time_step); eq(got.graphics_iteration_step, want.graphics_iteration_step); fsx_check(same_set(got.output_elem_state, want.output_elem_state) && got.output_node_state == want.output_node_state && same_set(got.output_mat_pt_state, want.output_mat_pt_state) && got.output_gauss_pt_state == want.output_gauss_pt_state, M); fsx_cover("output"); }
// -- solvers: any number, in any order
FSX_ENTRY h_solver() { static const std::pair<const char*, solver_input::method> S_[5] = {{"dynx_FE", solver_input::SGH3D}, {"dynx_FE_rz", solver_input::SGHRZ}, {"thrmex_FE", solver_input::SGTM3D}, {"level_set", solver_input::levelSet}, {"qstatx_FE", solver_input::TLQS3D}}; int n = 1 + fsx_choose(3, "solvers"), rot = fsx_choose(n, "order"), m0 = fsx_choose(5, "method"), heat = fsx_choose(2, "heat"), bad = fsx_choose(4, "defect"); std::vector<double> te; for (int s = 0; s < n; s++) te.push_back(sd("end", 0, 10)); double neg = sd("negative", -10, -0.001); Str t = "solver_options:\n"; for (int q = 0; q < n; q++) { int s = (q + rot) % n; t += "  - solver:\n      method: " + Str(S_[(m0 + s) % 5].first) + "\n"; int id = bad == 1 && q == n - 1 ? (n > 1 ? (s + 1) % n : -1) : bad == 2 && q == 0 ? n : s; t += "      id: " + inum(id) + "\n"; if (s % 2 == 0) t += "      time_end: " + num(bad == 3 ? neg : te[s]) + "\n"; if (s % 2 == heat) t += "      use_moving_heat_source: true\n"; } Yaml::Node r; load(r, t); std::vector<solver_input_t> got; bool no = refused([&] { parse_solver_input(r, got); }); fsx_check(no == (bad != 0), "solvers with missing, repeated or impossible settings are refused, others are not"); if (no) { fsx_cover("solver refused"); return; } eq(got.size(), n); for (int s = 0; s < n; s++) { eq(got[s].method, S_[(m0 + s) % 5].second); if (s % 2 == 0) eqd(got[s].time_end, te[s]); else eqd(got[s].time_end, 0.0); eq(got[s].use_moving_heat_source, s % 2 == heat); } fsx_cover("solver"); }
// -- boundary conditions
static const double TOLR = 1e-7;
struct BC { int solver = 0; int surf = 0; double value = 0, tol = TOLR, origin[3] = {0, 0, 0}; int vel = 0, stress = 0, temp = 0; std::vector<double> vv, sv, tv; };
static Str lst(const std::vector<double>& v, const Str& ind) { Str r; for (double x : v) r += "\n" + ind + "- " + num(x); return r; }
static std::vector<double> dl(const char* n, int k) { std::vector<double> r; for (int i = 0; i < k; i++) r.push_back(sd(n)); return r; }
static const char* VN[7] = {"none", "constant", "time_varying", "reflected", "fixed", "user_defined", "piston"}; static const boundary_conditions::BCVelocityModels VE[7] = {boundary_conditions::noVelocityBC, boundary_conditions::constantVelocityBC, boundary_conditions::timeVaryingVelocityBC, boundary_conditions::reflectedVelocityBC, boundary_conditions::zeroVelocityBC, boundary_conditions::userDefinedVelocityBC, boundary_conditions::pistonVelocityBC};
static const char* TN[4] = {"none", "constant", "convection", "radiation"}; static const boundary_conditions::BCTemperatureModels TE[4] = {boundary_conditions::noTemperatureBC, boundary_conditions::constantTemperatureBC, boundary_conditions::convectionTemperatureBC, boundary_conditions::radiationTemperatureBC};
static const char* SN[7] = {"none", "constant", "time_varying", "user_defined", "global_contact", "preload_contact", "fracture"}; static const boundary_conditions::BCStressModels SE[7] = {boundary_conditions::noStressBC, boundary_conditions::constantStressBC, boundary_conditions::timeVaryingStressBC, boundary_conditions::userDefinedStressBC, boundary_conditions::noStressBC, boundary_conditions::noStressBC, boundary_conditions::fractureStressBC};
static const char* UN[6] = {"x_plane", "y_plane", "z_plane", "cylinder", "sphere", "global"}; static const boundary_conditions::BdyTag UE[6] = {boundary_conditions::xPlane, boundary_conditions::yPlane, boundary_conditions::zPlane, boundary_conditions::cylinder, boundary_conditions::sphere, boundary_conditions::global};
template <class A, class B> static bool fsame(A a, B b) { return (void*)a == (void*)b; }
static void bcs(int which) { int n = which == 0 ? 3 : 2, ns = 2, m = fsx_choose(which == 2 ? 4 : 7, "model"), su = which ? 2 : fsx_choose(6, "surface"), sid = fsx_choose(2, "solver"); std::vector<BC> w(n); Str t = "boundary_conditions:\n"; bool contact = false, preload = false, fracture = false; int ci = si("contact");
  for (int b = 0; b < n; b++) { BC& c = w[b]; c.solver = (b + sid) % 2; c.surf = (su + b) % 6; double val = sd("position"), tol = b ? 0 : sd("tolerance"); t += "  - boundary_condition:\n      solver_id: " + inum(c.solver) + "\n      surface:\n        type: " + UN[c.surf] + "\n"; if (b != 1) { t += Str("        ") + (c.surf < 3 ? "plane_position: " : "radius: ") + num(val) + "\n"; c.value = val; } if (b == 0) { V3 og("origin"); t += "        tolerance: " + num(tol) + "\n        origin: " + og.t + "\n"; c.tol = tol; og.to(c.origin); }
    if (which == 0 || (which == 3 && b == 0)) { c.vel = (m + b) % 7; c.vv = dl("velocity", b == 1 ? 0 : b + 2); t += Str("      velocity_model: ") + VN[c.vel] + "\n"; if (c.vv.size()) t += "      velocity_bc_global_vars:" + lst(c.vv, "        ") + "\n"; }
    if (which == 1 || (which == 3 && b == 1)) { c.stress = (m + b) % 7; c.sv = dl("stress", 3 - b); t += Str("      stress_model: ") + SN[c.stress] + "\n      stress_bc_global_vars:" + lst(c.sv, "        ") + "\n"; Str s = SN[c.stress]; contact = contact || s == "global_contact" || s == "preload_contact"; preload = preload || s == "preload_contact"; fracture = fracture || s == "fracture"; if (s == "global_contact") t += "      contact_bc_vars:\n        - " + inum(ci) + "\n        - " + inum(ci + 7) + "\n"; }
    if (which == 2) { c.temp = (m + b) % 4; c.tv = dl("temperature", b + 1); t += Str("      temperature_model: ") + TN[c.temp] + "\n      temperature_bc_global_vars:" + lst(c.tv, "        ") + "\n"; } }
  Yaml::Node r; load(r, t); BoundaryCondition_t B; B.allow_contact = B.allow_preload = B.allow_fracture = false; B.fracture_bc_id = -1; size_t ci0 = B.contact_max_local_iter, cg0 = B.contact_max_global_iter; parse_bcs(r, B, ns); eq(B.num_bcs, n); size_t nv[2] = {0, 0}, nst[2] = {0, 0}, nt[2] = {0, 0}; bool gc = false; int fid = -1;
  for (int b = 0; b < n; b++) { BC& c = w[b]; auto& u = B.BoundaryConditionSetup(b); eq(u.surface, UE[c.surf]); eqd(u.value, c.value); eqd(u.tolerance, c.tol); same3(u.origin, c.origin); auto& E = B.BoundaryConditionEnums(b); auto& F = B.BoundaryConditionFunctions(b); eq(E.BCVelocityModel, VE[c.vel]); eq(E.BCTemperatureModel, TE[c.temp]); eq(E.BCStressModel, SE[c.stress]); eq(B.BoundaryConditionEnums.host(b).BCVelocityModel, VE[c.vel]); eq(B.BoundaryConditionEnums.host(b).BCStressModel, SE[c.stress]); eq(B.BoundaryConditionEnums.host(b).BCTemperatureModel, TE[c.temp]);
    bool isv = which == 0 || (which == 3 && b == 0), iss = which == 1 || (which == 3 && b == 1); if (isv) { bool ok = c.vel == 1 ? fsame(F.velocity, &ConstantVelocityBC::velocity) : c.vel == 2 ? fsame(F.velocity, &TimeVaryingVelocityBC::velocity) : c.vel == 3 ? fsame(F.velocity, &ReflectedVelocityBC::velocity) : c.vel == 4 ? fsame(F.velocity, &ZeroVelocityBC::velocity) : c.vel == 5 ? fsame(F.velocity, &UserDefinedVelocityBC::velocity) : c.vel == 6 ? fsame(F.velocity, &PistonVelocityBC::velocity) : fsame(F.velocity, &NoVelocityBC::velocity); fsx_check(ok, M); eq(B.vel_bdy_sets_in_solver.host(c.solver, nv[c.solver]++), b); }
    if (iss) { bool ok = c.stress == 1 ? fsame(F.stress, &ConstantStressBC::stress) : c.stress == 2 ? fsame(F.stress, &TimeVaryingStressBC::stress) : c.stress == 3 ? fsame(F.stress, &UserDefinedStressBC::stress) : c.stress == 6 ? fsame(F.stress, &fractureStressBC::stress) : fsame(F.stress, &NoStressBC::stress); fsx_check(ok, M); eq(B.stress_bdy_sets_in_solver.host(c.solver, nst[c.solver]++), b); if (c.stress == 4) gc = true; if (c.stress == 6) fid = b; } if (which == 2) { if (c.temp == 1) fsx_check(fsame(F.temperature, &ConstantTemperatureBC::temperature), M); eq(B.temperature_bdy_sets_in_solver.host(c.solver, nt[c.solver]++), b); }
    eq(B.num_velocity_bc_global_vars(b), c.vv.size()); eq(B.num_stress_bc_global_vars(b), c.sv.size()); eq(B.num_temperature_bc_global_vars(b), c.tv.size()); for (size_t i = 0; i < c.vv.size(); i++) eqd(B.velocity_bc_global_vars(b, i), c.vv[i]); for (size_t i = 0; i < c.sv.size(); i++) eqd(B.stress_bc_global_vars(b, i), c.sv[i]); for (size_t i = 0; i < c.tv.size(); i++) eqd(B.temperature_bc_global_vars(b, i), c.tv[i]); }
  for (int s = 0; s < 2; s++) { eq(B.num_vel_bdy_sets_in_solver.host(s), nv[s]); eq(B.num_stress_bdy_sets_in_solver.host(s), nst[s]); eq(B.num_temperature_bdy_sets_in_solver.host(s), nt[s]); } fsx_check(B.allow_contact == contact && B.allow_preload == preload && B.allow_fracture == fracture && B.fracture_bc_id == fid, M); if (gc) { eq(B.contact_max_local_iter, ci); eq(B.contact_max_global_iter, ci + 7); } else { eq(B.contact_max_local_iter, ci0); eq(B.contact_max_global_iter, cg0); } fsx_cover(which == 0 ? "velocity" : which == 1 ? "stress" : which == 2 ? "temperature" : "mixed"); }
FSX_ENTRY h_bc_vel() { bcs(0); }
FSX_ENTRY h_bc_stress() { bcs(1); }
FSX_ENTRY h_bc_temp() { bcs(2); }
FSX_ENTRY h_bc_mixed() { bcs(3); }
// -- regions
struct Fill { RegionFill_t r; RegionFill_host_t h; Fill() { r.volume = region::no_volume; r.solver_id = 0; r.material_id = 0; } };
typedef init_conds::init_scalar_conds SC; static const std::pair<const char*, SC> SI[7] = {{"uniform", init_conds::uniform}, {"tg_vortex", init_conds::tgVortexScalar}, {"radial", init_conds::radialScalar}, {"spherical", init_conds::sphericalScalar}, {"x_linear", init_conds::xlinearScalar}, {"y_linear", init_conds::ylinearScalar}, {"z_linear", init_conds::zlinearScalar}};
static const std::pair<const char*, init_conds::init_vector_conds> VI[7] = {{"static", init_conds::stationary}, {"cartesian", init_conds::cartesian}, {"radial", init_conds::radialVec}, {"spherical", init_conds::sphericalVec}, {"radial_linear", init_conds::radialLinearVec}, {"spherical_linear", init_conds::sphericalLinearVec}, {"tg_vortex", init_conds::tgVortexVec}};
static const std::pair<const char*, region::vol_tag> RI[6] = {{"global", region::global}, {"box", region::box}, {"sphere", region::sphere}, {"cylinder", region::cylinder}, {"voxel_file", region::readVoxelFile}, {"vtu_file", region::readVTUFile}};
struct SF { const char* name; double RegionFill_t::*val; SC RegionFill_t::*field; int kinds; double RegionFill_t::*slope; int origin; int state; };
static const SF FS[9] = {{"density", &RegionFill_t::den, &RegionFill_t::den_field, 2, nullptr, 0, (int)fill_gauss_state::density}, {"specific_internal_energy", &RegionFill_t::sie, &RegionFill_t::sie_field, 2, nullptr, 0, (int)fill_gauss_state::specific_internal_energy}, {"internal_energy", &RegionFill_t::ie, &RegionFill_t::ie_field, 2, nullptr, 0, (int)fill_gauss_state::internal_energy}, {"specific_heat", &RegionFill_t::specific_heat, &RegionFill_t::specific_heat_field, 2, nullptr, 0, (int)fill_gauss_state::specific_heat}, {"thermal_conductivity", &RegionFill_t::thermal_conductivity, &RegionFill_t::thermal_conductivity_field, 2, nullptr, 0, (int)fill_gauss_state::thermal_conductivity}, {"level_set", &RegionFill_t::level_set, &RegionFill_t::level_set_field, 7, &RegionFill_t::level_set_slope, 1, (int)fill_gauss_state::level_set}, {"volume_fraction", &RegionFill_t::volfrac, &RegionFill_t::volfrac_field, 7, &RegionFill_t::volfrac_slope, 2, -1}, {"temperature", &RegionFill_t::temperature, &RegionFill_t::temperature_field, 2, nullptr, 0, -2}, {"velocity", nullptr, nullptr, 7, nullptr, 0, -3}};
static void same(RegionFill_t& a, RegionFill_t& b) { eq(a.volume, b.volume); eq(a.solver_id, b.solver_id); eq(a.material_id, b.material_id); eqd(a.x1, b.x1); eqd(a.x2, b.x2); eqd(a.y1, b.y1); eqd(a.y2, b.y2); eqd(a.z1, b.z1); eqd(a.z2, b.z2); eqd(a.radius1, b.radius1); eqd(a.radius2, b.radius2); eq(a.vel_field, b.vel_field); for (auto& f : FS) if (f.val) { eq(a.*f.field, b.*f.field); eqd(a.*f.val, b.*f.val); if (f.slope) eqd(a.*f.slope, b.*f.slope); } eqd(a.u, b.u); eqd(a.v, b.v); eqd(a.w, b.w); eqd(a.speed, b.speed); same3(a.origin, b.origin); same3(a.level_set_origin, b.level_set_origin); same3(a.volfrac_origin, b.volfrac_origin); same3(a.den_origin, b.den_origin); same3(a.sie_origin, b.sie_origin); same3(a.temperature_origin, b.temperature_origin); eq(a.part_id, b.part_id); }
static Str field(Fill& w, int i, int kind, bool value) { const SF& f = FS[i]; kind %= f.kinds; Str t = Str("        ") + f.name + ":\n"; if (i == 8) { t += Str("            type: ") + VI[kind].first + "\n"; w.r.vel_field = VI[kind].second; if (value) { static const char* N[4] = {"u", "v", "w", "speed"}; double RegionFill_t::*P_[4] = {&RegionFill_t::u, &RegionFill_t::v, &RegionFill_t::w, &RegionFill_t::speed}; for (int k = 0; k < 4; k++) { double x = sd(N[k]); t += Str("            ") + N[k] + ": " + num(x) + "\n"; w.r.*P_[k] = x; } } return t; } t += Str("            type: ") + SI[kind].first + "\n"; w.r.*f.field = SI[kind].second; if (value) { double x = sd(f.name); t += "            value: " + num(x) + "\n"; w.r.*f.val = x; if (f.slope) { double s = sd("slope"); V3 og("origin"); t += "            slope: " + num(s) + "\n            origin: " + og.t + "\n"; w.r.*f.slope = s; og.to(f.origin == 1 ? w.r.level_set_origin : w.r.volfrac_origin); } } return t; }
static bool has(const std::vector<int>& v, int x) { for (int y : v) if (x == y) return true; return false; }
static Str volume(Fill& w, int only, int kind) { typedef RegionFill_t T; Opts<Fill> o; bool voxel = RI[kind].second == region::readVoxelFile; o.add("type", RI[kind].first, [=](Fill& f) { f.r.volume = RI[kind].second; }); static const std::pair<const char*, double T::*> D[8] = {{"x1", &T::x1}, {"x2", &T::x2}, {"y1", &T::y1}, {"y2", &T::y2}, {"z1", &T::z1}, {"z2", &T::z2}, {"radius1", &T::radius1}, {"radius2", &T::radius2}}; for (auto& d : D) { double x = sd(d.first); auto p = d.second; o.add(d.first, num(x), [=](Fill& f) { f.r.*p = x; }); } static const std::pair<const char*, double RegionFill_host_t::*> S[3] = {{"scale_x", &RegionFill_host_t::scale_x}, {"scale_y", &RegionFill_host_t::scale_y}, {"scale_z", &RegionFill_host_t::scale_z}}; for (auto& d : S) { double x = sd(d.first); auto p = d.second; o.add(d.first, num(x), [=](Fill& f) { f.h.*p = x; }); } V3 og("origin"); o.add("origin", og.t, [=](Fill& f) { og.to(f.r.origin); }); int part = only < 0 ? si("part") : only + 4; o.add("part_id", inum(part), [=](Fill& f) { f.r.part_id = part; }); if (voxel) o.add("file_path", "in/a part.vtk", [](Fill& f) { f.h.file_path = "in/a part.vtk"; }); return "        volume:\n" + o.text("            ", w, {"type", voxel ? "file_path" : "type"}, only); }
static void run(const std::vector<Fill>& want, const Str& t, int ns, std::vector<int> gs, std::vector<int> nst) { Yaml::Node r; load(r, t); int n = want.size(); DCArrayKokkos<size_t> in, cnt; CArrayKokkos<RegionFill_t> rf; CArray<RegionFill_host_t> rh; std::vector<fill_gauss_state> fg; std::vector<fill_node_state> fn; parse_regions(r, in, cnt, rf, rh, fg, fn, ns); std::vector<size_t> c(ns, 0); for (int i = 0; i < n; i++) { Fill w = want[i]; same(rf(i), w.r); fsx_check(rh(i).file_path == w.h.file_path, M); eqd(rh(i).scale_x, w.h.scale_x); eqd(rh(i).scale_y, w.h.scale_y); eqd(rh(i).scale_z, w.h.scale_z); size_t s = w.r.solver_id; eq(in.host(s, c[s]), i); eq(in(s, c[s]), i); c[s]++; } for (int s = 0; s < ns; s++) { eq(cnt.host(s), c[s]); eq(cnt(s), c[s]); } std::vector<int> g1, n1; for (auto f : fg) g1.push_back((int)f); for (auto f : fn) n1.push_back((int)f); fsx_check(g1.size() == gs.size() && n1.size() == nst.size(), "the fields to fill are those of the regions, once"); for (int x : gs) fsx_check(has(g1, x), "the fields to fill are those of the regions, once"); for (int x : nst) fsx_check(has(n1, x), "the fields to fill are those of the regions, once"); }
FSX_ENTRY h_reg_volume() { Fill w; int kind = fsx_choose(6, "volume"), id = si("material"); Str t = "regions:\n    - region:\n"; t += volume(w, -1, kind); w.r.material_id = id; t += "        material_id: " + inum(id) + "\n        solver_id: 0\n"; t += field(w, 0, 0, true); run({w}, t, 1, {FS[0].state}, {}); fsx_cover("volume"); }
static void states(int i, std::vector<int>& g, std::vector<int>& n) { int s = FS[i].state; if (s >= 0 && !has(g, s)) g.push_back(s); int q = s == -2 ? (int)fill_node_state::temperature : s == -3 ? (int)fill_node_state::velocity : -1; if (q >= 0 && !has(n, q)) n.push_back(q); }
// one field of every kind, or none, and density
FSX_ENTRY h_reg_field() { Fill w; int f = fsx_choose(9, "field"), kind = fsx_choose(FS[f].kinds, "kind"), value = fsx_choose(2, "value"); Str t = "regions:\n    - region:\n"; t += volume(w, 0, 0); w.r.material_id = 2; t += "        material_id: 2\n        solver_id: 0\n" + field(w, f, kind, value); std::vector<int> g, n; if (f > 5) { t += field(w, 0, 0, true); states(0, g, n); } states(f, g, n); run({w}, t, 1, g, n); fsx_cover("field"); }
// several regions, of two solvers, with all fields or disjoint ones
FSX_ENTRY h_reg_many() { int sv = fsx_choose(3, "solvers"), all = fsx_choose(2, "all"); std::vector<Fill> w(3); Str t = "regions:\n"; std::vector<int> g, n; for (int i = 0; i < 3; i++) { t += "    - region:\n" + volume(w[i], 1 + i * 3, i); w[i].r.material_id = 2 - i; w[i].r.solver_id = sv == 2 ? 1 : (i + sv) % 2; t += "        material_id: " + inum(2 - i) + "\n        solver_id: " + inum((int)w[i].r.solver_id) + "\n"; for (int f = 0; f < 9; f++) if (all || f % 3 == i) { t += field(w[i], f, f + i, (f + i) % 2); states(f, g, n); } } run(w, t, 2, g, n); fsx_cover("many"); }
// -- materials, in any order
struct Mat { int id = 0; int eos = -1, et = -1, st = -1, str = -1, dis = -1, ero = -1, ls = -1; double tens = 0, dens = 0, nv = 0, cv = 0; bool t = false, d = false, n = false, c = false; std::vector<double> ev, sv, dv; };
static const char* EN[6] = {"no_eos", "gamma_law_gas", "void", "linear_elastic_eos", "user_defined_eos", "host_user_defined_eos"}; static const model::EOSModels EE[6] = {model::noEOS, model::gammaLawGasEOS, model::voidEOS, model::linearElasticEOS, model::userDefinedEOS, model::hostUserDefinedEOS};
static const char* ETN[3] = {"no_eos", "decoupled", "coupled"}; static const model::EOSType ETE[3] = {model::noEOSType, model::decoupledEOSType, model::coupledEOSType};
static const char* STN[2] = {"no_strength", "increment_based"}; static const model::StrengthType STE[2] = {model::noStrengthType, model::incrementBased};
static const char* GN[4] = {"no_strength", "user_defined_strength", "hypo_plasticity_strength", "hypo_plasticity_strength_rz"};
static const char* DN[5] = {"no_dissipation", "MARS", "directional_MARS", "MARS_rz", "directional_MARS_rz"}; static const model::DissipationModels DE[5] = {model::noDissipation, model::MARS, model::directionalMARS, model::MARSRZ, model::directionalMARSRZ};
static const char* RN[2] = {"no_erosion", "basic"}; static const model::ErosionModels RE[2] = {model::noErosion, model::basicErosion};
static const char* LN[2] = {"no_level_set", "evolve_front"}; static const model::levelSetType LE[2] = {model::noLevelSet, model::evolveFront};
static Str text(Mat& m) { Str I = "      ", t = "  - material:\n" + I + "id: " + inum(m.id) + "\n"; auto kv = [&](const char* k, const Str& v) { t += I + k + ": " + v + "\n"; }; if (m.et >= 0) kv("eos_model_type", ETN[m.et]); if (m.eos >= 0) kv("eos_model", EN[m.eos]); if (m.ev.size()) t += I + "eos_global_vars:" + lst(m.ev, I + "    ") + "\n"; if (m.st >= 0) kv("strength_model_type", STN[m.st]); if (m.str >= 0) kv("strength_model", GN[m.str]); if (m.sv.size()) t += I + "strength_global_vars:" + lst(m.sv, I + "    ") + "\n"; if (m.dis >= 0) kv("dissipation_model", DN[m.dis]); if (m.dv.size()) t += I + "dissipation_global_vars:" + lst(m.dv, I + "    ") + "\n"; if (m.ero >= 0) kv("erosion_model", RN[m.ero]); if (m.t) { m.tens = sd("tension"); kv("erode_tension_val", num(m.tens)); } if (m.d) { m.dens = sd("density"); kv("erode_density_val", num(m.dens)); } if (m.ls >= 0) kv("level_set_type", LN[m.ls]); if (m.n) { m.nv = sd("normal"); kv("normal_velocity", num(m.nv)); } if (m.c) { m.cv = sd("curvature"); kv("curvature_velocity", num(m.cv)); } return t; }
static void mats(std::vector<Mat>& w, int dims, int rot) { Str t = "materials:\n"; for (size_t q = 0; q < w.size(); q++) t += text(w[(q + rot) % w.size()]); Yaml::Node r; load(r, t); Material_t X; parse_materials(r, X, dims); eq(X.num_mats, w.size()); for (auto& m : w) { auto& E = X.MaterialEnums(m.id); auto& H = X.MaterialEnums.host(m.id); auto& F = X.MaterialFunctions(m.id); auto& G = X.MaterialFunctions.host(m.id); for (auto* e : {&E, &H}) { eq(e->EOSType, m.et < 0 ? model::noEOSType : ETE[m.et]); eq(e->EOSModels, m.eos < 0 ? model::noEOS : EE[m.eos]); eq(e->EOSRunLocation, m.eos == 5 ? model::host : model::device); eq(e->StrengthType, m.st < 0 ? model::noStrengthType : STE[m.st]); eq(e->StrengthRunLocation, model::device); eq(e->StrengthSetupLocation, model::host); eq(e->ErosionModels, m.ero < 0 ? model::noErosion : RE[m.ero]); eq(e->DissipationModels, m.dis < 0 ? model::noDissipation : DE[m.dis]); eq(e->levelSetType, m.ls < 0 ? model::noLevelSet : LE[m.ls]); }
    #define P_OK(f, C, s) fsx_check(fsame(f, &C::s), M)
    switch (m.eos) { case 0: P_OK(F.calc_pressure, NoEOSModel, calc_pressure); P_OK(F.calc_sound_speed, NoEOSModel, calc_sound_speed); break; case 1: P_OK(F.calc_pressure, GammaLawGasEOSModel, calc_pressure); P_OK(F.calc_sound_speed, GammaLawGasEOSModel, calc_sound_speed); break; case 2: P_OK(F.calc_pressure, VoidEOSModel, calc_pressure); P_OK(F.calc_sound_speed, VoidEOSModel, calc_sound_speed); break; case 3: P_OK(F.calc_pressure, LinearElasticEOS, calc_pressure); P_OK(F.calc_sound_speed, LinearElasticEOS, calc_sound_speed); break; case 4: P_OK(F.calc_pressure, UserDefinedEOSModel, calc_pressure); P_OK(F.calc_sound_speed, UserDefinedEOSModel, calc_sound_speed); break; case 5: P_OK(G.calc_pressure, HostUserDefinedEOSModel, calc_pressure); P_OK(G.calc_sound_speed, HostUserDefinedEOSModel, calc_sound_speed); break; default: fsx_check(F.calc_pressure == NULL && F.calc_sound_speed == NULL, M); }
    switch (m.str) { case 0: P_OK(F.calc_stress, NoStrengthModel, calc_stress); P_OK(G.init_strength_state_vars, NoStrengthModel, init_strength_state_vars); break; case 1: P_OK(F.calc_stress, UserDefinedStrengthModel, calc_stress); P_OK(G.init_strength_state_vars, UserDefinedStrengthModel, init_strength_state_vars); break; case 2: P_OK(F.calc_stress, HypoPlasticityModel, calc_stress); P_OK(G.init_strength_state_vars, HypoPlasticityModel, init_strength_state_vars); break; case 3: P_OK(F.calc_stress, HypoPlasticityRZModel, calc_stress); P_OK(G.init_strength_state_vars, HypoPlasticityRZModel, init_strength_state_vars); break; default: fsx_check(F.calc_stress == NULL, M); }
    switch (m.dis) { case 1: case 2: P_OK(F.calc_dissipation, MARSDissipationModel, calc_dissipation); break; case 3: case 4: P_OK(F.calc_dissipation, MARSRZDissipationModel, calc_dissipation); break; default: P_OK(F.calc_dissipation, NoDissipationModel, calc_dissipation); }
    if (m.ero == 1) P_OK(F.erode, BasicErosionModel, erode); if (m.ero == 0) P_OK(F.erode, NoErosionModel, erode); if (m.t) eqd(F.erode_tension_val, m.tens); if (m.d) eqd(F.erode_density_val, m.dens); eqd(F.normal_velocity, m.nv); eqd(F.curvature_velocity, m.cv); auto vars = [&](auto& n, auto& v, std::vector<double>& x) { eq(n(m.id), x.size()); for (size_t i = 0; i < x.size(); i++) eqd(v(m.id, i), x[i]); }; vars(X.num_eos_global_vars, X.eos_global_vars, m.ev); vars(X.num_strength_global_vars, X.strength_global_vars, m.sv); vars(X.num_dissipation_global_vars, X.dissipation_global_vars, m.dv); } eq(X.max_num_mats_per_element, 3); eq(X.EquilibrationModels, model::noEquilibration); eq(X.GeoEquilibrationModels, model::noEquilibration); }
FSX_ENTRY h_mat_one() { int d = 2 + fsx_choose(2, "dims"), part = fsx_choose(5, "part"); std::vector<Mat> w(1); Mat& m = w[0]; if (part == 0) { m.eos = fsx_choose(6, "eos"); m.et = fsx_choose(4, "type") - 1; if (m.eos) m.ev = dl("eos", si("vars") == 4 ? 4 : 1); } if (part == 1) { m.str = fsx_choose(3, "strength"); if (m.str == 2 && d == 2) m.str = 3; m.st = fsx_choose(3, "type") - 1; if (fsx_choose(2, "vars")) m.sv = dl("strength", 3); } if (part == 2) { int k = fsx_choose(3, "dissipation"); m.dis = k ? k + (d == 2 ? 2 : 0) : 0; if (k) m.dv = dl("dissipation", 6 + 4 * fsx_choose(2, "vars")); } if (part == 3) { m.ero = fsx_choose(3, "erosion") - 1; m.t = fsx_choose(2, "tension"); m.d = fsx_choose(2, "density"); } if (part == 4) { m.ls = fsx_choose(3, "level set") - 1; m.n = fsx_choose(2, "normal"); m.c = fsx_choose(2, "curvature"); } mats(w, d, 0); fsx_cover("material"); }
FSX_ENTRY h_mat_many() { int n = 2 + fsx_choose(2, "materials"), rot = fsx_choose(n, "order"), e0 = fsx_choose(6, "eos"), d = 2 + fsx_choose(2, "dims"); std::vector<Mat> w(n); for (int i = 0; i < n; i++) { Mat& m = w[i]; m.id = i; m.eos = (e0 + i) % 6; m.et = (e0 + i) % 3; if (m.eos) m.ev = dl("eos", 1 + i); m.str = (e0 + i) % 3; if (m.str == 2 && d == 2) m.str = 3; m.st = i % 2; if (i != 1) m.sv = dl("strength", 3 - i); m.dis = i == 1 ? (d == 2 ? 4 : 2) : i == 2 ? (d == 2 ? 3 : 1) : 0; if (m.dis) m.dv = dl("dissipation", 5 + i); m.ero = i % 2; m.t = true; m.d = i != 1; m.ls = (i + 1) % 2; m.n = i != 0; m.c = i != 2; } mats(w, d, rot); fsx_cover("materials"); }
FSX_ENTRY h_multimat() { static const char* N[3] = {"no_equilibration", "tipton", "user_defined"}; static const model::EquilibrationModels E_[3] = {model::noEquilibration, model::tiptonEquilibration, model::userDefinedEquilibration}; int present = fsx_choose(2, "present"), a = fsx_choose(4, "equilibration"), g = fsx_choose(4, "geometric"), k = fsx_choose(2, "limit"), n = si("materials"); Material_t X; X.num_mats = 2; X.num_equilibration_global_vars = X.num_geo_equilibration_global_vars = 0; Str t = "other: 1\n"; std::vector<double> va, vg; if (present) { t += "multimaterial_options:\n"; if (k) t += "    max_num_mats_per_element: " + inum(n) + "\n"; if (a < 3) t += Str("    mat_equilibration_model: ") + N[a] + "\n"; if (a == 1) { va = dl("equilibration", 3); t += "    mat_equilibration_global_vars:" + lst(va, "      ") + "\n"; } if (g < 3) t += Str("    geo_equilibration_model: ") + N[g] + "\n"; if (g == 1) { vg = dl("geometric", 2); t += "    geo_equilibration_global_vars:" + lst(vg, "      ") + "\n"; } if (!k && a == 3 && g == 3) t += "    max_num_mats_per_element: " + inum(n) + "\n"; } Yaml::Node r; load(r, t); parse_multimaterial_options(r, X); bool lim = present && (k || (a == 3 && g == 3)); eq(X.max_num_mats_per_element, lim ? n : 3); eq(X.EquilibrationModels, present && a < 3 ? E_[a] : model::noEquilibration); eq(X.GeoEquilibrationModels, present && g < 3 ? E_[g] : model::noEquilibration); eq(X.num_equilibration_global_vars, va.size()); eq(X.num_geo_equilibration_global_vars, vg.size()); for (size_t i = 0; i < va.size(); i++) eqd(X.equilibration_global_vars(i), va[i]); for (size_t i = 0; i < vg.size(); i++) eqd(X.geo_equilibration_global_vars(i), vg[i]); fsx_cover("multimaterial"); }
// -- tables of material data
FSX_ENTRY h_table() { int rows = 1 + fsx_choose(3, "rows"), which = fsx_choose(3, "field"), both = fsx_choose(2, "others"), style = fsx_choose(2, "style"); static const char* N[3] = {"density", "thermal_conductivity", "specific_heat"}; static const char* K[2][3] = {{"*Density", "*Conductivity", "*Specific Heat"}, {"*DENSITY, TEMP", "*CONDUCTIVITY,TYPE=ISO", "*SPECIFIC HEAT"}}; std::vector<double> T[3], V[3]; { std::ofstream f("m.inp"); f << std::setprecision(17) << std::scientific; f << "** material\n*Material, name=steel\n"; for (int q = 0; q < 3; q++) { int i = (q + which) % 3; double t0 = 0; f << "**\n" << K[style][i] << "\n"; if (style) f << "** value, temperature\n\n"; int n = i == which ? rows : 2; for (int k = 0; k < n; k++) { t0 = k ? t0 + sd("rise", 0.1, 5) : sd("temperature"); T[i].push_back(t0); V[i].push_back(sd("value")); f << (style ? "  " : "") << V[i][k] << ", " << t0 << (style ? ",\n" : "\n"); } } f << "*Elastic\n 1.0, 2.0, 3.0\n"; f.close(); }
  Str t = Str("materials:\n  - material:\n      id: 0\n      tabular_model:\n        type: temperature_dependent\n        tabular_data: m.inp\n        file_format: Abaqus_jmatpro\n        fields:\n          - ") + N[which] + "\n"; if (both) for (int i = 0; i < 3; i++) if (i != which) t += Str("          - ") + N[i] + "\n"; Yaml::Node r; load(r, t); Material_t X; parse_materials(r, X, 3); auto& F = X.MaterialFunctions(0); for (int i = 0; i < 3; i++) { Table_t& b = i == 0 ? X.density_table : i == 1 ? X.thermal_conductivity_table : X.specific_heat_table; auto f = i == 0 ? F.get_density_from_temperature : i == 1 ? F.get_thermal_conductivity_from_temperature : F.get_specific_heat_from_temperature; bool on = i == which || both; eq(b.num_rows, on ? T[i].size() : 0); fsx_check((f != NULL) == on, M); if (!on) continue; fsx_check(i == 0 ? fsame(f, &TabularMaterialModel::get_density_from_temperature) : i == 1 ? fsame(f, &TabularMaterialModel::get_thermal_conductivity_from_temperature) : fsame(f, &TabularMaterialModel::get_specific_heat_from_temperature), M); eq(b.num_columns, 2); for (size_t k = 0; k < T[i].size(); k++) { eqd(b.data.host(k, 0), T[i][k]); eqd(b.data.host(k, 1), V[i][k]); eqd(b.data(k, 0), T[i][k]); eqd(b.data(k, 1), V[i][k]); } } fsx_cover("table"); }
// -- what is not an option is refused, wherever it stands
FSX_ENTRY h_refuse() { static const char* D[] = {
  "mesh_options:\n  num_dims: 3\n", "mesh_options:\n  source: file\n", "mesh_options:\n  source: elsewhere\n  num_dims: 3\n", "mesh_options:\n  source: generate\n  num_dims: 3\n  type: ball\n", "mesh_options:\n  source: generate\n  num_dims: 3\n  lenght: [1, 1, 1]\n",
  "dynamic_options:\n  time_final: 1\n", "dynamic_options:\n  cycle_stop: 1\n", "dynamic_options:\n  time_final: 1\n  cycle_stop: 1\n  dt: 1\n",
  "output_options:\n  output_file_format: vis\n", "output_options:\n  timer_output_level: some\n", "output_options:\n  elem_field_outputs:\n    - density\n", "output_options:\n  node_field_outputs:\n    - den\n", "output_options:\n  mat_pt_field_outputs:\n    - vel\n", "output_options:\n  gauss_pt_field_outputs:\n    - den\n", "output_options:\n  format: viz\n",
  "solver_options:\n  - solver:\n      method: dynx\n      id: 0\n", "solver_options:\n  - solver:\n      method: dynx_FE\n      id: 0\n      dt: 1\n", "solver_options:\n  - solver:\n      method: dynx_FE\n", "solver_options:\n  - solver:\n      id: 0\n",
  "boundary_conditions:\n  - boundary_condition:\n      surface:\n        type: global\n", "boundary_conditions:\n  - boundary_condition:\n      solver_id: 0\n", "boundary_conditions:\n  - boundary_condition:\n      solver_id: 2\n      surface:\n        type: global\n", "boundary_conditions:\n  - boundary_condition:\n      solver_id: -1\n      surface:\n        type: global\n", "boundary_conditions:\n  - boundary_condition:\n      solver_id: 0\n      surface:\n        type: plane\n", "boundary_conditions:\n  - boundary_condition:\n      solver_id: 0\n      surface:\n        type: global\n        position: 1\n", "boundary_conditions:\n  - boundary_condition:\n      solver_id: 0\n      surface:\n        type: global\n      velocity_model: slow\n", "boundary_conditions:\n  - boundary_condition:\n      solver_id: 0\n      surface:\n        type: global\n      stress_model: slow\n", "boundary_conditions:\n  - boundary_condition:\n      solver_id: 0\n      surface:\n        type: global\n      temperature_model: slow\n", "boundary_conditions:\n  - boundary_condition:\n      solver_id: 0\n      surface:\n        type: global\n      contact_bc_vars:\n        - 1\n", "boundary_conditions:\n  - boundary_condition:\n      solver_id: 0\n      surface:\n        type: global\n      model: fixed\n",
  "regions:\n  - region:\n      volume:\n        type: global\n      density:\n        type: uniform\n        value: 1\n      solver_id: 0\n", "regions:\n  - region:\n      material_id: 0\n      solver_id: 0\n      density:\n        type: uniform\n", "regions:\n  - region:\n      volume:\n        type: cube\n      material_id: 0\n      solver_id: 0\n      density:\n        type: uniform\n", "regions:\n  - region:\n      volume:\n        x1: 0\n      material_id: 0\n      solver_id: 0\n      density:\n        type: uniform\n", "regions:\n  - region:\n      volume:\n        type: box\n        x3: 0\n      material_id: 0\n      solver_id: 0\n      density:\n        type: uniform\n", "regions:\n  - region:\n      volume:\n        type: box\n      material_id: 0\n      solver_id: 0\n      density:\n        type: even\n", "regions:\n  - region:\n      volume:\n        type: box\n      material_id: 0\n      solver_id: 0\n      density:\n        value: 1\n", "regions:\n  - region:\n      volume:\n        type: box\n      material_id: 0\n      solver_id: 2\n      density:\n        type: uniform\n", "regions:\n  - region:\n      volume:\n        type: box\n      material_id: 0\n      solver_id: -1\n      density:\n        type: uniform\n", "regions:\n  - region:\n      volume:\n        type: box\n      material_id: 0\n      solver_id: 0\n      density:\n        type: uniform\n      colour:\n        type: uniform\n", "regions:\n  - region:\n      volume:\n        type: box\n      material_id: 0\n      solver_id: 0\n", "regions:\n  - region:\n      volume:\n        type: box\n      material_id: 0\n      solver_id: 0\n      density:\n        type: uniform\n      velocity:\n        type: fast\n",
  "materials:\n", "materials:\n  - material:\n      eos_model: void\n", "materials:\n  - material:\n      id: 1\n", "materials:\n  - material:\n      id: -1\n", "materials:\n  - material:\n      id: 0\n  - material:\n      id: 0\n", "materials:\n  - material:\n      id: 0\n      eos_model: gas\n", "materials:\n  - material:\n      id: 0\n      eos_model_type: gas\n", "materials:\n  - material:\n      id: 0\n      strength_model: gas\n", "materials:\n  - material:\n      id: 0\n      strength_model_type: gas\n", "materials:\n  - material:\n      id: 0\n      strength_model_type: state_based\n", "materials:\n  - material:\n      id: 0\n      erosion_model: gas\n", "materials:\n  - material:\n      id: 0\n      dissipation_model: gas\n", "materials:\n  - material:\n      id: 0\n      level_set_type: gas\n", "materials:\n  - material:\n      id: 0\n      colour: 1\n", "materials:\n  - material:\n      id: 0\n      strength_model: hypo_plasticity_strength_rz\n", "materials:\n  - material:\n      id: 0\n      dissipation_model: MARS_rz\n", "materials:\n  - material:\n      id: 0\n      dissipation_model: MARS\n      dissipation_global_vars:\n        - 1\n        - 1\n        - 1\n        - 1\n        - 1\n",
  "multimaterial_options:\n  mat_equilibration_model: gas\n", "multimaterial_options:\n  geo_equilibration_model: gas\n", "multimaterial_options:\n  mat_equilibration_global_vars:\n    - 1\n", "multimaterial_options:\n  colour: 1\n" };
  const int N = sizeof D / sizeof D[0]; int k = fsx_choose(N, "document"); Yaml::Node r; load(r, D[k]); Str t = D[k]; bool no = refused([&] { if (t[0] == 'd') { dynamic_options_t o; parse_dynamic_options(r, o); } else if (t[0] == 'o') { output_options_t o; parse_output_options(r, o); } else if (t[0] == 's') { std::vector<solver_input_t> o; parse_solver_input(r, o); } else if (t[0] == 'b') { BoundaryCondition_t o; parse_bcs(r, o, 2); } else if (t[0] == 'r') { DCArrayKokkos<size_t> in, cnt; CArrayKokkos<RegionFill_t> rf; CArray<RegionFill_host_t> rh; std::vector<fill_gauss_state> fg; std::vector<fill_node_state> fn; parse_regions(r, in, cnt, rf, rh, fg, fn, 2); } else if (t.compare(0, 4, "mate") == 0) { Material_t o; parse_materials(r, o, 3); } else if (t.compare(0, 4, "mult") == 0) { Material_t o; o.num_mats = 1; parse_multimaterial_options(r, o); } else { mesh_input_t o; o.type = mesh_input::Box; parse_mesh_inputs(r, o); } }); fsx_check(no, "what is not an option is refused"); fsx_cover("refused"); }
