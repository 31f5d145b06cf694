// Multiphysics thermal run loop (apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp).
#include "matar.h"
#include "ELEMENTS.h"
using namespace mtr;
#include "solver.hpp"
#include "mp_run.h"
#include "Solvers/SGTM_solver_3D/src/sgtm_execute.cpp"
#include "Solvers/SGTM_solver_3D/src/sgtm_initialize.cpp"
#include "Solvers/SGTM_solver_3D/src/sgtm_setup.cpp"
#include "solver.cpp"
typedef DCArrayKokkos<double> A; typedef DRaggedRightArrayKokkos<double> R; typedef const DRaggedRightArrayKokkos<bool> RB; typedef const DRaggedRightArrayKokkos<size_t> RS;
// two elements, a material in each
static const int N = 12, NM = 2; static State_t* S; static SGTM3D* solver; static swage::Mesh* mesh_; static Material_t* MT; static bool tool, still; static long stages;
static double VOL(const A& x, int e) { return 2 + e + x(e * 4, 0) * 0.5 + x(11, 1); }
static double bT(double t) { return still ? 300.0 : 300 + 0.5 * t; }
static double COND(double T, double t) { return still ? 0.0 : 4 - 0.25 * T; }
static double toolx(double t) { return 100 + 20 * t; }
static double toolp(double t) { return 3 + 0.2 * t; }
static struct Track { double T[N], T0[N], m[N], q[N], dt, al, time; bool run = false, flux[NM], moved[NM], conv, rad; int stage = -1;
  void read() { for (int n = 0; n < N; n++) T[n] = S->node.temp(n); }
  void same() { for (int n = 0; n < N; n++) near(S->node.temp(n), T[n], "a stage heats the nodes with its fluxes, from the start of the step"); for (int e = 0; e < 2; e++) near(S->GaussPoints.vol(e), VOL(S->node.coords, e), "volumes are those of the nodes"); }
  void done() { if (!run) return; run = false; for (int k = 0; k < NM; k++) fsx_check(flux[k] && moved[k] == tool, "every material has its heat, once a stage"); fsx_check(conv && rad, "fluxes of the boundary are applied, once a stage"); for (int n = 0; n < N; n++) T[n] = T0[n] + al * dt * q[n] / m[n]; T[0] = bT(time); same(); }
  void begin() { fsx_check(stage == -1 || stage == stages - 1, "a step has all its stages"); stage = -1; for (int n = 0; n < N; n++) T0[n] = T[n]; }
  void open() { if (run) return; run = true; stage++; conv = rad = false; for (int k = 0; k < NM; k++) flux[k] = moved[k] = false; for (int n = 0; n < N; n++) q[n] = 0; fsx_check(stage < stages, "a step has all its stages"); dt = clk.dt(); time = clk.now; al = 1.0 / (stages - stage); } } tk;
static void fsx_written(State_t& s, double, double, size_t id) { if (clk.outs > 1) tk.done(); fsx_check(id == 0 && &s == S, "files are the solver's"); tk.same(); }
namespace geometry { void get_vol(const DCArrayKokkos<double>& vol, const DCArrayKokkos<double>& x, const swage::Mesh& m) { for (int e = 0; e < 2; e++) vol(e) = VOL(x, e); } }
static bool fresh; static const char* PART = "a stage has its part of the step all materials can take", *HEAT = "heat flows with the current temperatures", *TIME = "boundary conditions are asked for at the time of the step";
static void stage_begins() { if (fresh) { tk.done(); fresh = false; } tk.open(); }
static void temps(const A& T) { for (int n = 0; n < N; n++) near(T(n), tk.T[n], HEAT); }
void SGTM3D::get_timestep(swage::Mesh&, A& x, A& v, A& vol, R& ss, R&, R&, R&, DRaggedRightArrayKokkos<bool>&, DRaggedRightArrayKokkos<size_t>& map, size_t ne, double time, const double gt, const double tf, const double dmax, const double dmin, const double cfl, double& dt, const double, const double tiny, const size_t mat) const { if (tk.run) tk.done(); fresh = false; if (!clk.given || (long)clk.cand.back().size() == NM) { clk.end(); clk.next(); tk.same(); } near(dmin, 0.01, "steps keep to the limits asked for"); near(cfl, 0.4, "steps keep to the limits asked for"); fsx_check(ne == 1 && mat < NM && clk.cand.size() == (size_t)clk.cycles + clk.given, "every material limits the step"); if (clk.given) fsx_check(clk.cand.back().size() == mat, "every material limits the step"); dt = clk.step(mat, time, gt, tf, dmax, dt, tiny); }
void SGTM3D::rk_init(A& x, A& x0, A& v, A& v0, A& T, A& T0, A& q, R& s, const size_t dims, const size_t ne, const size_t nn, const size_t np) const { fsx_check(dims == 3 && nn == N, "the whole state is saved"); if (!tk.run && (tk.stage == -1 || tk.stage == stages - 1)) tk.begin(); temps(T); for (size_t n = 0; n < nn; n++) T0(n) = T(n); }
void SGTM3D::get_heat_flux(const Material_t&, const swage::Mesh& mesh, const A& vol, const A& x, const A& T, const R&, const R&, const R&, const A& cq, const corners_in_mat_t, RB&, RS& map, const size_t ne, const size_t mat, const double, const double, const double dt, const double al) const { stage_begins(); near(dt, tk.dt, PART); near(al, tk.al, PART); temps(T); size_t e = map(mat, 0); near(vol(e), VOL(x, e), "volumes are those of the nodes"); fsx_check(!tk.flux[mat] && ne == 1, "every material has its heat, once a stage"); tk.flux[mat] = true; for (int l = 0; l < 8; l++) { double q = still ? 0.0 : mat == 0 && !tool && l == (tk.stage % 2 ? 2 : 5) ? sd("flux") : (l * 3) % 5 - 2 + (double)mat; cq(mesh.corners_in_elem(e, l)) = q; tk.q[mesh.nodes_in_elem(e, l)] += q; } }
void SGTM3D::moving_flux(const Material_t&, const swage::Mesh& mesh, const A& vol, const A& x, const A& cq, const A& pos, const corners_in_mat_t, RS& map, const size_t ne, const double power, const size_t mat, const double, const double, const double dt, const double al) const { stage_begins(); const char* m = "the tool is where its path is at the time of the step, with its power there"; fsx_check(tool && tk.flux[mat] && !tk.moved[mat], "every material has its heat, once a stage"); tk.moved[mat] = true; near(pos(0), toolx(clk.now), m); near(pos(1), 150, m); near(pos(2), 15, m); near(power * 1e-6, toolp(clk.now), m); near(dt, tk.dt, PART); size_t e = map(mat, 0); for (int l = 0; l < 8; l++) { double q = still ? 0.0 : 1 + l % 2; cq(mesh.corners_in_elem(e, l)) += q; tk.q[mesh.nodes_in_elem(e, l)] += q; } }
void SGTM3D::boundary_convection(const swage::Mesh&, const BoundaryCondition_t&, const A& T, const A& q, const A& x, const double t) const { stage_begins(); near(t, clk.now, TIME); temps(T); fsx_check(!tk.conv, "fluxes of the boundary are applied, once a stage"); tk.conv = true; double f = COND(tk.T[7], t); q(7) += f; tk.q[7] += f; }
void SGTM3D::boundary_radiation(const swage::Mesh&, const BoundaryCondition_t&, const A& T, const A& q, const A& x, const double t) const { stage_begins(); near(t, clk.now, TIME); temps(T); fsx_check(!tk.rad, "fluxes of the boundary are applied, once a stage"); tk.rad = true; if (still) return; q(7) += 3; q(4) += 2; tk.q[7] += 3; tk.q[4] += 2; }
void SGTM3D::boundary_temperature(const swage::Mesh&, const BoundaryCondition_t&, A& T, const double t) const { near(t, clk.now, TIME); T(0) = bT(t); if (clk.outs == 0) tk.read(); }
void SGTM3D::boundary_heat_flux(const swage::Mesh&, const BoundaryCondition_t&, A&, const double) const {}
void SGTM3D::update_temperature(const swage::Mesh& m, const A& cq, const A& T, const A& T0, const A& mass, const A& q, const R&, const DCArrayKokkos<size_t>&, const DCArrayKokkos<size_t>&, const DCArrayKokkos<size_t>&, const double al, const double dt) const { for (int n = 0; n < N; n++) { for (size_t c = 0; c < m.num_corners_in_node(n); c++) q(n) += cq(m.corners_in_node(n, c)); T(n) = T0(n) + al * dt * q(n) / mass(n); } fresh = true; }
static long props;
void SGTM3D::update_properties(const Material_t&, const swage::Mesh&, const A& T, const R& den, const R& k, const R& cp, RS& map, const size_t ne, const size_t mat) const { if (clk.outs < 2) props++; den(mat, 0) = den(mat, 0); }
static void go(long cycles, double start, bool iter, bool use_tool, bool one) { S = new State_t; solver = new SGTM3D; mesh_ = new swage::Mesh; MT = new Material_t; swage::fsx_block(*mesh_, 3, 2, 1, 1); SimulationParameters_t P; BoundaryCondition_t B; tool = use_tool; stages = P.dynamic_options.rk_num_stages = still || tool ? 2 : 1 + fsx_choose(3, "stages"); P.solver_inputs.resize(1); P.solver_inputs[0].use_moving_heat_source = tool; MT->num_mats = NM; MT->MaterialEnums = DCArrayKokkos<MaterialEnums_t>(NM); MT->MaterialFunctions = DCArrayKokkos<MaterialFunctions_t>(NM);
  S->node.initialize(N, 3, SGTM3D_State::required_node_state); S->GaussPoints.initialize(2, 3, SGTM3D_State::required_gauss_pt_state); S->corner.initialize(16, 3, SGTM3D_State::required_corner_state); auto& q = S->MaterialPoints; q.initialize_num_mats(NM); S->MaterialToMeshMaps.initialize_num_mats(NM); for (int k = 0; k < NM; k++) { q.num_material_points(k) = 1; q.num_material_points_buffer(k) = 2; S->MaterialToMeshMaps.num_mat_elems(k) = 1; S->MaterialToMeshMaps.num_mat_elems_buffer(k) = 2; } S->MaterialToMeshMaps.initialize(); q.initialize(3, SGTM3D_State::required_material_pt_state); S->corners_in_mat_elem = corners_in_mat_t(8);
  for (int n = 0; n < N; n++) { tk.m[n] = S->node.mass(n) = 1 << n % 3; S->node.temp(n) = still ? 300.0 : n == 2 && !tool ? sd("T", 1, 900) : 300 + n; S->node.temp_n0(n) = 17; S->node.q_transfer(n) = 5; for (int d = 0; d < 3; d++) S->node.coords(n, d) = n / 4 * (d == 0) + d; } for (int c = 0; c < 16; c++) S->corner.q_transfer(c) = 9; for (int e = 0; e < 2; e++) { S->GaussPoints.vol(e) = VOL(S->node.coords, e); S->MaterialToMeshMaps.elem_in_mat_elem(e, 0) = 1 - e; } clk.one = one; tk.read(); clk.init(P, *solver, NM, start, cycles, iter); fresh = false; props = 0; solver->execute(P, *MT, B, *mesh_, *S); if (tk.run) tk.done(); tk.same(); clk.finish(); if (tool) fsx_check(props >= NM, "properties of every material are those of its temperature"); }
FSX_ENTRY h_heat() { go(fsx_param("cycles", 1), sd("start", 0, 2), true, false, false); }
FSX_ENTRY h_tool() { go(fsx_param("cycles", 2), sd("start", 0, 2), false, true, true); }
FSX_ENTRY h_heattime() { still = true; go(fsx_param("cycles", 3), fsx_choose(2, "start") ? 1.5 : 0.0, fsx_choose(2, "iterations"), false, true); }
