// Multiphysics level-set run loop (apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp).
#include "matar.h"
#include "ELEMENTS.h"
using namespace mtr;
#include "solver.hpp"
#include "mp_run.h"
#include "Solvers/level_set_solver/src/level_set_execute.cpp"
#include "Solvers/level_set_solver/src/level_set_initialize.cpp"
#include "Solvers/level_set_solver/src/level_set_setup.cpp"
#include "solver.cpp"
typedef DCArrayKokkos<double> A; typedef DRaggedRightArrayKokkos<double> R; typedef const DRaggedRightArrayKokkos<size_t> RS;
// three elements, two or three materials with one each; the last of three has no front
static const int NE = 3; static int NM, NF, dims, N; static State_t* S; static LevelSet* solver; static swage::Mesh* mesh_; static Material_t* MT; static bool still; static long stages;
static double NV(double phi0, double phi1, int d) { return phi0 * 0.5 - phi1 + d; }
static double GR(double phi0, double phi2, int d) { return phi0 + phi2 * 0.25 - d; }
static double bv(double t, double v) { return still ? v : 0.5 * t + 1 + v * 0; }
static double RATE(int e, const double* v, const double* g) { return still ? 0.0 : v[0] * (e + 1) - 2 * v[1] + g[0] + 0.5 * g[1] * (e + 2); }
static struct Track { double P[NE], P0[NE], v[2], g[2], dt, al, time; bool run = false, grad, bc, upd[NE]; int stage = -1;
  void read() { for (int e = 0; e < NE; e++) P[e] = S->GaussPoints.level_set(e); }
  void same() { for (int e = 0; e < NE; e++) near(S->GaussPoints.level_set(e), P[e], "a stage moves the front with its velocity, from the start of the step"); }
  void done() { if (!run) return; run = false; fsx_check(grad && bc, "gradients and boundary velocities are those of the stage"); for (int k = 0; k < NM; k++) fsx_check(upd[k] == (k < NF), "every front moves once a stage"); for (int d = 0; d < 2; d++) { g[d] = GR(P[0], P[2], d); v[d] = d ? NV(P[0], P[1], d) : bv(time, NV(P[0], P[1], d)); } double Q[NE]; for (int k = 0; k < NM; k++) { int e = NE - 1 - k; Q[k] = upd[k] ? P0[e] - al * dt * RATE(e, v, g) : P[e]; } for (int k = 0; k < NM; k++) P[NE - 1 - k] = Q[k]; same(); }
  void begin() { fsx_check(stage == -1 || stage == stages - 1, "a step has all its stages"); stage = -1; for (int e = 0; e < NE; e++) P0[e] = P[e]; }
  void open() { if (run) return; run = true; stage++; grad = bc = false; for (int k = 0; k < NE; k++) upd[k] = false; fsx_check(stage < stages, "a step has all its stages"); dt = clk.dt(); time = clk.now; al = 1.0 / (stages - stage); } } tk;
static void fsx_written(State_t& s, double, double, size_t id) { if (clk.outs > 1) tk.done(); fsx_check(id == 0 && &s == S, "files are the solver's"); tk.same(); if (clk.outs == 1) tk.read(); }
namespace geometry { void get_vol(const DCArrayKokkos<double>&, const DCArrayKokkos<double>&, const swage::Mesh&) {} }
static void limit(int d, size_t ne, size_t mat, double time, double gt, double tf, double dmax, double dmin, double cfl, double& dt, double tiny) { if (tk.run) tk.done(); if (!clk.given || (long)clk.cand.back().size() == NF) { clk.end(); clk.next(); tk.same(); } near(dmin, 0.01, "steps keep to the limits asked for"); near(cfl, 0.4, "steps keep to the limits asked for"); fsx_check(d == dims && ne == 1 && (long)mat < NF && clk.cand.size() == (size_t)clk.cycles + clk.given, "every front limits the step"); if (clk.given) fsx_check(clk.cand.back().size() == mat, "every front limits the step"); dt = clk.step(mat, time, gt, tf, dmax, dt, tiny); }
void LevelSet::get_timestep(const swage::Mesh&, const Material_t&, const A& x, const A& vol, RS& map, const size_t ne, const size_t mat, const double time, const double gt, const double tf, const double dmax, const double dmin, const double cfl, double& dt, const double, const double tiny) const { limit(3, ne, mat, time, gt, tf, dmax, dmin, cfl, dt, tiny); }
void LevelSet::get_timestep_2D(const swage::Mesh&, const Material_t&, const A& x, const A& vol, RS& map, const size_t ne, const size_t mat, const double time, const double gt, const double tf, const double dmax, const double dmin, const double cfl, double& dt, const double, const double tiny) const { limit(2, ne, mat, time, gt, tf, dmax, dmin, cfl, dt, tiny); }
void LevelSet::rk_init(A& p, A& p0, DRaggedRightArrayKokkos<size_t>& map, const size_t nd, const size_t ne, const size_t mat) const { fsx_check((int)nd == dims && ne == 1 && (int)mat < NF, "the whole state is saved"); if (mat == 0) tk.begin(); size_t e = map(mat, 0); near(p(e), tk.P[e], "the whole state is saved"); p0(e) = p(e); }
void LevelSet::nodal_gradient(const swage::Mesh, const A& x, const A& nv, const A& gp, const A&, const A&, const A& p, const A& vol, const double) const { if (tk.run && (tk.upd[0] || tk.upd[1])) tk.done(); tk.open(); tk.grad = true; tk.same(); for (int n = 0; n < N; n++) for (int d = 0; d < dims; d++) { gp(n, d) = d < 2 ? GR(p(0), p(2), d) : 0.0; nv(n, d) = d < 2 ? NV(p(0), p(1), d) : 0.0; } }
void LevelSet::boundary_velocity(const swage::Mesh&, const BoundaryCondition_t&, A& v, const double t, const double) const { near(t, clk.now, "boundary conditions are asked for at the time of the step"); fsx_check(tk.run && tk.grad && !tk.upd[0] && !tk.upd[1], "boundary velocities are set before fronts move"); tk.bc = true; for (int n = 0; n < N; n++) v(n, 0) = bv(t, v(n, 0)); }
void LevelSet::update_level_set(const swage::Mesh&, const Material_t&, const A& nv, const A& gp, const A& p, const A& p0, const A& vol, const A&, RS& map, const size_t ne, const size_t mat, const double, const double, const double dt, const double al) const { fsx_check(tk.run && ne == 1 && (int)mat < NF && !tk.upd[mat], "every front moves once a stage"); near(dt, tk.dt, "a stage has its part of the step all fronts can take"); near(al, tk.al, "a stage has its part of the step all fronts can take"); size_t e = map(mat, 0); double v[2], g[2]; for (int d = 0; d < 2; d++) { v[d] = nv(N - 1, d); g[d] = gp(N - 1, d); } p(e) = p0(e) - al * dt * RATE(e, v, g); tk.upd[mat] = true; }
static void go(int nd, int mats, int fronts, long cycles, double start, bool iter, bool one) { dims = nd; NM = mats; NF = fronts; S = new State_t; solver = new LevelSet; mesh_ = new swage::Mesh; MT = new Material_t; swage::fsx_block(*mesh_, dims, 3, 1, 1); N = mesh_->num_nodes; SimulationParameters_t P; BoundaryCondition_t B; stages = P.dynamic_options.rk_num_stages = still ? 2 : 1 + fsx_choose(3, "stages"); MT->num_mats = NM; MT->MaterialEnums = DCArrayKokkos<MaterialEnums_t>(NM); MT->MaterialFunctions = DCArrayKokkos<MaterialFunctions_t>(NM); for (int k = 0; k < NM; k++) MT->MaterialEnums(k).levelSetType = k < NF ? model::evolveFront : model::noLevelSet;
  S->node.initialize(N, dims, LevelSet_State::required_node_state); S->GaussPoints.initialize(NE, dims, LevelSet_State::required_gauss_pt_state); S->corner.initialize(mesh_->num_corners, dims, LevelSet_State::required_corner_state); S->MaterialToMeshMaps.initialize_num_mats(NM); for (int k = 0; k < NM; k++) { S->MaterialToMeshMaps.num_mat_elems(k) = 1; S->MaterialToMeshMaps.num_mat_elems_buffer(k) = 2; } S->MaterialToMeshMaps.initialize(); for (int k = 0; k < NM; k++) S->MaterialToMeshMaps.elem_in_mat_elem(k, 0) = NE - 1 - k;
  for (int e = 0; e < NE; e++) { S->GaussPoints.level_set(e) = still ? 1.0 : e == 2 ? sd("phi") : e - 0.5; S->GaussPoints.level_set_n0(e) = 9; S->GaussPoints.vol(e) = 1 + e; } for (int n = 0; n < N; n++) for (int d = 0; d < dims; d++) S->node.coords(n, d) = n * 0.5 + d; clk.one = one; tk.read(); clk.init(P, *solver, NF, start, cycles, iter); if (NF < NM) clk.dt_start = P.dynamic_options.dt_start = 5; solver->execute(P, *MT, B, *mesh_, *S); if (tk.run) tk.done(); tk.same(); clk.finish(); }
FSX_ENTRY h_front() { go(3, 2, 2, fsx_param("cycles", 2), sd("start", 0, 2), true, true); }
FSX_ENTRY h_front2() { go(2, 2, 2, fsx_param("cycles", 1), sd("start", 0, 2), false, false); }
FSX_ENTRY h_frontmix() { go(3, 3, 2, 1, 0, false, false); }
FSX_ENTRY h_fronttime() { still = true; go(3, 2, 2, fsx_param("cycles", 3), fsx_choose(2, "start") ? 1.5 : 0.0, fsx_choose(2, "iterations"), true); }
