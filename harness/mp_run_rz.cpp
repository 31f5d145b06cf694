// Multiphysics axisymmetric hydrodynamics run loop (apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp); x is the axis, y the radius.
#include "matar.h"
#include "ELEMENTS.h"
using namespace mtr;
#include "solver.hpp"
#include "mp_run.h"
#include "Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp"
#include "Solvers/SGH_solver_rz/src/sgh_initialize_rz.cpp"
#include "Solvers/SGH_solver_rz/src/sgh_setup_rz.cpp"
#include "solver.cpp"
typedef DCArrayKokkos<double> A; typedef DRaggedRightArrayKokkos<double> R; typedef const DRaggedRightArrayKokkos<bool> RB; typedef const DRaggedRightArrayKokkos<size_t> RS;
// one element of 4 nodes, one or two materials in it
static const int N = 4, D_ = 2; static long nm; static State_t* S; static SGHRZ* solver; static swage::Mesh* mesh_; static Material_t* MT; static bool fixed, still; static long stages;
static double bvel(double t, int n, int d) { return d == 1 ? 0.0 : 0.5 * t + n; }
static double VOL(const A& x) { double v = 8; for (int n = 0; n < N; n++) v += (n + 1) * 0.125 * (x(n, 0) + 2 * x(n, 1)); return v; }
static double GRAD(const A& x, const A& v, int i, int j) { if (i > 1 || j > 1) return i - j; double g = 0; for (int n = 0; n < N; n++) g += v(n, i) * ((n + j) % 3 - 1) + x(n, j) * ((n + i) % 3) * 0.25; return g; }
static double DEN(double mass, double vol) { return 2 * mass - vol; }
static double PRES(double den, double sie) { return den + 3 * sie; }
static double SS(double den, double sie) { return 2 * den - sie; }
// the state the code should have reached
static struct Track { double X[N][2], V[N][2], E[2], X0[N][2], V0[N][2], E0[2], S0[2][3][3], ST[2][3][3], f[2][N][2], m[N], ext[N], mm[2], g[3][3], dt, al, time; bool run = false, forced[2], stressed[2]; int stage = -1;
  void read() { for (int n = 0; n < N; n++) for (int d = 0; d < 2; d++) { X[n][d] = S->node.coords(n, d); V[n][d] = S->node.vel(n, d); } for (int k = 0; k < nm; k++) { E[k] = S->MaterialPoints.sie(k, 0); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) ST[k][i][j] = S->MaterialPoints.stress(k, 0, i, j); } }
  void same() { const char* m_ = "a stage moves the state with its forces, from the start of the step"; for (int n = 0; n < N; n++) { near(S->node.mass(n), m[n], "areal masses are the nodes' mass over their radius"); for (int d = 0; d < 2; d++) { near(S->node.coords(n, d), X[n][d], m_); near(S->node.vel(n, d), V[n][d], m_); } } for (int k = 0; k < nm; k++) { near(S->MaterialPoints.sie(k, 0), E[k], m_); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) near(S->MaterialPoints.stress(k, 0, i, j), ST[k][i][j], "stress moves from the start of the step"); double v = VOL(S->node.coords), den = DEN(mm[k], v); near(S->GaussPoints.vol(0), v, "volumes are those of the nodes"); near(S->MaterialPoints.den(k, 0), den, "material state is that of the mesh"); near(S->MaterialPoints.pres(k, 0), PRES(den, E[k]), "material state is that of the mesh"); near(S->MaterialPoints.sspd(k, 0), SS(den, E[k]), "material state is that of the mesh"); } }
  // nodes 2 and 3 are off the axis, 0 and 1 are on it when the axis is part of the mesh
  void areal() { for (int n = 0; n < N; n++) if (!fixed || n > 1) m[n] = ext[n] / S->node.coords(n, 1); if (fixed) for (int n = 0; n < 2; n++) m[n] = m[n + 2] / 2; }
  void done() { if (!run) return; run = false; for (int k = 0; k < nm; k++) fsx_check(forced[k] && stressed[k] == (MT->MaterialEnums.host(k).StrengthType == model::incrementBased), "every material has its forces and its strength, once a stage"); for (int n = 0; n < N; n++) for (int d = 0; d < 2; d++) { double F = 0; for (int k = 0; k < nm; k++) F += f[k][n][d]; V[n][d] = V0[n][d] + al * dt * F / m[n]; if (fixed && n < 2) V[n][d] = bvel(time, n, d); } for (int k = 0; k < nm; k++) { double w = 0; for (int n = 0; n < N; n++) { double p = 0; for (int d = 0; d < 2; d++) p += f[k][n][d] * 0.5 * (V[n][d] + V0[n][d]); w += p * 0.5 * (X[n][1] + X0[n][1]); } E[k] = E0[k] - al * dt * w / mm[k]; if (stressed[k]) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) ST[k][i][j] = S0[k][i][j] + al * dt * g[i][j]; } for (int n = 0; n < N; n++) for (int d = 0; d < 2; d++) X[n][d] = X0[n][d] + al * dt * 0.5 * (V[n][d] + V0[n][d]); areal(); same(); }
  void begin() { fsx_check(stage == -1 || stage == stages - 1, "a step has all its stages"); stage = -1; for (int n = 0; n < N; n++) for (int d = 0; d < 2; d++) { X0[n][d] = X[n][d]; V0[n][d] = V[n][d]; } for (int k = 0; k < nm; k++) { E0[k] = E[k]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) S0[k][i][j] = ST[k][i][j]; } }
  void open() { if (run) return; run = true; stage++; for (int k = 0; k < nm; k++) forced[k] = stressed[k] = false; fsx_check(stage < stages, "a step has all its stages"); dt = clk.dt(); time = clk.now; al = 1.0 / (stages - stage); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) g[i][j] = GRAD(S->node.coords, S->node.vel, i, j); } } tk;
static void fsx_written(State_t& s, double dt, double time, size_t id) { if (clk.outs > 1) { tk.done(); near(dt, tk.dt, "a file has the step that led to it"); } fsx_check(id == 0 && &s == S, "files are the solver's"); tk.same(); }
namespace geometry { void get_vol(const DCArrayKokkos<double>& vol, const DCArrayKokkos<double>& x, const swage::Mesh& m) { vol(0) = VOL(x); } }
static bool fresh; static const char* PART = "a stage has its part of the step all materials can take";
static void stage_begins() { if (fresh) { tk.done(); fresh = false; } tk.open(); }
void SGHRZ::get_timestep_rz(swage::Mesh&, A& x, A& v, A& vol, R& ss, DRaggedRightArrayKokkos<bool>&, DRaggedRightArrayKokkos<size_t>& map, size_t ne, double time, const double gt, const double tf, const double dmax, const double dmin, const double cfl, double& dt, const double fuzz, const double tiny, const size_t mat) const { if (tk.run) tk.done(); fresh = false; if (!clk.given || (long)clk.cand.back().size() == nm) { clk.end(); clk.next(); tk.same(); } near(dmin, 0.01, "steps keep to the limits asked for"); near(cfl, 0.4, "steps keep to the limits asked for"); fsx_check(ne == 1 && (long)mat < nm && clk.cand.size() == (size_t)clk.cycles + clk.given, "every material limits the step"); if (clk.given) fsx_check(clk.cand.back().size() == mat, "every material limits the step"); dt = clk.step(mat, time, gt, tf, dmax, dt, tiny); }
void SGHRZ::rk_init_rz(A& x, A& x0, A& v, A& v0, R& e, R& e0, R& s, R& s0, const size_t dims, const size_t ne, const size_t nn, const size_t np, const size_t mat) const { fsx_check(dims == 2 && nn == N && np == 1, "the whole state is saved"); if (mat == 0) tk.begin(); for (size_t n = 0; n < nn; n++) for (int d = 0; d < 2; d++) { x0(n, d) = x(n, d); v0(n, d) = v(n, d); } e0(mat, 0) = e(mat, 0); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) s0(mat, 0, i, j) = s(mat, 0, i, j); }
void SGHRZ::get_velgrad_rz(A& g, const swage::Mesh, const A& x, const A& v, const A& vol) const { stage_begins(); near(vol(0), VOL(x), "volumes are those of the nodes"); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) g(0, i, j) = GRAD(x, v, i, j); }
static void current(const A& x, const A& v, const A& vol, const A& g, const R& den, const R& sie, const R& pr, const R& ss, size_t mat, double dt, double al) { stage_begins(); const char* m = "forces are those of the current state"; near(dt, tk.dt, PART); near(al, tk.al, PART); near(vol(0), VOL(x), m); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) near(g(0, i, j), tk.g[i][j], m); for (int n = 0; n < N; n++) for (int d = 0; d < 2; d++) { near(x(n, d), tk.X[n][d], m); near(v(n, d), tk.V[n][d], m); } double D = DEN(tk.mm[mat], VOL(x)); near(den(mat, 0), D, m); near(sie(mat, 0), tk.E[mat], m); near(pr(mat, 0), PRES(D, tk.E[mat]), m); near(ss(mat, 0), SS(D, tk.E[mat]), m); }
void SGHRZ::get_force_rz(const Material_t&, const swage::Mesh& mesh, const A& vol, const A& g, RB&, const A& cf, const A& x, const A& v, const R& den, const R& sie, const R& pr, const R& st, const R& ss, const R& mcf, const R& vf, const R& gf, const corners_in_mat_t cm, RS& map, const size_t ne, const size_t mat, const double, const double, const double, const double dt, const double al) const { current(x, v, vol, g, den, sie, pr, ss, mat, dt, al); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) near(st(mat, 0, i, j), tk.ST[mat][i][j], "forces are those of the current state"); fsx_check(!tk.forced[mat] && ne == 1, "every material has its forces and its strength, once a stage"); tk.forced[mat] = true; for (int l = 0; l < 4; l++) for (int d = 0; d < 2; d++) { double f = still ? 0.0 : l == (tk.stage % 2 ? 2 : 3) && d == 0 ? sd("force") : fixed && d == 1 ? 0.0 : 0.125 * ((l * 2 + d) % 5 - 2 + (double)mat); int n = mesh.nodes_in_elem(0, l); tk.f[mat][n][d] = f; mcf(mat, cm(0, l), d) = f; cf(mesh.corners_in_elem(0, l), d) += f; } }
void SGHRZ::update_stress(const Material_t&, const swage::Mesh&, const A& vol, const A& x, const A& v, const A& g, const R& den, const R& sie, const R& pr, const R& st, const R& st0, const R& ss, const R&, const R&, const R&, RS& map, const size_t ne, const size_t mat, const double, const double, const double time, const double dt, const double al, const size_t cycle) const { current(x, v, vol, g, den, sie, pr, ss, mat, dt, al); near(time, clk.now, "strength is asked for at the time of the step"); fsx_check(!tk.stressed[mat] && (long)cycle == clk.cycles, "every material has its forces and its strength, once a stage"); tk.stressed[mat] = true; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) st(mat, 0, i, j) = st0(mat, 0, i, j) + al * dt * g(0, i, j); }
void SGHRZ::boundary_velocity_rz(const swage::Mesh&, const BoundaryCondition_t&, A& v, const double t) const { near(t, clk.now, "boundary conditions are asked for at the time of the step"); if (fixed) for (int n = 0; n < 2; n++) for (int d = 0; d < 2; d++) v(n, d) = bvel(t, n, d); if (clk.outs == 0) tk.read(); }
void SGHRZ::boundary_contact_rz(const swage::Mesh&, const BoundaryCondition_t&, A&, const double) const {}
void SGHRZ::update_velocity_rz(double al, double dt, const swage::Mesh& m, A& v, const A& v0, const A& nm_, const A& cf) const { for (int n = 0; n < N; n++) for (int d = 0; d < 2; d++) { double F = 0; for (size_t c = 0; c < m.num_corners_in_node(n); c++) F += cf(m.corners_in_node(n, c), d); v(n, d) = v0(n, d) + al * dt * F / nm_(n); } fresh = true; }
void SGHRZ::update_energy_rz(const double al, const double dt, const swage::Mesh& m, const A& v, const A& v0, const A& x, const A& x0, const R& e, const R& e0, const R& mass, const R& mcf, const corners_in_mat_t cm, RS& map, const size_t ne, const size_t mat) const { double w = 0; for (int n = 0; n < N; n++) { double p = 0; for (int l = 0; l < 4; l++) if ((int)m.nodes_in_elem(0, l) == n) for (int d = 0; d < 2; d++) p += mcf(mat, cm(0, l), d) * 0.5 * (v(n, d) + v0(n, d)); w += p * 0.5 * (x(n, 1) + x0(n, 1)); } e(mat, 0) = e0(mat, 0) - al * dt * w / mass(mat, 0); }
void SGHRZ::update_position_rz(double al, double dt, const size_t dims, const size_t nn, A& x, const A& x0, const A& v, const A& v0) const { for (size_t n = 0; n < nn; n++) for (size_t d = 0; d < dims; d++) x(n, d) = x0(n, d) + al * dt * 0.5 * (v(n, d) + v0(n, d)); }
void SGHRZ::update_state_rz(const Material_t&, const swage::Mesh&, const A& x, const A& v, const A& g, const R& den, const R& pr, const R& st, const R& st0, const R& ss, const R& sie, const R& vf, const R& gf, const A& vol, const R& mass, const R&, const R&, RB&, const R&, RS& map, const double time, const double dt, const double al, const size_t cycle, const size_t ne, const size_t mat) const { near(time, clk.now, "material state is asked for at the time of the step"); near(dt, tk.dt, PART); near(al, tk.al, PART); fsx_check((long)cycle == clk.cycles && ne == 1, "material state is asked for at the time of the step"); near(vol(0), VOL(x), "volumes are those of the nodes"); den(mat, 0) = DEN(mass(mat, 0), vol(0)); pr(mat, 0) = PRES(den(mat, 0), sie(mat, 0)); ss(mat, 0) = SS(den(mat, 0), sie(mat, 0)); }
// bc: the first two nodes are on the axis and move along it as they are told to
static void go(long mats, long cycles, double start, bool iter, bool bc) { nm = mats; S = new State_t; solver = new SGHRZ; mesh_ = new swage::Mesh; MT = new Material_t; swage::fsx_block(*mesh_, 2, 1, 1, 1); SimulationParameters_t P; BoundaryCondition_t B; fixed = bc; stages = P.dynamic_options.rk_num_stages = bc ? 1 + fsx_choose(3, "stages") : 2; MT->num_mats = nm; MT->MaterialEnums = DCArrayKokkos<MaterialEnums_t>(nm); MT->MaterialFunctions = DCArrayKokkos<MaterialFunctions_t>(nm); for (int k = 0; k < nm; k++) MT->MaterialEnums(k).StrengthType = (k + bc) % 2 ? model::incrementBased : model::noStrengthType; MT->EquilibrationModels = MT->GeoEquilibrationModels = model::noEquilibration;
  S->node.initialize(N, 2, SGHRZ_State::required_node_state); S->GaussPoints.initialize(1, 3, SGHRZ_State::required_gauss_pt_state); S->corner.initialize(4, 2, SGHRZ_State::required_corner_state); auto& q = S->MaterialPoints; q.initialize_num_mats(nm); S->MaterialToMeshMaps.initialize_num_mats(nm); S->MaterialCorners.initialize_num_mats(nm); for (int k = 0; k < nm; k++) { q.num_material_points(k) = 1; q.num_material_points_buffer(k) = 2; S->MaterialToMeshMaps.num_mat_elems(k) = 1; S->MaterialToMeshMaps.num_mat_elems_buffer(k) = 2; S->MaterialCorners.num_material_corners(k) = 4; S->MaterialCorners.num_material_corners_buffer(k) = 8; } S->MaterialToMeshMaps.initialize(); q.initialize(3, SGHRZ_State::required_material_pt_state); S->MaterialCorners.initialize(2, SGHRZ_State::required_material_corner_state); S->corners_in_mat_elem = corners_in_mat_t(4);
  for (int n = 0; n < N; n++) { for (int d = 0; d < 2; d++) { S->node.coords(n, d) = (n >> d & 1) + (d == 1 && !bc ? 1 : 0); S->node.vel(n, d) = still ? 0.0 : n == 2 && d == 0 ? sd("v") : ((n + d) % 3 - 1) * 0.125; } tk.m[n] = S->node.mass(n) = bc && n < 2 ? 1 : 2; tk.ext[n] = S->node.mass(n) * S->node.coords(n, 1); } for (int c = 0; c < 4; c++) for (int d = 0; d < 2; d++) S->corner.force(c, d) = 9; S->GaussPoints.vol(0) = VOL(S->node.coords); for (int k = 0; k < nm; k++) { S->MaterialToMeshMaps.elem_in_mat_elem(k, 0) = 0; tk.mm[k] = q.mass(k, 0) = 2 << k; q.sie(k, 0) = still ? 1.0 : sd("e"); q.den(k, 0) = DEN(2 << k, S->GaussPoints.vol(0)); q.pres(k, 0) = PRES(q.den(k, 0), q.sie(k, 0)); q.sspd(k, 0) = SS(q.den(k, 0), q.sie(k, 0)); q.eroded(k, 0) = false; q.volfrac(k, 0) = q.geo_volfrac(k, 0) = 1; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) q.stress(k, 0, i, j) = i + j; }
  tk.read(); clk.init(P, *solver, nm, start, cycles, iter); fresh = false; solver->execute(P, *MT, B, *mesh_, *S); if (tk.run) tk.done(); tk.same(); clk.finish(); }
FSX_ENTRY h_rzrun() { go(2, fsx_param("cycles", 1), 0, false, false); }
FSX_ENTRY h_rzrun1() { go(1, fsx_param("cycles", 2), 0, false, false); }
FSX_ENTRY h_rzaxis() { go(1, fsx_param("cycles", 2), sd("start", 0, 3), true, true); }
FSX_ENTRY h_rztime() { still = true; go(1, fsx_param("cycles", 4), fsx_choose(2, "start") ? 1.5 : 0.0, fsx_choose(2, "iterations"), false); }
