// Multiphysics axisymmetric (RZ) staggered-grid hydrodynamics solver (apps/multiphysics/src/Solvers/SGH_solver_rz); x is the axis, y the radius.
#include "matar.h"
#include "ELEMENTS.h"
#include "Solvers/SGH_solver_rz/src/boundary_rz.cpp"
#include "Solvers/SGH_solver_rz/src/energy_sgh_rz.cpp"
#include "Solvers/SGH_solver_rz/src/force_sgh_rz.cpp"
#include "Solvers/SGH_solver_rz/src/momentum_rz.cpp"
#include "Solvers/SGH_solver_rz/src/position_rz.cpp"
#include "Solvers/SGH_solver_rz/src/properties_rz.cpp"
#include "Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp"
#include "Solvers/SGH_solver_rz/src/sgh_initialize_rz.cpp"
#include "Solvers/SGH_solver_rz/src/sgh_setup_rz.cpp"
#include "Solvers/SGH_solver_rz/src/time_integration_rz.cpp"
#include "common/src/geometry_new.cpp"
#include "solver.cpp"
#include "no_dissipation.hpp"
static const double TOL = 1e-9;
static double sd(const char* n, double lo = -10, double hi = 10) { return fsx_double(n, lo, hi); }
typedef DRaggedRightArrayKokkos<double> Ragged; typedef DCArrayKokkos<double> D;
#include "mp_models.h"
static Material_t* materials(size_t n) { Material_t* M = new Material_t; M->num_mats = n; M->MaterialFunctions = DCArrayKokkos<MaterialFunctions_t>(n); M->MaterialEnums = DCArrayKokkos<MaterialEnums_t>(n); for (size_t i = 0; i < n; i++) { M->MaterialFunctions(i).calc_dissipation = NoDissipationModel::calc_dissipation; M->MaterialEnums(i).EOSType = model::decoupledEOSType; } return M; }
// two quadrilaterals, two materials: material 0 in both, material 1 in the second (in the order the map lists them)
struct Two { swage::Mesh mesh; DCArrayKokkos<size_t> buf, cbuf; DRaggedRightArrayKokkos<size_t> map; size_t n[2]; corners_in_mat_t cm; Ragged sie, sie0, mass, force, den, pr, st, st0, ss, vf, gf, ev, sv, sh; DRaggedRightArrayKokkos<bool> er; D cf, v, v0, nm, x, x0, vol, vg; SGHRZ solver; Material_t* M;
  Two() : buf(2), cbuf(2), cm(4), vol(2), vg(2, 3, 3), M(materials(2)) { swage::fsx_block(mesh, 2, 2, 1, 1); fsx_loop_order = fsx_choose(2, "order"); int sw = fsx_choose(2, "map"); n[0] = 2; n[1] = 1; buf(0) = 3; buf(1) = 2; cbuf(0) = 12; cbuf(1) = 8; map = DRaggedRightArrayKokkos<size_t>(buf, "m"); map(0, 0) = sw; map(0, 1) = !sw; map(1, 0) = 1;
    for (Ragged* r : {&sie, &sie0, &mass, &den, &pr, &ss, &vf, &gf, &ev, &sv, &sh}) *r = Ragged(buf, "r"); st = Ragged(buf, 3, 3, "s"); st0 = Ragged(buf, 3, 3, "s"); force = Ragged(cbuf, 2, "f"); er = DRaggedRightArrayKokkos<bool>(buf, "e"); cf = D(mesh.num_corners, 2); size_t N = mesh.num_nodes; v = D(N, 2); v0 = D(N, 2); x = D(N, 2); x0 = D(N, 2); nm = D(N); for (int m = 0; m < 2; m++) for (size_t s = 0; s < buf(m); s++) er(m, s) = false; }
  size_t corner(size_t e, size_t l) { return mesh.corners_in_elem(e, l); } size_t node(size_t e, size_t l) { return mesh.nodes_in_elem(e, l); }
  double area(size_t e) { double s = 0; for (int i = 0; i < 4; i++) { size_t p = node(e, i), q = node(e, (i + 1) % 4); s += 0.5 * (x(p, 0) * x(q, 1) - x(q, 0) * x(p, 1)); } return s; }
  double dA(size_t e, int l, int d) { int p = (l + 1) % 4, q = (l + 3) % 4; return d == 0 ? 0.5 * (x(node(e, p), 1) - x(node(e, q), 1)) : 0.5 * (x(node(e, q), 0) - x(node(e, p), 0)); }
  void grid(double w = 3, double h = 4, double y0 = 1) { for (size_t i = 0; i < mesh.num_nodes; i++) { x(i, 0) = (i % 3) * w; x(i, 1) = y0 + (i / 3) * h; } } };
FSX_ENTRY h_energy() { Two t; double dt = sd("dt", 0, 1), al = fsx_choose(2, "stage") ? 1.0 : 0.5; size_t k = fsx_choose(3, "which"); for (size_t n = 0; n < t.mesh.num_nodes; n++) { t.nm(n) = n == k ? sd("m", 0.1, 10) : 1 + n * 0.25; for (int d = 0; d < 2; d++) { t.v0(n, d) = n % 3 == k ? sd("v0") : 1.5 * n - d; t.v(n, d) = 77; t.x(n, d) = d == 1 ? sd("r", 0, 10) : 12; t.x0(n, d) = 13; } }
  for (int m = 0; m < 2; m++) for (size_t s = 0; s < t.n[m]; s++) { t.mass(m, s) = 1 + m + s; t.sie(m, s) = 55; t.sie0(m, s) = sd("e0", 0, 10); for (int l = 0; l < 4; l++) for (int d = 0; d < 2; d++) { double f = sd("f"); t.force(m, s * 4 + l, d) = f; t.cf(t.corner(t.map(m, s), l), d) += f; } }
  t.solver.update_velocity_rz(al, dt, t.mesh, t.v, t.v0, t.nm, t.cf); double ke = 0, ie = 0; for (int m = 0; m < 2; m++) { t.solver.update_energy_rz(al, dt, t.mesh, t.v, t.v0, t.x, t.x0, t.sie, t.sie0, t.mass, t.force, t.cm, t.map, t.n[m], m); for (size_t s = 0; s < t.n[m]; s++) ie += t.mass(m, s) * (t.sie(m, s) - t.sie0(m, s)); }
  for (size_t n = 0; n < t.mesh.num_nodes; n++) for (int d = 0; d < 2; d++) ke += 0.5 * t.nm(n) * t.x(n, 1) * (t.v(n, d) * t.v(n, d) - t.v0(n, d) * t.v0(n, d)); fsx_check_near(ke + ie, 0, TOL, "a stage conserves total energy"); fsx_cover("stage"); }
FSX_ENTRY h_force() { Two t; t.grid(); int erd = fsx_choose(3, "eroded") - 1; bool uni = fsx_choose(2, "uniform"); if (uni) { size_t k = fsx_choose(6, "node"); t.x(k, 0) += 0.375; t.x(k, 1) -= 0.25; } double p0 = sd("pressure");
  for (size_t e = 0; e < 2; e++) t.vol(e) = sd("vol", 0.1, 100); for (int m = 0; m < 2; m++) { t.M->MaterialEnums(m).EOSType = m == 0 || fsx_choose(2, "eos") ? model::decoupledEOSType : model::coupledEOSType; for (size_t s = 0; s < t.n[m]; s++) { t.er(m, s) = m == erd; t.den(m, s) = t.ss(m, s) = 1; t.pr(m, s) = uni ? p0 : sd("p"); for (int i = 0; i < 3; i++) for (int j = 0; j <= i; j++) t.st(m, s, i, j) = t.st(m, s, j, i) = uni ? 0.0 : sd("stress"); t.vf(m, s) = sd("volfrac", 0, 1); t.gf(m, s) = sd("geo", 0, 1); } for (size_t i = 0; i < t.cbuf(m); i++) for (int d = 0; d < 2; d++) t.force(m, i, d) = 31; }
  for (int m = 0; m < 2; m++) t.solver.get_force_rz(*t.M, t.mesh, t.vol, t.vg, t.er, t.cf, t.x, t.v, t.den, t.sie, t.pr, t.st, t.ss, t.force, t.vf, t.gf, t.cm, t.map, t.n[m], m, 1e-16, 1e-12, 1e-8, 0.1, 0.5);
  for (int m = 0; m < 2; m++) for (size_t s = 0; s < t.n[m]; s++) { size_t e = t.map(m, s); double f = m == erd ? 0 : t.vf(m, s) * t.gf(m, s), A = t.area(e); bool dec = t.M->MaterialEnums(m).EOSType == model::decoupledEOSType; auto tau = [&](int i, int j) { return t.st(m, s, i, j) - (i == j && dec ? t.pr(m, s) : 0.0); };
    for (int l = 0; l < 4; l++) for (int d = 0; d < 2; d++) { double w = 0; for (int q = 0; q < 2; q++) w -= t.dA(e, l, q) * tau(q, d); if (!uni) { double hoop = (d == 0 ? tau(1, 0) : tau(1, 1) - tau(2, 2)) * (A / 4); w += hoop * A / t.vol(e); } fsx_check_near(t.force(m, s * 4 + l, d), f * w, 1e-7, uni ? "a uniform pressure pushes with pressure times corner normal" : "corner force is stress times normal plus the hoop terms, by volume fraction, and none if eroded"); }
    for (int d = 0; d < 2 && uni; d++) { double q = 0; for (int l = 0; l < 4; l++) q += t.force(m, s * 4 + l, d); fsx_check_near(q, 0, TOL, "the forces of a uniform pressure on an element sum to zero"); } fsx_cover(m == erd ? "eroded" : "sound"); }
  for (size_t e = 0; e < 2; e++) for (int l = 0; l < 4; l++) for (int d = 0; d < 2; d++) { double w = 0; for (int m = 0; m < 2; m++) for (size_t s = 0; s < t.n[m]; s++) if (t.map(m, s) == e) w += t.force(m, s * 4 + l, d); fsx_check_near(t.cf(t.corner(e, l), d), w, TOL, "the force on a corner is the sum over its materials, eroded ones adding none"); } }
FSX_ENTRY h_velgrad() { Two t; double A[2][2], c[2]; for (int i = 0; i < 2; i++) { c[i] = sd("c"); for (int j = 0; j < 2; j++) A[i][j] = sd("A"); } for (size_t n = 0; n < t.mesh.num_nodes; n++) { for (int d = 0; d < 2; d++) t.x(n, d) = sd("x"); for (int d = 0; d < 2; d++) { t.v(n, d) = c[d]; for (int k = 0; k < 2; k++) t.v(n, d) += A[d][k] * t.x(n, k); } } D dv(2); for (size_t e = 0; e < 2; e++) { t.vol(e) = sd("V", 0.1, 10); double a = t.area(e); fsx_assume(a >= 0.01); for (int i = 0; i < 9; i++) t.vg(e, i / 3, i % 3) = 0; }
  t.solver.get_velgrad_rz(t.vg, t.mesh, t.x, t.v, t.vol); t.solver.get_divergence_rz(dv, t.mesh, t.x, t.v, t.vol); for (size_t e = 0; e < 2; e++) { double a = t.area(e), m = 0; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) fsx_check_near(t.vg(e, i, j), A[i][j], TOL, "velocity gradient of an affine field"); for (int l = 0; l < 4; l++) m += t.v(t.node(e, l), 1) / 4; fsx_check_near(t.vg(e, 2, 2) * t.vol(e), m * a, TOL, "hoop rate is mean radial velocity by mean radius"); for (int i = 0; i < 2; i++) fsx_check(t.vg(e, i, 2) == 0 && t.vg(e, 2, i) == 0, "no shear out of the plane"); fsx_check_near(dv(e), t.vg(e, 0, 0) + t.vg(e, 1, 1) + t.vg(e, 2, 2), TOL, "divergence is the trace of the velocity gradient"); } fsx_cover("affine"); }
FSX_ENTRY h_position() { Two t; double dt = sd("dt", 0, 1), al = sd("alpha", 0, 1); size_t N = t.mesh.num_nodes, k = fsx_choose((int)N, "node"); for (size_t n = 0; n < N; n++) for (int d = 0; d < 2; d++) { t.x(n, d) = 99; t.x0(n, d) = n == k ? sd("x0", 0, 10) : 50 + n; t.v(n, d) = sd("v"); t.v0(n, d) = sd("v0"); } t.solver.update_position_rz(al, dt, 2, N, t.x, t.x0, t.v, t.v0); for (size_t n = 0; n < N; n++) for (int d = 0; d < 2; d++) { double w = t.x0(n, d) + al * dt * (t.v(n, d) + t.v0(n, d)) / 2; fsx_check_near(t.x(n, d), d == 1 && w < 0 ? 0.0 : w, TOL, "nodes move with the mean of the old and new velocity and do not cross the axis"); } fsx_cover("moved"); }
FSX_ENTRY h_velocity() { Two t; double dt = sd("dt", 0, 1), al = sd("alpha", 0, 1); size_t N = t.mesh.num_nodes; double w[6][2] = {}; for (size_t n = 0; n < N; n++) { t.nm(n) = sd("m", 0.1, 10); for (int d = 0; d < 2; d++) { t.v0(n, d) = sd("v0"); t.v(n, d) = 7; } } for (size_t e = 0; e < 2; e++) for (int l = 0; l < 4; l++) for (int d = 0; d < 2; d++) w[t.node(e, l)][d] += t.cf(t.corner(e, l), d) = sd("f"); t.solver.update_velocity_rz(al, dt, t.mesh, t.v, t.v0, t.nm, t.cf); for (size_t n = 0; n < N; n++) for (int d = 0; d < 2; d++) fsx_check_near(t.nm(n) * (t.v(n, d) - t.v0(n, d)), al * dt * w[n][d], TOL, "momentum change is force times time"); fsx_cover("velocity"); }
FSX_ENTRY h_rk() { Two t; size_t m = fsx_choose(2, "mat"); for (int a = 0; a < 2; a++) for (size_t s = 0; s < t.buf(a); s++) { t.sie(a, s) = sd("e"); t.sie0(a, s) = 3; for (int i = 0; i < 9; i++) { t.st(a, s, i / 3, i % 3) = sd("s"); t.st0(a, s, i / 3, i % 3) = 4; } } for (size_t n = 0; n < t.mesh.num_nodes; n++) for (int d = 0; d < 2; d++) { t.x(n, d) = sd("x"); t.v(n, d) = sd("v"); t.x0(n, d) = t.v0(n, d) = 5; }
  t.solver.rk_init_rz(t.x, t.x0, t.v, t.v0, t.sie, t.sie0, t.st, t.st0, 2, 2, t.mesh.num_nodes, t.n[m], m); for (int a = 0; a < 2; a++) for (size_t s = 0; s < t.buf(a); s++) { bool in = a == (int)m && s < t.n[m]; fsx_check(t.sie0(a, s) == (in ? t.sie(a, s) : 3.0), "the step starts from the current energy"); for (int i = 0; i < 9; i++) fsx_check(t.st0(a, s, i / 3, i % 3) == (in ? t.st(a, s, i / 3, i % 3) : 4.0), "the step starts from the current stress"); } for (size_t n = 0; n < t.mesh.num_nodes; n++) for (int d = 0; d < 2; d++) fsx_check(t.x0(n, d) == t.x(n, d) && t.v0(n, d) == t.v(n, d), "the step starts from the current motion"); fsx_cover("saved"); }
static void timestep(bool limits) { Two t; int a = 1, b = 3; size_t e0 = 0; int ax = 0; if (!limits) { a = fsx_choose(4, "a"); b = fsx_choose(4, "b"); fsx_assume(a < b); e0 = fsx_choose(2, "elem"); ax = fsx_choose(2, "axis"); } size_t m = fsx_choose(2, "mat"); double del = sd("gap", 0.02, 0.2); t.grid(1, 1); size_t A = t.node(e0, a), B = t.node(e0, b); for (int d = 0; d < 2; d++) t.x(B, d) = t.x(A, d) + (d == ax ? del : 0.0);
  for (int i = 0; i < 2; i++) for (size_t s = 0; s < t.buf(i); s++) { t.ss(i, s) = limits ? sd("c", 0, 100) : 5.0 - i - 2 * s; t.er(i, s) = limits && i == (int)m && fsx_choose(2, "eroded"); } double time = 1, tg = 90, tf = 99, mx = 50, mn = 0, cfl = 0.5, dt0 = 60; if (limits) { time = sd("time", 0, 10); tg = sd("output time", 0, 10); tf = sd("final time", 0, 10); mx = sd("dt max", 0.01, 10); mn = sd("dt min", 0, 0.01); cfl = sd("cfl", 0.05, 1); dt0 = sd("dt", 0.001, 10); } double dt = dt0; const double fuzz = 1e-16, tiny = 1e-12;
  t.solver.get_timestep_rz(t.mesh, t.x, t.v, t.vol, t.ss, t.er, t.map, t.n[m], time, tg, tf, mx, mn, cfl, dt, fuzz, tiny, m); double w = dt0 * 1.1; for (size_t s = 0; s < t.n[m]; s++) { size_t e = t.map(m, s); double d = 1e9; for (int i = 0; i < 4; i++) for (int j = 0; j < i; j++) { double q = 0; for (int k = 0; k < 2; k++) { double y = t.x(t.node(e, i), k) - t.x(t.node(e, j), k); q += y * y; } bool gap = (t.node(e, i) == A && t.node(e, j) == B) || (t.node(e, i) == B && t.node(e, j) == A); d = fmin(d, gap ? del : sqrt(q)); }
    double l = t.er(m, s) ? mx : cfl * d / (t.ss(m, s) + fuzz); w = fmin(w, fmax(fmin(l, mx), mn)); } w = fmin(w, fmax(tg - time, fuzz) + tiny); w = fmin(w, tf - time + tiny); fsx_check_near(dt, w, TOL, "the time step is the smallest of growth limit, CFL limit in bounds, time to output and time to the end"); fsx_cover(t.n[m] == 2 ? "two elements" : "one element"); }
FSX_ENTRY h_cfl() { timestep(false); }
FSX_ENTRY h_timestep() { timestep(true); }
// node masses add up to the material masses, and keep doing so when nodes move
FSX_ENTRY h_mass() { Two t; t.grid(3, 4, fsx_choose(2, "on axis") ? 0 : 1); for (int m = 0; m < 2; m++) for (size_t s = 0; s < t.n[m]; s++) { t.den(m, s) = sd("den", 0.1, 10); t.vf(m, s) = sd("volfrac", 0.1, 1); t.gf(m, s) = sd("geo", 0.1, 1); } D cmass(t.mesh.num_corners); for (size_t c = 0; c < t.mesh.num_corners; c++) cmass(c) = 17; for (size_t n = 0; n < t.mesh.num_nodes; n++) t.nm(n) = 18; geometry::get_vol(t.vol, t.x, t.mesh);
  t.solver.init_corner_node_masses_zero_rz(t.mesh, t.nm, cmass); double M = 0; for (int m = 0; m < 2; m++) { calc_corner_mass_rz(*t.M, t.mesh, t.x, t.nm, cmass, t.den, t.vf, t.gf, t.map, t.n[m], m); for (size_t s = 0; s < t.n[m]; s++) { t.mass(m, s) = t.den(m, s) * t.vf(m, s) * t.gf(m, s) * t.vol(t.map(m, s)); t.sie(m, s) = sd("e"); M += t.mass(m, s); } } calc_node_mass_rz(t.mesh, t.x, t.nm, cmass); double c = 0; for (size_t i = 0; i < t.mesh.num_corners; i++) c += cmass(i); fsx_check_near(c, M, 1e-7, "corner masses add up to the material masses");
  CArrayKokkos<double> ext(t.mesh.num_nodes); calc_node_extensive_mass_rz(ext, t.x, t.nm, t.mesh.num_nodes); fsx_check_near(sum_domain_node_mass_rz(ext, t.mesh.num_nodes), M, 1e-7, "node masses add up to the material masses"); double mm = 0, ie = 0, w = 0; for (int m = 0; m < 2; m++) { mm += sum_domain_material_mass_rz(t.mass, t.n[m], m); ie += sum_domain_internal_energy_rz(t.mass, t.sie, t.n[m], m); for (size_t s = 0; s < t.n[m]; s++) w += t.mass(m, s) * t.sie(m, s); } fsx_check_near(mm, M, TOL, "domain mass"); fsx_check_near(ie, w, TOL, "domain internal energy"); double ke = 0; for (size_t n = 0; n < t.mesh.num_nodes; n++) for (int d = 0; d < 2; d++) { t.v(n, d) = sd("v"); ke += 0.5 * ext(n) * t.v(n, d) * t.v(n, d); } fsx_check_near(sum_domain_kinetic_energy_rz(t.mesh, t.v, ext), ke, TOL, "domain kinetic energy"); fsx_cover("mass"); }
FSX_ENTRY h_areal() { Two t; size_t N = t.mesh.num_nodes; CArrayKokkos<double> ext(N); const double tiny = 1e-12; double r[6]; for (size_t n = 0; n < N; n++) { ext(n) = sd("mass", 0.1, 10); t.x(n, 0) = n % 3; t.nm(n) = 33; r[n] = t.x(n, 1) = n < 3 ? fsx_choose(2, "on axis") ? fsx_choose(2, "exactly") ? 0.0 : tiny : sd("r", 0.01, 1) : sd("r", 1, 5); } calc_node_areal_mass_rz(t.mesh, t.x, t.nm, ext, tiny);
  for (size_t n = 0; n < N; n++) { if (r[n] > tiny) { fsx_check_near(t.nm(n) * r[n], ext(n), TOL, "areal mass times radius is the conserved mass"); fsx_cover("off axis"); continue; } double w = 0; for (size_t k = 0; k < t.mesh.num_nodes_in_node(n); k++) { size_t q = t.mesh.nodes_in_node(n, k); if (r[q] > tiny) w = fmax(w, ext(q) / r[q] / 2); } fsx_check_near(t.nm(n), w, TOL, "a node on the axis has half the areal mass of its heaviest neighbour off the axis"); fsx_cover("axis"); } }
FSX_ENTRY h_state() { Two t; Material_t& M = *materials(2); bool dec = fsx_choose(2, "eos"), ero = fsx_choose(2, "erosion"); int str = fsx_choose(3, "strength"); size_t m = fsx_choose(2, "mat"); CArrayKokkos<size_t> one(2); one(0) = one(1) = 1; M.eos_global_vars = RaggedRightArrayKokkos<double>(one); M.strength_global_vars = RaggedRightArrayKokkos<double>(one); Ragged &den = t.den, &pr = t.pr, &st = t.st, &st0 = t.st0, &ss = t.ss, &vf = t.vf, &gf = t.gf, &ev = t.ev, &sv = t.sv, &sh = t.sh; auto &er = t.er; D &vol = t.vol, &vg = t.vg; 
  for (int i = 0; i < 2; i++) { M.eos_global_vars(i, 0) = sd("eos"); M.strength_global_vars(i, 0) = sd("strength"); vol(i) = sd("vol", 0.1, 10); for (int a = 0; a < 9; a++) vg(i, a / 3, a % 3) = sd("L"); M.MaterialEnums(i).EOSType = dec ? model::decoupledEOSType : model::coupledEOSType; M.MaterialEnums(i).StrengthType = str == 1 ? model::stateBased : str == 2 ? model::incrementBased : model::noStrengthType; M.MaterialEnums(i).ErosionModels = ero ? model::basicErosion : model::noErosion; M.MaterialEnums(i).StrengthRunLocation = model::device;
    auto& F = M.MaterialFunctions(i); F.calc_pressure = s_pres; F.calc_sound_speed = s_sspd; F.calc_stress = s_stress; F.erode = s_erode; F.erode_tension_val = sd("tension"); F.erode_density_val = sd("min den", 0, 5);
    for (size_t s = 0; s < t.buf(i); s++) { den(i, s) = 500; pr(i, s) = 600; ss(i, s) = 700; vf(i, s) = sd("vf", 0.1, 1); gf(i, s) = sd("gf", 0.1, 1); t.mass(i, s) = sd("mass", 0.1, 10); t.sie(i, s) = sd("e"); sh(i, s) = sd("G"); er(i, s) = false; for (int a = 0; a < 9; a++) { st(i, s, a / 3, a % 3) = 800 + a; st0(i, s, a / 3, a % 3) = sd("s0"); } } }
  double dt = sd("dt", 0, 1), al = sd("alpha", 0, 1), time = sd("time", 0, 9); t.solver.update_state_rz(M, t.mesh, t.x, t.v, vg, den, pr, st, st0, ss, t.sie, vf, gf, vol, t.mass, ev, sv, er, sh, t.map, time, dt, al, 3, t.n[m], m);
  if (str == 2) t.solver.update_stress(M, t.mesh, vol, t.x, t.v, vg, den, t.sie, pr, st, st0, ss, ev, sv, sh, t.map, t.n[m], m, 1e-16, 1e-8, time, dt, al, 3);
  for (int i = 0; i < 2; i++) for (size_t s = 0; s < t.buf(i); s++) { bool on = i == (int)m && s < t.n[m]; if (!on) { bool same = den(i, s) == 500 && pr(i, s) == 600 && ss(i, s) == 700 && !er(i, s); for (int a = 0; a < 9; a++) same = same && st(i, s, a / 3, a % 3) == 800 + a; fsx_check(same, "other materials are left alone"); continue; }
    size_t e = t.map(i, s); double d = t.mass(i, s) / (vol(e) * vf(i, s) * gf(i, s) + 1e-20), p = dec ? f_p(d, t.sie(i, s), M.eos_global_vars(i, 0)) : 600.0, c = dec ? p + 7 * d + t.sie(i, s) + sh(i, s) : 700.0; bool gone = ero && (p <= M.MaterialFunctions(i).erode_tension_val || d <= M.MaterialFunctions(i).erode_density_val);
    fsx_check(er(i, s) == gone, "erosion is decided on the new state"); if (gone && str != 2) { fsx_check(pr(i, s) == 0, "an eroded material has no pressure"); for (int a = 0; a < 9; a++) fsx_check(st(i, s, a / 3, a % 3) == 0, "an eroded material has no stress"); fsx_check(den(i, s) < 1e-6 && ss(i, s) < 1e-6, "an eroded material has no density and sound speed"); fsx_cover("eroded"); continue; } if (gone) continue;
    fsx_check_near(den(i, s), d, TOL, "density is mass by the material's volume"); fsx_check_near(pr(i, s), p, TOL, "pressure is that of the equation of state at the new density"); fsx_check_near(ss(i, s), c, TOL, "sound speed is that of the equation of state at the new density and pressure");
    for (int a = 0; a < 9; a++) { double w = str ? st0(i, s, a / 3, a % 3) + al * dt * (vg(e, a / 3, a % 3) + M.strength_global_vars(i, 0)) + 0.5 * p + d - t.sie(i, s) + vol(e) + c + time + 3 : 800.0 + a; fsx_check_near(st(i, s, a / 3, a % 3), w, TOL, "stress is that of the strength model at the new state"); } fsx_cover(dec ? "decoupled" : "coupled"); } }
