// Multiphysics 3D staggered-grid hydrodynamics solver (apps/multiphysics/src/Solvers/SGH_solver_3D).
#include "mp_sgh.h"
#include "mp_models.h"
// two materials: material 0 in both elements, material 1 in the second one (in the order the map lists them)
struct Two { swage::Mesh mesh; DCArrayKokkos<size_t> buf, cbuf; DRaggedRightArrayKokkos<size_t> map; size_t n[2]; corners_in_mat_t cm; Ragged sie, sie0, mass, force; DCArrayKokkos<double> cf, nf, v, v0, nm, x, x0; SGH3D solver;
  Two() : buf(2), cbuf(2), cm(8) { swage::fsx_block(mesh, 3, 2, 1, 1); fsx_loop_order = fsx_choose(2, "order"); int sw = fsx_choose(2, "map"); n[0] = 2; n[1] = 1; buf(0) = 3; buf(1) = 2; cbuf(0) = 24; cbuf(1) = 16; map = DRaggedRightArrayKokkos<size_t>(buf, "m"); map(0, 0) = sw; map(0, 1) = !sw; map(1, 0) = 1;
    sie = Ragged(buf, "s"); sie0 = Ragged(buf, "s"); mass = Ragged(buf, "s"); force = Ragged(cbuf, 3, "f"); cf = DCArrayKokkos<double>(mesh.num_corners, 3); size_t N = mesh.num_nodes; nf = v = v0 = x = x0 = DCArrayKokkos<double>(); nf = A(N); v = A(N); v0 = A(N); x = A(N); x0 = A(N); nm = DCArrayKokkos<double>(N); }
  static DCArrayKokkos<double> A(size_t n) { return DCArrayKokkos<double>(n, 3); }
  size_t corner(size_t e, size_t l) { return mesh.corners_in_elem(e, l); } };
// one Runge-Kutta stage moves work between internal and kinetic energy without loss, whatever the forces are
FSX_ENTRY h_energy() { Two t; double dt = sd("dt", 0, 1), al = fsx_choose(2, "stage") ? 1.0 : 0.5; size_t k = fsx_choose(3, "which");
  for (size_t n = 0; n < t.mesh.num_nodes; n++) { t.nm(n) = n == k ? sd("m", 0.1, 10) : 1 + n * 0.25; for (int d = 0; d < 3; d++) { t.v0(n, d) = n % 3 == k ? sd("v0") : 1.5 * n - d; t.v(n, d) = 77; t.nf(n, d) = 0; } }
  for (int m = 0; m < 2; m++) for (size_t s = 0; s < t.n[m]; s++) { t.mass(m, s) = 1 + m + s; t.sie(m, s) = 55; t.sie0(m, s) = sd("e0", 0, 10); for (int l = 0; l < 8; l++) for (int d = 0; d < 3; d++) { double f = (l + d) % 2 ? sd("f") : l - d; t.force(m, s * 8 + l, d) = f; t.cf(t.corner(t.map(m, s), l), d) += f; } }
  CArrayKokkos<double> no(t.mesh.num_nodes, 3);
  t.solver.update_velocity(al, dt, t.mesh, t.v, t.v0, t.nm, t.nf, t.cf, no, false);
  double ke = 0, ie = 0; for (int m = 0; m < 2; m++) { t.solver.update_energy(al, dt, t.mesh, t.v, t.v0, t.sie, t.sie0, t.mass, t.force, t.cm, t.map, t.n[m], m); for (size_t s = 0; s < t.n[m]; s++) ie += t.mass(m, s) * (t.sie(m, s) - t.sie0(m, s)); }
  for (size_t n = 0; n < t.mesh.num_nodes; n++) for (int d = 0; d < 3; d++) ke += 0.5 * t.nm(n) * (t.v(n, d) * t.v(n, d) - t.v0(n, d) * t.v0(n, d));
  fsx_check_near(ke + ie, 0, TOL, "a stage conserves total energy"); fsx_cover("stage"); }
#include "no_dissipation.hpp"
static Material_t* materials(size_t n) { Material_t* M = new Material_t; M->num_mats = n; M->MaterialFunctions = DCArrayKokkos<MaterialFunctions_t>(n); M->MaterialEnums = DCArrayKokkos<MaterialEnums_t>(n); for (size_t i = 0; i < n; i++) { M->MaterialFunctions(i).calc_dissipation = NoDissipationModel::calc_dissipation; M->MaterialEnums(i).EOSType = model::decoupledEOSType; } return M; }
typedef double V3[3];
static double det3(const V3& a, const V3& b, const V3& c) { return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]); }
// forces of the material stresses on the nodes of an arbitrary (also twisted) hexahedron
struct Forces : Two { Material_t* M; DCArrayKokkos<double> vol, L; DRaggedRightArrayKokkos<bool> er; Ragged den, pr, st, ss, vf, gf; int erd;
  Forces() : M(materials(2)), vol(2), L(2, 3, 3) { er = DRaggedRightArrayKokkos<bool>(buf, "e"); den = Ragged(buf, "d"); pr = Ragged(buf, "d"); st = Ragged(buf, 3, 3, "d"); ss = Ragged(buf, "d"); vf = Ragged(buf, "d"); gf = Ragged(buf, "d"); 
    for (size_t n = 0; n < mesh.num_nodes; n++) for (int d = 0; d < 3; d++) { x(n, d) = sd("x"); v(n, d) = sd("u"); } vol(0) = vol(1) = 2; erd = fsx_choose(3, "eroded") - 1;
    for (int m = 0; m < 2; m++) { M->MaterialEnums(m).EOSType = m == 0 || fsx_choose(2, "eos") ? model::decoupledEOSType : model::coupledEOSType; for (size_t s = 0; s < n[m]; s++) { er(m, s) = m == erd; den(m, s) = 1; ss(m, s) = 1; pr(m, s) = sd("p"); for (int i = 0; i < 3; i++) for (int j = 0; j <= i; j++) st(m, s, i, j) = st(m, s, j, i) = sd("stress"); vf(m, s) = sd("volfrac", 0, 1); gf(m, s) = sd("geo", 0, 1); } } 
    for (int m = 0; m < 2; m++) for (size_t i = 0; i < 8 * buf(m); i++) for (int d = 0; d < 3; d++) force(m, i, d) = 31; for (int m = 0; m < 2; m++) solver.get_force(*M, mesh, vol, L, er, cf, x, v, den, sie, pr, st, ss, force, vf, gf, cm, map, n[m], m, 1e-16, 1e-8, 0.1, 0.5); }
  double tau(int m, size_t s, int i, int j) { return st(m, s, i, j) - (i == j && M->MaterialEnums(m).EOSType == model::decoupledEOSType ? pr(m, s) : 0.0); } };
FSX_ENTRY h_force() { Forces t; 
  for (int m = 0; m < 2; m++) for (size_t s = 0; s < t.n[m]; s++) { double f = m == t.erd ? 0 : t.vf(m, s) * t.gf(m, s); for (int d = 0; d < 3; d++) { double q = 0; for (int l = 0; l < 8; l++) q += t.force(m, s * 8 + l, d); fsx_check_near(q, 0, TOL, "the forces of an element on its nodes sum to zero"); }
    size_t e = t.map(m, s); for (int d = 0; d < 3; d++) { int a = (d + 1) % 3, b = (d + 2) % 3; double q = 0; for (int l = 0; l < 8; l++) { size_t g = t.mesh.nodes_in_elem(e, l); q += t.x(g, a) * t.force(m, s * 8 + l, b) - t.x(g, b) * t.force(m, s * 8 + l, a); } fsx_check_near(q, 0, TOL, "the forces of an element exert no torque"); }
    double b_[24]; ViewCArrayKokkos<double> B(b_, 8, 3); ViewCArrayKokkos<size_t> gid(&t.mesh.nodes_in_elem(e, 0), 8); geometry::get_bmatrix(B, e, t.x, gid); for (int l = 0; l < 8; l++) for (int d = 0; d < 3; d++) { double w = 0; for (int k = 0; k < 3; k++) w -= B(l, k) * t.tau(m, s, k, d); fsx_check_near(t.force(m, s * 8 + l, d), f * w, TOL, "corner force is minus stress times corner normal, by volume fraction, and none if eroded"); } fsx_cover(m == t.erd ? "eroded" : "sound"); }
  for (size_t e = 0; e < 2; e++) for (int l = 0; l < 8; l++) for (int d = 0; d < 3; d++) { double w = 0; for (int m = 0; m < 2; m++) for (size_t s = 0; s < t.n[m]; s++) if (t.map(m, s) == e) w += t.force(m, s * 8 + l, d); fsx_check_near(t.cf(t.corner(e, l), d), w, TOL, "the force on a corner is the sum over its materials, eroded ones adding none"); } }
// the work of the corner forces is stress power: what the energy update takes out is what the velocity gradient says
FSX_ENTRY h_power() { Forces t; DCArrayKokkos<double> g(2, 3, 3), V(2), dv(2); V(0) = sd("vol0", 0.1, 10); V(1) = sd("vol1", 0.1, 10); t.solver.get_velgrad(g, t.mesh, t.x, t.v, V); t.solver.get_divergence(dv, t.mesh, t.x, t.v, V);
  for (size_t e = 0; e < 2; e++) fsx_check_near(dv(e), g(e, 0, 0) + g(e, 1, 1) + g(e, 2, 2), TOL, "divergence is the trace of the velocity gradient");
  for (int m = 0; m < 2; m++) for (size_t s = 0; s < t.n[m]; s++) { size_t e = t.map(m, s); double p = 0, w = 0; for (int l = 0; l < 8; l++) for (int d = 0; d < 3; d++) p += t.force(m, s * 8 + l, d) * t.v(t.mesh.nodes_in_elem(e, l), d); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) w -= t.tau(m, s, i, j) * g(e, j, i) * V(e); fsx_check_near(p, m == t.erd ? 0 : w * t.vf(m, s) * t.gf(m, s), TOL, "the power of the corner forces is minus stress times velocity gradient times volume"); } fsx_cover("power"); }
// an affine velocity field is differentiated exactly, on any hexahedron
FSX_ENTRY h_velgrad() { Two t; double A[3][3], c[3]; for (int i = 0; i < 3; i++) { c[i] = sd("c"); for (int j = 0; j < 3; j++) A[i][j] = sd("A"); } for (size_t n = 0; n < t.mesh.num_nodes; n++) { for (int d = 0; d < 3; d++) t.x(n, d) = sd("x"); for (int d = 0; d < 3; d++) { t.v(n, d) = c[d]; for (int k = 0; k < 3; k++) t.v(n, d) += A[d][k] * t.x(n, k); } }
  DCArrayKokkos<double> g(2, 3, 3), V(2); for (size_t e = 0; e < 2; e++) V(e) = sd("V", 0.1, 10); t.solver.get_velgrad(g, t.mesh, t.x, t.v, V);
  for (size_t e = 0; e < 2; e++) { double b_[24]; ViewCArrayKokkos<double> B(b_, 8, 3); ViewCArrayKokkos<size_t> gid(&t.mesh.nodes_in_elem(e, 0), 8); geometry::get_bmatrix(B, e, t.x, gid); double vol = 0; for (int l = 0; l < 8; l++) for (int d = 0; d < 3; d++) vol += B(l, d) * t.x(t.mesh.nodes_in_elem(e, l), d) / 3;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) fsx_check_near(g(e, i, j) * V(e), A[i][j] * vol, TOL, "velocity gradient of an affine field"); } fsx_cover("affine"); }
FSX_ENTRY h_position() { Two t; double dt = sd("dt", 0, 1), al = sd("alpha", 0, 1); for (size_t n = 0; n < t.mesh.num_nodes; n++) for (int d = 0; d < 3; d++) { t.x(n, d) = 99; t.x0(n, d) = sd("x0"); t.v(n, d) = sd("v"); t.v0(n, d) = sd("v0"); }
  t.solver.update_position(al, dt, 3, t.mesh.num_nodes, t.x, t.x0, t.v, t.v0); for (size_t n = 0; n < t.mesh.num_nodes; n++) for (int d = 0; d < 3; d++) fsx_check_near(t.x(n, d), t.x0(n, d) + al * dt * (t.v(n, d) + t.v0(n, d)) / 2, TOL, "nodes move with the mean of the old and new velocity"); fsx_cover("moved"); }
FSX_ENTRY h_velocity() { Two t; double dt = sd("dt", 0, 1), al = sd("alpha", 0, 1); bool con = fsx_choose(2, "contact"); size_t N = t.mesh.num_nodes; CArrayKokkos<double> cfc(N, 3); for (size_t n = 0; n < N; n++) { t.nm(n) = sd("m", 0.1, 10); for (int d = 0; d < 3; d++) { t.v0(n, d) = sd("v0"); t.v(n, d) = 7; t.nf(n, d) = sd("body"); cfc(n, d) = sd("contact"); } } 
  double w[12][3]; for (size_t n = 0; n < N; n++) for (int d = 0; d < 3; d++) w[n][d] = t.nf(n, d) + (con ? cfc(n, d) : 0.0); for (size_t e = 0; e < 2; e++) for (int l = 0; l < 8; l++) for (int d = 0; d < 3; d++) w[t.mesh.nodes_in_elem(e, l)][d] += t.cf(t.corner(e, l), d) = sd("f");
  t.solver.update_velocity(al, dt, t.mesh, t.v, t.v0, t.nm, t.nf, t.cf, cfc, con); for (size_t n = 0; n < N; n++) for (int d = 0; d < 3; d++) { fsx_check_near(t.nf(n, d), w[n][d], TOL, "a node's force is its boundary force plus those of its corners (and contact)"); fsx_check_near(t.nm(n) * (t.v(n, d) - t.v0(n, d)), al * dt * w[n][d], TOL, "momentum change is force times time"); } fsx_cover(con ? "contact" : "no contact"); }
FSX_ENTRY h_rk() { Two t; Ragged st(t.buf, 3, 3, "s"), st0(t.buf, 3, 3, "s"); size_t m = fsx_choose(2, "mat"); for (int a = 0; a < 2; a++) for (size_t s = 0; s < t.buf(a); s++) { t.sie(a, s) = sd("e"); t.sie0(a, s) = 3; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { st(a, s, i, j) = sd("s"); st0(a, s, i, j) = 4; } } for (size_t n = 0; n < t.mesh.num_nodes; n++) for (int d = 0; d < 3; d++) { t.x(n, d) = sd("x"); t.v(n, d) = sd("v"); t.x0(n, d) = t.v0(n, d) = 5; }
  t.solver.rk_init(t.x, t.x0, t.v, t.v0, t.sie, t.sie0, st, st0, 3, 2, t.mesh.num_nodes, t.n[m], m); for (int a = 0; a < 2; a++) for (size_t s = 0; s < t.buf(a); s++) { bool in = a == (int)m && s < t.n[m]; fsx_check(t.sie0(a, s) == (in ? t.sie(a, s) : 3.0), "the step starts from the current energy"); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) fsx_check(st0(a, s, i, j) == (in ? st(a, s, i, j) : 4.0), "the step starts from the current stress"); }
  for (size_t n = 0; n < t.mesh.num_nodes; n++) for (int d = 0; d < 3; d++) { fsx_check(t.x0(n, d) == t.x(n, d), "the step starts from the current position"); fsx_check(t.v0(n, d) == t.v(n, d), "the step starts from the current velocity"); } fsx_cover("saved"); }
// ---- time step: the longest one within growth, CFL, bounds, output and end of run
static void timestep(bool limits) { Two t; int a = 1, b = 6, ax = 0; size_t e0 = 0; if (!limits) { a = fsx_choose(8, "a"); b = fsx_choose(8, "b"); fsx_assume(a < b); e0 = (a + b) % 2; ax = fsx_param("axes", 0) ? fsx_choose(3, "axis") : b % 3; } size_t m = fsx_choose(2, "mat"); double del = sd("gap", 0.02, 0.2);
  for (size_t n = 0; n < t.mesh.num_nodes; n++) { t.x(n, 0) = n % 3; t.x(n, 1) = (n / 3) % 2; t.x(n, 2) = n / 6; } size_t A = t.mesh.nodes_in_elem(e0, a), B = t.mesh.nodes_in_elem(e0, b); for (int d = 0; d < 3; d++) t.x(B, d) = t.x(A, d) + (d == ax ? del : 0.0);
  Ragged ss(t.buf, "c"); DRaggedRightArrayKokkos<bool> er(t.buf, "e"); for (int i = 0; i < 2; i++) for (size_t s = 0; s < t.buf(i); s++) { ss(i, s) = limits ? sd("c", 0, 100) : 5.0 - i - 2 * s; er(i, s) = limits && i == (int)m && fsx_choose(2, "eroded"); }
  DCArrayKokkos<double> vol(2); double time = 1, tg = 90, tf = 99, mx = 50, mn = 0, cfl = 0.5, dt0 = 60; if (limits) { time = sd("time", 0, 10); tg = sd("output time", 0, 10); tf = sd("final time", 0, 10); mx = sd("dt max", 0.01, 10); mn = sd("dt min", 0, 0.01); cfl = sd("cfl", 0.05, 1); dt0 = sd("dt", 0.001, 10); } double dt = dt0; const double fuzz = 1e-16, tiny = 1e-12;
  t.solver.get_timestep(t.mesh, t.x, t.v, vol, ss, er, t.map, t.n[m], time, tg, tf, mx, mn, cfl, dt, fuzz, tiny, m);
  double w = dt0 * 1.1; for (size_t s = 0; s < t.n[m]; s++) { size_t e = t.map(m, s); bool hA = false, hB = false; for (int l = 0; l < 8; l++) { if (t.mesh.nodes_in_elem(e, l) == A) hA = true; if (t.mesh.nodes_in_elem(e, l) == B) hB = true; } double d = 1e9;
    if (hA && hB) d = del; else for (int i = 0; i < 8; i++) for (int j = 0; j < i; j++) { double q = 0; for (int k = 0; k < 3; k++) { double y = t.x(t.mesh.nodes_in_elem(e, i), k) - t.x(t.mesh.nodes_in_elem(e, j), k); q += y * y; } d = fmin(d, sqrt(q)); }
    double l = er(m, s) ? mx : cfl * d / (ss(m, s) + fuzz); l = fmax(fmin(l, mx), mn); w = fmin(w, l); }
  w = fmin(w, fmax(tg - time, fuzz) + tiny); w = fmin(w, tf - time + tiny); fsx_check_near(dt, w, TOL, "the time step is the smallest of growth limit, CFL limit in bounds, time to output and time to the end"); fsx_cover(t.n[m] == 2 ? "two elements" : "one element"); }
FSX_ENTRY h_cfl() { timestep(false); }
FSX_ENTRY h_timestep() { timestep(true); }
// ---- state update: density from mass, volume and fractions; then pressure, sound speed, stress and erosion in this order, each from the new state
FSX_ENTRY h_state() { Two t; Material_t& M = *materials(2); bool dec = fsx_choose(2, "eos"), ero = fsx_choose(2, "erosion"); int str = fsx_choose(3, "strength"); size_t m = fsx_choose(2, "mat"); CArrayKokkos<size_t> one(2); one(0) = one(1) = 1; M.eos_global_vars = RaggedRightArrayKokkos<double>(one); M.strength_global_vars = RaggedRightArrayKokkos<double>(one); Ragged den(t.buf, "d"), pr(t.buf, "d"), st(t.buf, 3, 3, "s"), st0(t.buf, 3, 3, "s"), ss(t.buf, "c"), vf(t.buf, "v"), gf(t.buf, "g"), ev(t.buf, "e"), sv(t.buf, "e"), sh(t.buf, "h"); DRaggedRightArrayKokkos<bool> er(t.buf, "e"); DCArrayKokkos<double> vol(2), vg(2, 3, 3); 
  for (int i = 0; i < 2; i++) { M.eos_global_vars(i, 0) = sd("eos"); M.strength_global_vars(i, 0) = sd("strength"); vol(i) = sd("vol", 0.1, 10); for (int a = 0; a < 9; a++) vg(i, a / 3, a % 3) = sd("L"); M.MaterialEnums(i).EOSType = dec ? model::decoupledEOSType : model::coupledEOSType; M.MaterialEnums(i).StrengthType = str == 1 ? model::stateBased : str == 2 ? model::incrementBased : model::noStrengthType; M.MaterialEnums(i).ErosionModels = ero ? model::basicErosion : model::noErosion; M.MaterialEnums(i).StrengthRunLocation = fsx_choose(2, "run on host") ? model::host : model::device;
    auto& F = M.MaterialFunctions(i); F.calc_pressure = s_pres; F.calc_sound_speed = s_sspd; F.calc_stress = s_stress; F.erode = s_erode; F.erode_tension_val = sd("tension"); F.erode_density_val = sd("min den", 0, 5);
    for (size_t s = 0; s < t.buf(i); s++) { den(i, s) = 500; pr(i, s) = 600; ss(i, s) = 700; vf(i, s) = sd("vf", 0.1, 1); gf(i, s) = sd("gf", 0.1, 1); t.mass(i, s) = sd("mass", 0.1, 10); t.sie(i, s) = sd("e"); sh(i, s) = sd("G"); er(i, s) = false; for (int a = 0; a < 9; a++) { st(i, s, a / 3, a % 3) = 800 + a; st0(i, s, a / 3, a % 3) = sd("s0"); } } }
  double dt = sd("dt", 0, 1), al = sd("alpha", 0, 1), time = sd("time", 0, 9); t.solver.update_state(M, t.mesh, t.x, t.v, vg, den, pr, st, st0, ss, t.sie, vf, gf, vol, t.mass, ev, sv, er, sh, t.map, time, dt, al, 3, t.n[m], m);
  if (str == 2) t.solver.update_stress(M, t.mesh, vol, t.x, t.v, vg, den, t.sie, pr, st, st0, ss, ev, sv, sh, t.map, t.n[m], m, 1e-16, 1e-8, time, dt, al, 3);
  for (int i = 0; i < 2; i++) for (size_t s = 0; s < t.buf(i); s++) { bool on = i == (int)m && s < t.n[m]; if (!on) { bool same = den(i, s) == 500 && pr(i, s) == 600 && ss(i, s) == 700 && !er(i, s); for (int a = 0; a < 9; a++) same = same && st(i, s, a / 3, a % 3) == 800 + a; fsx_check(same, "other materials are left alone"); continue; }
    size_t e = t.map(i, s); double d = t.mass(i, s) / (vol(e) * vf(i, s) * gf(i, s) + 1e-20), p = dec ? f_p(d, t.sie(i, s), M.eos_global_vars(i, 0)) : 600.0, c = dec ? p + 7 * d + t.sie(i, s) + sh(i, s) : 700.0; bool gone = ero && (p <= M.MaterialFunctions(i).erode_tension_val || d <= M.MaterialFunctions(i).erode_density_val);
    fsx_check(er(i, s) == gone, "erosion is decided on the new state"); if (gone && str != 2) { fsx_check(pr(i, s) == 0, "an eroded material has no pressure"); for (int a = 0; a < 9; a++) fsx_check(st(i, s, a / 3, a % 3) == 0, "an eroded material has no stress"); fsx_check(den(i, s) < 1e-6 && ss(i, s) < 1e-6, "an eroded material has no density and sound speed"); fsx_cover("eroded"); continue; } if (gone) continue;
    fsx_check_near(den(i, s), d, TOL, "density is mass by the material's volume"); fsx_check_near(pr(i, s), p, TOL, "pressure is that of the equation of state at the new density"); fsx_check_near(ss(i, s), c, TOL, "sound speed is that of the equation of state at the new density and pressure");
    for (int a = 0; a < 9; a++) { double w = str ? st0(i, s, a / 3, a % 3) + al * dt * (vg(e, a / 3, a % 3) + M.strength_global_vars(i, 0)) + 0.5 * p + d - t.sie(i, s) + vol(e) + c + time + 3 : 800.0 + a; fsx_check_near(st(i, s, a / 3, a % 3), w, TOL, "stress is that of the strength model at the new state"); } fsx_cover(dec ? "decoupled" : "coupled"); } }
