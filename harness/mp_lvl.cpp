// Multiphysics level set solver (apps/multiphysics/src/Solvers/level_set_solver): gradient, evolution, boundary and time step.
#include "matar.h"
#include "ELEMENTS.h"
#include "Solvers/level_set_solver/src/level_set_boundary.cpp"
#include "Solvers/level_set_solver/src/level_set_execute.cpp"
#include "Solvers/level_set_solver/src/level_set_initialize.cpp"
#include "Solvers/level_set_solver/src/level_set_setup.cpp"
#include "Solvers/level_set_solver/src/solver_functions.cpp"
#include "Solvers/level_set_solver/src/time_integration.cpp"
#include "common/src/geometry_new.cpp"
#include "solver.cpp"
#include "zero_velocity_bc.hpp"
#include "constant_velocity_bc.hpp"
#include "reflected_velocity_bc.hpp"
static const double TOL = 1e-9, FUZZ = 1e-16;
static double sd(const char* n, double lo = -10, double hi = 10) { return fsx_double(n, lo, hi); }
typedef DCArrayKokkos<double> D;
// a block of two elements per direction: one interior node
struct Block { int dims; swage::Mesh mesh; D x, vel, grad, nrm, cvol, phi, phi0, vol; LevelSet solver; Material_t M; size_t mid, N, E, NN;
  Block(int d) : dims(d) { swage::fsx_block(mesh, d, 2, 2, 2); fsx_loop_order = fsx_choose(2, "order"); N = mesh.num_nodes; E = mesh.num_elems; NN = mesh.num_nodes_in_elem; mid = N / 2; x = D(N, d); vel = D(N, d); grad = D(N, d); nrm = D(mesh.num_corners, d); cvol = D(mesh.num_corners); phi = D(E); phi0 = D(E); vol = D(E); M.num_mats = 2; M.MaterialFunctions = DCArrayKokkos<MaterialFunctions_t>(2);
    for (size_t n = 0; n < N; n++) { x(n, 0) = n % 3; x(n, 1) = n / 3 % 3; if (d == 3) x(n, 2) = n / 9; for (int k = 0; k < d; k++) { vel(n, k) = 55; grad(n, k) = 66; } } for (size_t e = 0; e < E; e++) { vol(e) = 1; phi(e) = phi0(e) = 1.0 + e; } }
  void gradient() { solver.nodal_gradient(mesh, x, vel, grad, nrm, cvol, phi, vol, FUZZ); } };
// the gradient of a linear level set is exact at an interior node of any affine grid; a constant has none on any grid; the front moves along the gradient
static void gradient(int d) { Block t(d); int kind = fsx_choose(2, "field"), turn = fsx_choose(d, "turn"); double A[3][3] = {{0}}, g[3], c = sd("c"), det = 1; for (int i = 0; i < d; i++) { g[i] = sd("g"); for (int j = 0; j < i; j++) A[(i + turn) % d][j] = sd("A", -2, 2); det *= A[(i + turn) % d][i] = (d == 2 && turn && i == 1 ? -1 : 1) * sd("A", 0.5, 2); } if (d == 2 && turn) det = -det;
  for (size_t n = 0; n < t.N; n++) { double y[3] = {(double)(n % 3), (double)(n / 3 % 3), (double)(n / 9)}; if (kind) for (int i = 0; i < d; i++) { t.x(n, i) = 0; for (int j = 0; j < d; j++) t.x(n, i) += A[i][j] * y[j]; } }
  if (!kind) { size_t p[3] = {t.mid, t.mid - 1, t.mid + 2}; for (int k = 0; k < 3; k++) for (int i = 0; i < d; i++) t.x(p[k], i) += sd("dx", -0.3, 0.3); }
  for (size_t e = 0; e < t.E; e++) { t.vol(e) = kind ? det : 0.5 + 0.1 * e; t.phi(e) = c; if (kind) for (int i = 0; i < d; i++) for (size_t l = 0; l < t.NN; l++) t.phi(e) += g[i] * t.x(t.mesh.nodes_in_elem(e, l), i) / (double)t.NN; }
  t.gradient(); for (int i = 0; i < d; i++) fsx_check_near(t.grad(t.mid, i), kind ? g[i] : 0.0, TOL, kind ? "the gradient of a linear level set is exact" : "a constant level set has no gradient"); 
  if (kind) { double m = 0; for (int i = 0; i < d; i++) m += t.grad(t.mid, i) * t.grad(t.mid, i); m = sqrt(m); for (int i = 0; i < d; i++) fsx_check_near(t.vel(t.mid, i) * (m + FUZZ), t.grad(t.mid, i), TOL, "the front moves along the gradient at unit speed"); } fsx_cover(kind ? "linear" : "constant"); }
FSX_ENTRY h_grad3() { gradient(3); }
FSX_ENTRY h_grad2() { gradient(2); }
// evolution: the rate is a mean of the upwind nodes' gradient magnitudes, driven by the material's speed and the pull to a distance function; only the material's elements change
static void update(int d) { Block t(d); size_t m = fsx_choose(2, "mat"), pick = fsx_choose((unsigned)t.NN, "node"); DCArrayKokkos<size_t> buf(2); buf(0) = 2; buf(1) = 1; DRaggedRightArrayKokkos<size_t> map(buf, "m"); map(0, 0) = 3; map(0, 1) = 0; map(1, 0) = 2; double dt = sd("dt", 0, 1), al = fsx_choose(2, "stage") ? 1.0 : 0.5, F = 1.5; int what = fsx_choose(3, "symbolic"); if (what == 0) F = sd("speed", -3, 3); t.M.MaterialFunctions(m).normal_velocity = F; t.M.MaterialFunctions(1 - m).normal_velocity = 17;
  size_t e = map(m, 0); t.vol(e) = d == 3 ? 8 : 4; double phi = t.phi(e) = what == 0 ? sd("phi") : 2.0, phi0 = t.phi0(e) = sd("phi0"); std::vector<double> v0(t.E), w0(t.E); for (size_t i = 0; i < t.E; i++) { v0[i] = t.phi(i); w0[i] = t.phi0(i); } bool dist = fsx_choose(2, "distance");
  for (size_t n = 0; n < t.N; n++) for (int k = 0; k < d; k++) { t.vel(n, k) = k == 0; t.grad(n, k) = 1.0 + 0.25 * (n % 5) * (k == 0); } for (size_t c = 0; c < t.mesh.num_corners; c++) for (int k = 0; k < d; k++) t.nrm(c, k) = (c >> k & 1) ? 0.5 : -0.5;
  size_t pn = t.mesh.nodes_in_elem(e, pick); for (int k = 0; k < d; k++) { if (what == 1) { t.vel(pn, k) = sd("vel", -1, 1); t.grad(pn, k) = sd("grad"); } if (what == 2) t.nrm(t.mesh.corners_in_elem(e, pick), k) = sd("normal", -1, 1); } if (dist) for (size_t n = 0; n < t.N; n++) { if (n == pn) { double q = 0; for (int k = 0; k < d; k++) q += t.vel(n, k) * t.vel(n, k); fsx_assume(q == 1); } for (int k = 0; k < d; k++) t.grad(n, k) = t.vel(n, k); }
  t.solver.update_level_set(t.mesh, t.M, t.vel, t.grad, t.phi, t.phi0, t.vol, t.nrm, map, buf(m), m, FUZZ, 1e-8, dt, al);
  double L = 4, s = phi / sqrt(phi * phi + L * L), W = 0, H = 0; for (size_t l = 0; l < t.NN; l++) { size_t n = t.mesh.nodes_in_elem(e, l), c = t.mesh.corners_in_elem(e, l); double w = 0, h = 0; for (int k = 0; k < d; k++) { w += (F + s) * t.vel(n, k) * t.nrm(c, k); h += t.vel(n, k) * t.grad(n, k); } if (w > 0) { W += w; H += w * h; } }
  fsx_assume(W == 0 || W >= 0.001); double rate = t.phi(e) - phi0; if (W == 0) { fsx_check_near(rate, al * dt * s, TOL, "without upwind nodes only the distance pull acts"); fsx_cover("no upwind"); } else { H /= W; if (dist) { fsx_check_near(rate, -al * dt * F, 1e-7, "a distance function's front moves at the material's speed"); fsx_cover("distance"); } else { fsx_check_near(rate, -al * dt * (F * H + s * (H - 1)), 1e-7, "level set rate is the upwind mean"); fsx_cover("upwind"); } }
  for (size_t i = 0; i < t.E; i++) { bool in = false; for (size_t q = 0; q < buf(m); q++) in |= map(m, q) == i; if (!in) fsx_check(t.phi(i) == v0[i], "other elements keep their level set"); fsx_check(t.phi0(i) == w0[i], "the old level set is kept"); } }
FSX_ENTRY h_update3() { update(3); }
FSX_ENTRY h_update2() { update(2); }
FSX_ENTRY h_rk() { Block t(3); size_t m = fsx_choose(2, "mat"); DCArrayKokkos<size_t> buf(2); buf(0) = 2; buf(1) = 1; DRaggedRightArrayKokkos<size_t> map(buf, "m"); map(0, 0) = 3; map(0, 1) = 0; map(1, 0) = 2; for (size_t e = 0; e < t.E; e++) { t.phi(e) = sd("phi"); t.phi0(e) = 99; } t.solver.rk_init(t.phi, t.phi0, map, 3, buf(m), m);
  for (size_t e = 0; e < t.E; e++) { bool in = false; for (size_t q = 0; q < buf(m); q++) in |= map(m, q) == e; fsx_check(t.phi0(e) == (in ? t.phi(e) : 99.0), "the step starts from the material's current level set"); } fsx_cover("saved"); }
// boundary nodes keep the direction their condition leaves, at unit length
FSX_ENTRY h_bdy() { Block t(3); t.solver.solver_id = 1; BoundaryCondition_t bc; t.mesh.init_bdy_sets(3); t.mesh.num_bdy_nodes_in_set = DCArrayKokkos<size_t>(3); bc.BoundaryConditionFunctions = CArrayKokkos<BoundaryConditionFunctions_t>(3); CArrayKokkos<size_t> st(3); for (int i = 0; i < 3; i++) { st(i) = 4; t.mesh.num_bdy_nodes_in_set(i) = 3; } bc.velocity_bc_global_vars = RaggedRightArrayKokkos<double>(st); t.mesh.bdy_nodes_in_set = RaggedRightArrayKokkos<size_t>(t.mesh.num_bdy_nodes_in_set); static const size_t L[3][3] = {{0, 9, 20}, {9, 4, 7}, {8, 2, 26}}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) t.mesh.bdy_nodes_in_set(i, j) = L[i][j];
  bc.num_vel_bdy_sets_in_solver = DCArrayKokkos<size_t>(2); bc.vel_bdy_sets_in_solver = DCArrayKokkos<size_t>(2, 3); bc.num_vel_bdy_sets_in_solver(0) = 3; bc.num_vel_bdy_sets_in_solver(1) = 1; size_t set = fsx_choose(3, "set"); int kind = fsx_choose(3, "model"); for (size_t i = 0; i < 3; i++) { bc.vel_bdy_sets_in_solver(0, i) = i; bc.vel_bdy_sets_in_solver(1, i) = i == 0 ? set : (set + i) % 3; bc.BoundaryConditionFunctions(i).velocity = kind == 0 ? ZeroVelocityBC::velocity : kind == 1 ? ConstantVelocityBC::velocity : ReflectedVelocityBC::velocity; for (int k = 0; k < 4; k++) bc.velocity_bc_global_vars(i, k) = kind == 2 ? (k == 1) * 2.0 : k < 3 ? sd("bc") : 0; }
  size_t pn = L[set][fsx_choose(3, "node")]; double v[3]; for (size_t n = 0; n < t.N; n++) for (int k = 0; k < 3; k++) t.vel(n, k) = n == pn ? v[k] = sd("v", -1, 1) : n + k * 0.5; t.solver.boundary_velocity(t.mesh, bc, t.vel, 0.5, 1e-8);
  for (size_t n = 0; n < t.N; n++) { bool in = false; for (size_t j : L[set]) in |= j == n; if (!in) { for (int k = 0; k < 3; k++) fsx_check(t.vel(n, k) == n + k * 0.5, "other nodes keep their direction"); continue; } if (n != pn) continue; double w[3], q = 0; for (int k = 0; k < 3; k++) { w[k] = kind == 0 ? 0 : kind == 1 ? bc.velocity_bc_global_vars(set, k) : k == 1 ? 0 : v[k]; q += w[k] * w[k]; } double len = sqrt(q); for (int k = 0; k < 3; k++) fsx_check_near(t.vel(n, k) * (len + 1e-8), w[k], TOL, "a boundary node moves in the direction its condition gives, at unit speed"); } fsx_cover("boundary"); }
// the time step: the longest one within growth, front speed, bounds, output and end of run
static void timestep(int d, bool limits) { Block t(d); int n = (int)t.NN, a = 0, b = 1, ax = 0; size_t e0 = 0; if (!limits) { a = fsx_choose(n, "a"); b = fsx_choose(n, "b"); fsx_assume(a < b); e0 = (a + b) % 4; ax = b % d; } size_t m = fsx_choose(2, "mat"); DCArrayKokkos<size_t> buf(2); buf(0) = 2; buf(1) = 1; DRaggedRightArrayKokkos<size_t> map(buf, "m"); map(0, 0) = 3; map(0, 1) = 0; map(1, 0) = 2;
  double del = sd("gap", 0.02, 0.2); size_t A = t.mesh.nodes_in_elem(e0, a), B = t.mesh.nodes_in_elem(e0, b); for (int k = 0; k < d; k++) t.x(B, k) = t.x(A, k) + (k == ax ? del : 0.0); double F = limits ? sd("speed", 0, 5) : 1, C = limits ? sd("curvature speed", 0, 5) : 0.5; t.M.MaterialFunctions(m).normal_velocity = F; t.M.MaterialFunctions(m).curvature_velocity = C; t.M.MaterialFunctions(1 - m).normal_velocity = 100;
  double time = 1, tg = 90, tf = 99, mx = 50, mn = 0, cfl = 0.5, dt0 = 60; if (limits) { time = sd("time", 0, 10); tg = sd("output time", 0, 10); tf = sd("final time", 0, 10); mx = sd("dt max", 0.01, 10); mn = sd("dt min", 0, 0.01); cfl = sd("cfl", 0.05, 1); dt0 = sd("dt", 0.001, 10); } double dt = dt0; const double fuzz = 1e-16, tiny = 1e-12;
  if (d == 3) t.solver.get_timestep(t.mesh, t.M, t.x, t.vol, map, buf(m), m, time, tg, tf, mx, mn, cfl, dt, fuzz, tiny); else t.solver.get_timestep_2D(t.mesh, t.M, t.x, t.vol, map, buf(m), m, time, tg, tf, mx, mn, cfl, dt, fuzz, tiny);
  double w = dt0 * 1.1; for (size_t s = 0; s < buf(m); s++) { size_t e = map(m, s); bool hA = false, hB = false; for (int l = 0; l < n; l++) { if (t.mesh.nodes_in_elem(e, l) == A) hA = true; if (t.mesh.nodes_in_elem(e, l) == B) hB = true; } double q = 1e9; if (hA && hB) q = del; else for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { double r = 0; for (int k = 0; k < d; k++) { double y = t.x(t.mesh.nodes_in_elem(e, i), k) - t.x(t.mesh.nodes_in_elem(e, j), k); r += y * y; } q = fmin(q, sqrt(r)); }
    double l = cfl * q / (1.5 + F + C / (3 * q) + fuzz); w = fmin(w, fmax(fmin(l, mx), mn)); }
  w = fmin(w, fmax(fuzz, tg - time) + tiny); w = fmin(w, tf - time + tiny); fsx_check_near(dt, w, 1e-9, "the time step is the smallest of its limits"); fsx_cover(m ? "one element" : "two elements"); }
FSX_ENTRY h_time3() { timestep(3, true); }
FSX_ENTRY h_time2() { timestep(2, true); }
FSX_ENTRY h_pairs3() { timestep(3, false); }
FSX_ENTRY h_pairs2() { timestep(2, false); }
