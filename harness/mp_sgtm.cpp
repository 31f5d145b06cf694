// Multiphysics thermal solver (apps/multiphysics/src/Solvers/SGTM_solver_3D): conduction, heat sources, boundary heat, temperature and time step.
#include "matar.h"
#include "ELEMENTS.h"
#include "Solvers/SGTM_solver_3D/src/boundary.cpp"
#include "Solvers/SGTM_solver_3D/src/heat_flux.cpp"
#include "Solvers/SGTM_solver_3D/src/momentum.cpp"
#include "Solvers/SGTM_solver_3D/src/position.cpp"
#include "Solvers/SGTM_solver_3D/src/properties.cpp"
#include "Solvers/SGTM_solver_3D/src/sgtm_execute.cpp"
#include "Solvers/SGTM_solver_3D/src/sgtm_initialize.cpp"
#include "Solvers/SGTM_solver_3D/src/sgtm_setup.cpp"
#include "Solvers/SGTM_solver_3D/src/temperature_sgtm.cpp"
#include "Solvers/SGTM_solver_3D/src/time_integration.cpp"
#include "common/src/geometry_new.cpp"
#include "solver.cpp"
#include "constant_temp_bc.hpp"
static const double TOL = 1e-9;
static double sd(const char* n, double lo = -10, double hi = 10) { return fsx_double(n, lo, hi); }
typedef DRaggedRightArrayKokkos<double> Ragged; typedef DCArrayKokkos<double> D;
// a row of three elements: material 0 in the two outer ones (listed in either order), material 1 in the middle one
struct Rod { swage::Mesh mesh; DCArrayKokkos<size_t> buf, nm, mi, me; DRaggedRightArrayKokkos<size_t> map; size_t n[2]; corners_in_mat_t cm; Ragged k, cp, den, q, grad; DRaggedRightArrayKokkos<bool> er; D cq, nq, T, T0, mass, x, vol; SGTM3D solver; Material_t M;
  Rod() : buf(2), nm(3), mi(3, 1), me(3, 1), cm(8) { swage::fsx_block(mesh, 3, 3, 1, 1); fsx_loop_order = fsx_choose(2, "order"); int sw = fsx_choose(2, "map"); n[0] = 2; n[1] = 1; buf(0) = 2; buf(1) = 1; map = DRaggedRightArrayKokkos<size_t>(buf, "m"); map(0, 0) = sw ? 2 : 0; map(0, 1) = sw ? 0 : 2; map(1, 0) = 1;
    for (int m = 0; m < 2; m++) for (size_t s = 0; s < n[m]; s++) { size_t e = map(m, s); nm(e) = 1; mi(e, 0) = m; me(e, 0) = s; } k = cp = den = q = grad = Ragged(); k = Ragged(buf, "k"); cp = Ragged(buf, "c"); den = Ragged(buf, "d"); q = Ragged(buf, 3, "q"); grad = Ragged(buf, 3, "g"); er = DRaggedRightArrayKokkos<bool>(buf, "e"); size_t N = mesh.num_nodes; cq = D(mesh.num_corners); nq = D(N); T = D(N); T0 = D(N); mass = D(N); x = D(N, 3); vol = D(3); for (int e = 0; e < 3; e++) vol(e) = 2 + e;
    for (size_t i = 0; i < N; i++) { x(i, 0) = i % 4; x(i, 1) = i / 4 % 2; x(i, 2) = i / 8; mass(i) = 1 + 0.25 * i; T(i) = T0(i) = 300 + i; } for (int m = 0; m < 2; m++) for (size_t s = 0; s < n[m]; s++) { k(m, s) = 1 + m + s; cp(m, s) = 2 + m + s; den(m, s) = 3 + m; er(m, s) = false; } for (size_t c = 0; c < mesh.num_corners; c++) cq(c) = 777; }
  size_t corner(size_t e, size_t l) { return mesh.corners_in_elem(e, l); } size_t node(size_t e, size_t l) { return mesh.nodes_in_elem(e, l); }
  void heat() { for (int m = 0; m < 2; m++) solver.get_heat_flux(M, mesh, vol, x, T, q, k, grad, cq, cm, er, map, n[m], m, 1e-16, 1e-8, 0.1, 0.5); }
  void bmat(size_t e, double* b) { ViewCArrayKokkos<double> B(b, 8, 3); ViewCArrayKokkos<size_t> gid(&mesh.nodes_in_elem(e, 0), 8); geometry::get_bmatrix(B, e, x, gid); } };
// conduction in any hexahedron: the gradient of a linear temperature is exact, the heat leaving a corner is the flux through its area, and an element creates none
FSX_ENTRY h_flux() { Rod t; int kind = fsx_choose(2, "field"); double g[3], c = sd("T0", -100, 100); for (int d = 0; d < 3; d++) g[d] = sd("g"); for (size_t i = 0; i < t.mesh.num_nodes; i++) { for (int d = 0; d < 3; d++) t.x(i, d) = sd("x"); t.T(i) = c; if (kind) for (int d = 0; d < 3; d++) t.T(i) += g[d] * t.x(i, d); else t.T(i) = sd("T", -100, 100); }
  for (int e = 0; e < 3; e++) t.vol(e) = sd("vol", 0.1, 10); for (int m = 0; m < 2; m++) for (size_t s = 0; s < t.n[m]; s++) t.k(m, s) = sd("k", 0, 10); t.heat();
  for (int m = 0; m < 2; m++) for (size_t s = 0; s < t.n[m]; s++) { size_t e = t.map(m, s); double b[24], V = 0, sum = 0, diss = 0; t.bmat(e, b); for (int l = 0; l < 8; l++) { for (int d = 0; d < 3; d++) V += b[3 * l + d] * t.x(t.node(e, l), d) / 3; sum += t.cq(t.corner(e, l)); diss += t.T(t.node(e, l)) * t.cq(t.corner(e, l)); }
    fsx_check_near(sum, 0, TOL, "an element passes on all heat"); double qg = 0; for (int d = 0; d < 3; d++) { qg += t.grad(m, s, d) * t.grad(m, s, d); fsx_check_near(t.q(m, s, d), -t.k(m, s) * t.grad(m, s, d), TOL, "heat flux is minus conductivity times temperature gradient"); if (kind) fsx_check_near(t.grad(m, s, d) * t.vol(e), g[d] * V, TOL, "the gradient of a linear temperature is exact"); }
    if (!kind) fsx_check_near(diss, -t.k(m, s) * qg * t.vol(e), TOL, "heat flows from hot to cold");
    for (int l = 0; l < 8; l++) { double w = 0; for (int d = 0; d < 3; d++) w += t.q(m, s, d) * b[3 * l + d]; fsx_check_near(t.cq(t.corner(e, l)), w, TOL, "corner heat is the flux through the corner's area"); } } fsx_cover(kind ? "linear" : "any"); }
// a material point melts exactly when its element's mean temperature reaches the limit, and stays melted
FSX_ENTRY h_melt() { Rod t; size_t e = fsx_choose(3, "elem"); for (size_t i = 0; i < t.mesh.num_nodes; i++) t.T(i) = 500; double avg = 0; for (int l = 0; l < 8; l++) { t.T(t.node(e, l)) = sd("T", 800, 1000); } bool was[2][2]; for (int m = 0; m < 2; m++) for (size_t s = 0; s < t.n[m]; s++) t.er(m, s) = was[m][s] = fsx_choose(2, "was"); t.heat();
  for (int m = 0; m < 2; m++) for (size_t s = 0; s < t.n[m]; s++) { double sum = 0; for (int l = 0; l < 8; l++) sum += t.T(t.node(t.map(m, s), l)); bool hot = sum >= 7200; fsx_check(t.er(m, s) == (hot || was[m][s]), "melted exactly from 900 on, for good"); fsx_cover(hot ? "melted" : "solid"); } }
// nodal temperatures: heat in equals heat capacity times temperature rise; conduction moves heat around without loss
FSX_ENTRY h_temp() { Rod t; bool same = fsx_choose(2, "material"); double c = sd("Cp", 0.1, 10), dt = sd("dt", 0, 1), al = fsx_choose(2, "stage") ? 1.0 : 0.5; size_t N = t.mesh.num_nodes; for (int m = 0; m < 2; m++) for (size_t s = 0; s < t.n[m]; s++) t.cp(m, s) = same ? c : sd("c", 0.1, 10); 
  double w[16], W = 0, H = 0; for (size_t i = 0; i < N; i++) { t.mass(i) = sd("m", 0.1, 10); t.T0(i) = sd("T0", 0, 1000); t.T(i) = 5; t.nq(i) = w[i] = sd("bdy"); W += w[i]; } for (size_t e = 0; e < 3; e++) { double s = 0; for (int l = 0; l < 8; l++) { double& q = t.cq(t.corner(e, l)); q = l < 7 ? sd("q") : -s; s += q; w[t.node(e, l)] += q; } }
  t.solver.update_temperature(t.mesh, t.cq, t.T, t.T0, t.mass, t.nq, t.cp, t.nm, t.mi, t.me, al, dt);
  for (size_t i = 0; i < N; i++) { double C = 0; int k = 0; for (int m = 0; m < 2; m++) for (size_t s = 0; s < t.n[m]; s++) for (int l = 0; l < 8; l++) if (t.node(t.map(m, s), l) == i) { C += t.cp(m, s); k++; } C /= k; fsx_check_near(t.nq(i), w[i], TOL, "a node's heat is that of its boundary and its corners"); fsx_check_near((t.T(i) - t.T0(i)) * t.mass(i) * C, al * dt * w[i], TOL, "temperature rise times heat capacity is heat times time"); if (same) H += (t.T(i) - t.T0(i)) * t.mass(i) * c; }
  if (same) fsx_check_near(H, al * dt * W, TOL, "the total heat changes by what enters through the boundary"); fsx_cover(same ? "one" : "two"); }
// the moving source heats the elements whose centre is in its sphere, by their share of its volume, and no others
FSX_ENTRY h_source() { Rod t; D p(3); size_t one = fsx_choose(3, "node"); double power = sd("power", 0, 1000); for (int d = 0; d < 3; d++) p(d) = sd("source", -20, 20); for (size_t i = 0; i < t.mesh.num_nodes; i++) for (int d = 0; d < 3; d++) t.x(i, d) *= 6; for (int d = 0; d < 3; d++) t.x(one * 5, d) = sd("x", -20, 20); for (int e = 0; e < 3; e++) t.vol(e) = sd("vol", 0.1, 10);
  std::vector<double> q0(24); for (size_t c = 0; c < 24; c++) t.cq(c) = q0[c] = 1.0 + c; for (int m = 0; m < 2; m++) t.solver.moving_flux(t.M, t.mesh, t.vol, t.x, t.cq, p, t.cm, t.map, t.n[m], power, m, 1e-16, 1e-8, 0.1, 0.5);
  for (size_t e = 0; e < 3; e++) { double r = 0, sum = 0; for (int d = 0; d < 3; d++) { double y = 0; for (int l = 0; l < 8; l++) y += t.x(t.node(e, l), d); r += (p(d) - y / 8) * (p(d) - y / 8); } bool in = r <= 64; for (int l = 0; l < 8; l++) { double a = t.cq(t.corner(e, l)) - q0[t.corner(e, l)]; sum += a; fsx_check_near(8 * a, in ? power * t.vol(e) / (4.0 / 3 * 3.14159 * 512) : 0.0, 1e-7, "a heated element takes the source's power density times its volume, split evenly over its corners"); } fsx_cover(in ? "heated" : "not heated"); } }
// convection and radiation: every node of a patch gets a quarter of the patch's heat, and only patches of such sets
static void film(bool rad) { Rod t; size_t N = t.mesh.num_nodes, P = t.mesh.num_bdy_patches; t.mesh.init_bdy_sets(3); size_t own = fsx_choose(3, "set"), p1 = fsx_choose((unsigned)P, "patch"), p2 = (p1 + 3) % P; int plane = fsx_choose(4, "plane"); static const int U[4][2][3] = {{{1, 0, 0}, {0, 1, 0}}, {{0, 1, 0}, {0, 0, 1}}, {{0, 0, 1}, {1, 0, 0}}, {{2, 1, -2}, {2, -2, 1}}}; double sc = plane == 3 ? 9 : 1;
  BoundaryCondition_t bc; bc.BoundaryConditionEnums = DCArrayKokkos<BoundaryConditionEnums_t>(3); bc.BoundaryConditionFunctions = CArrayKokkos<BoundaryConditionFunctions_t>(3); auto kind = rad ? boundary_conditions::BCTemperatureModels::radiationTemperatureBC : boundary_conditions::BCTemperatureModels::convectionTemperatureBC, other = rad ? boundary_conditions::BCTemperatureModels::convectionTemperatureBC : boundary_conditions::BCTemperatureModels::radiationTemperatureBC;
  for (size_t s = 0; s < 3; s++) { bc.BoundaryConditionEnums(s).BCTemperatureModel = s == own ? kind : s == (own + 1) % 3 ? other : boundary_conditions::BCTemperatureModels::constantTemperatureBC; t.mesh.num_bdy_patches_in_set(s) = 2; } t.mesh.bdy_patches_in_set = RaggedRightArrayKokkos<size_t>(t.mesh.num_bdy_patches_in_set); for (size_t s = 0; s < 3; s++) { t.mesh.bdy_patches_in_set(s, 0) = t.mesh.bdy_patches(s == own ? p1 : p2); t.mesh.bdy_patches_in_set(s, 1) = t.mesh.bdy_patches(s == own ? p2 : p1); }
  // every patch lies in one plane: the first one any trapezoid, the other nodes on a grid
  size_t g1 = t.mesh.bdy_patches(p1); double uv[16][2]; for (size_t i = 0; i < N; i++) { uv[i][0] = (double)(i % 4) + 3.0 * (i / 8); uv[i][1] = (double)(i / 4 % 2) + 2.0 * (i / 8); } { double a = sd("a", 0.1, 10), b = sd("b", 0.1, 10), s = sd("s", 0, 5), r = sd("r", 0, 5); size_t* n = &t.mesh.nodes_in_patch(g1, 0); uv[n[1]][0] = uv[n[0]][0] + a; uv[n[1]][1] = uv[n[0]][1]; uv[n[3]][0] = uv[n[0]][0] - r; uv[n[2]][0] = uv[n[0]][0] + a + s; uv[n[3]][1] = uv[n[2]][1] = uv[n[0]][1] + b; } for (size_t i = 0; i < N; i++) { for (int d = 0; d < 3; d++) t.x(i, d) = uv[i][0] * U[plane][0][d] + uv[i][1] * U[plane][1][d] + d; t.T(i) = 300.0 + 10 * i; } t.T(t.mesh.nodes_in_patch(g1, fsx_param("nodes", 0) ? fsx_choose(4, "node") : (int)(p1 + plane) % 4)) = sd("T", 1, 2000);
  std::vector<double> w(N, 0.0); for (size_t i = 0; i < N; i++) t.nq(i) = w[i] = 10.0 + i; if (rad) t.solver.boundary_radiation(t.mesh, bc, t.T, t.nq, t.x, 0.5); else t.solver.boundary_convection(t.mesh, bc, t.T, t.nq, t.x, 0.5);
  for (size_t g : {g1, t.mesh.bdy_patches(p2)}) { double A = 0; size_t n[4]; for (int l = 0; l < 4; l++) n[l] = t.mesh.nodes_in_patch(g, l); for (int k = 0; k < 2; k++) { size_t a = n[2 * k], b = n[2 * k + 1], c = n[2 - 2 * k]; A += sc * 0.5 * fabs((uv[b][0] - uv[a][0]) * (uv[c][1] - uv[a][1]) - (uv[b][1] - uv[a][1]) * (uv[c][0] - uv[a][0])); }
    for (int l = 0; l < 4; l++) { double T = t.T(n[l]); w[n[l]] -= A / 4 * (rad ? 0.2 * 5.67037442e-8 * T * T * T * T : 100 * (T - 293.15)); } }
  for (size_t i = 0; i < N; i++) fsx_check_near(t.nq(i), w[i], 1e-6, rad ? "radiated heat" : "convected heat"); fsx_cover("patches"); }
FSX_ENTRY h_convection() { film(false); }
FSX_ENTRY h_radiation() { film(true); }
FSX_ENTRY h_bdy_temp() { Rod t; size_t N = t.mesh.num_nodes; t.mesh.init_bdy_sets(3); t.mesh.num_bdy_nodes_in_set = DCArrayKokkos<size_t>(3); BoundaryCondition_t bc; bc.BoundaryConditionEnums = DCArrayKokkos<BoundaryConditionEnums_t>(3); bc.BoundaryConditionFunctions = CArrayKokkos<BoundaryConditionFunctions_t>(3); CArrayKokkos<size_t> one(3); for (int i = 0; i < 3; i++) one(i) = 2; bc.temperature_bc_global_vars = RaggedRightArrayKokkos<double>(one); static const size_t L[3][4] = {{0, 2, 3, 5}, {5, 6, 11, 0}, {1, 4, 7, 9}}; bool on[3];
  for (int i = 0; i < 3; i++) { on[i] = fsx_choose(2, "on"); bc.BoundaryConditionEnums(i).BCTemperatureModel = on[i] ? boundary_conditions::BCTemperatureModels::constantTemperatureBC : boundary_conditions::BCTemperatureModels::convectionTemperatureBC; bc.BoundaryConditionFunctions(i).temperature = ConstantTemperatureBC::temperature; t.mesh.num_bdy_nodes_in_set(i) = 4 - fsx_choose(2, "short"); bc.temperature_bc_global_vars(i, 0) = sd("bc", 0, 1000); }
  t.mesh.bdy_nodes_in_set = RaggedRightArrayKokkos<size_t>(t.mesh.num_bdy_nodes_in_set); for (int i = 0; i < 3; i++) for (size_t j = 0; j < t.mesh.num_bdy_nodes_in_set(i); j++) t.mesh.bdy_nodes_in_set(i, j) = L[i][j]; t.solver.boundary_temperature(t.mesh, bc, t.T, 0.5);
  for (size_t i = 0; i < N; i++) { double w = 300.0 + i; for (int s = 0; s < 3; s++) if (on[s]) for (size_t j = 0; j < t.mesh.num_bdy_nodes_in_set(s); j++) if (L[s][j] == i) w = bc.temperature_bc_global_vars(s, 0); fsx_check(t.T(i) == w, "each set's nodes, and no others, get its temperature; a later set prevails"); } fsx_cover("sets"); }
static double f_tab(const Table_t& d, const double T) { return d.num_columns * 1000.0 + T * (2.0 + d.num_rows); }
static double f_tab2(const Table_t& d, const double T) { return d.num_columns * 3000.0 - T * (5.0 + d.num_rows); }
FSX_ENTRY h_props() { Rod t; t.M.num_mats = 2; t.M.MaterialFunctions = DCArrayKokkos<MaterialFunctions_t>(2); for (int m = 0; m < 2; m++) { auto& f = t.M.MaterialFunctions(m); f.get_density_from_temperature = f.get_thermal_conductivity_from_temperature = m ? f_tab : f_tab2; f.get_specific_heat_from_temperature = m ? f_tab2 : f_tab; } t.M.density_table = Table_t(2, 2, "a"); t.M.thermal_conductivity_table = Table_t(3, 3, "b"); t.M.specific_heat_table = Table_t(4, 4, "c"); for (size_t i = 0; i < t.mesh.num_nodes; i++) t.T(i) = sd("T", 0, 2000); size_t m = fsx_choose(2, "mat");
  t.solver.update_properties(t.M, t.mesh, t.T, t.den, t.k, t.cp, t.map, t.n[m], m);
  for (size_t a = 0; a < 2; a++) for (size_t s = 0; s < t.n[a]; s++) { double T = 0; for (int l = 0; l < 8; l++) T += t.T(t.node(t.map(a, s), l)) / 8; if (a == m) { fsx_check_near(t.den(a, s), (m ? f_tab : f_tab2)(t.M.density_table, T), TOL, "density from its table"); fsx_check_near(t.k(a, s), (m ? f_tab : f_tab2)(t.M.thermal_conductivity_table, T), TOL, "conductivity from its table"); fsx_check_near(t.cp(a, s), (m ? f_tab2 : f_tab)(t.M.specific_heat_table, T), TOL, "specific heat from its table"); } else fsx_check(t.den(a, s) == 3.0 + a && t.k(a, s) == 1.0 + a + s && t.cp(a, s) == 2.0 + a + s, "other materials keep their properties"); } fsx_cover("tables"); }
FSX_ENTRY h_move() { Rod t; size_t N = t.mesh.num_nodes; D x0(N, 3), v(N, 3), v0(N, 3); Ragged st(t.buf, 3, 3, "s"); double dt = sd("dt", 0, 1), al = sd("alpha", 0, 1); for (size_t i = 0; i < N; i++) { t.T(i) = sd("T"); for (int d = 0; d < 3; d++) { t.x(i, d) = sd("x"); v(i, d) = sd("v"); v0(i, d) = sd("v0"); } } t.solver.rk_init(t.x, x0, v, v0, t.T, t.T0, t.nq, st, 3, 3, N, 2);
  for (size_t i = 0; i < N; i++) { fsx_check(t.T0(i) == t.T(i), "the step starts from the current temperature"); for (int d = 0; d < 3; d++) fsx_check(x0(i, d) == t.x(i, d), "the step starts from the current position"); } t.solver.update_position(al, dt, 3, N, t.x, x0, v, v0); for (size_t i = 0; i < N; i++) for (int d = 0; d < 3; d++) fsx_check_near(t.x(i, d), x0(i, d) + al * dt * (v(i, d) + v0(i, d)) / 2, TOL, "nodes move with the mean of the old and new velocity"); fsx_cover("moved"); }
// the time step: the longest one within growth, one, conduction stability, bounds, output and end of run
static void timestep(bool limits) { Rod t; int a = 1, b = 6, ax = 0; size_t e0 = 0; if (!limits) { a = fsx_choose(8, "a"); b = fsx_choose(8, "b"); fsx_assume(a < b); e0 = (a + b) % 3; ax = b % 3; } size_t m = fsx_choose(2, "mat"); double del = sd("gap", 0.02, 0.2); size_t A = t.node(e0, a), B = t.node(e0, b); for (int d = 0; d < 3; d++) t.x(B, d) = t.x(A, d) + (d == ax ? del : 0.0);
  Ragged ss(t.buf, "c"); D v(t.mesh.num_nodes, 3); if (limits) for (int i = 0; i < 2; i++) for (size_t s = 0; s < t.n[i]; s++) { t.k(i, s) = sd("k", 0.01, 10); t.cp(i, s) = sd("c", 0.1, 10); t.den(i, s) = sd("den", 0.1, 10); }
  double time = 1, tg = 90, tf = 99, mx = 50, mn = 0, cfl = 0.5, dt0 = 60; if (limits) { time = sd("time", 0, 10); tg = sd("output time", 0, 10); tf = sd("final time", 0, 10); mx = sd("dt max", 0.01, 10); mn = sd("dt min", 0, 0.01); dt0 = sd("dt", 0.001, 10); } double dt = dt0; const double fuzz = 1e-16, tiny = 1e-12;
  t.solver.get_timestep(t.mesh, t.x, v, t.vol, ss, t.k, t.den, t.cp, t.er, t.map, t.n[m], time, tg, tf, mx, mn, cfl, dt, fuzz, tiny, m);
  double w = dt0 * 1.1; for (size_t s = 0; s < t.n[m]; s++) { size_t e = t.map(m, s); bool hA = false, hB = false; for (int l = 0; l < 8; l++) { if (t.node(e, l) == A) hA = true; if (t.node(e, l) == B) hB = true; } double d = 1e9; if (hA && hB) d = del * del; else for (int i = 0; i < 8; i++) for (int j = 0; j < i; j++) { double q = 0; for (int k = 0; k < 3; k++) { double y = t.x(t.node(e, i), k) - t.x(t.node(e, j), k); q += y * y; } d = fmin(d, q); }
    double l = 0.3 * d * t.den(m, s) * t.cp(m, s) / (6 * t.k(m, s)); l = fmax(fmin(fmin(l, 1.0), mx), mn); w = fmin(w, l); }
  w = fmin(w, fmax(fuzz, tg - time) + tiny); w = fmin(w, tf - time + tiny); fsx_check_near(dt, w, 1e-9, "the time step is the smallest of its limits"); fsx_cover(m ? "one element" : "two elements"); }
FSX_ENTRY h_timestep() { timestep(true); }
FSX_ENTRY h_pairs() { timestep(false); }
// tables: linear between rows, constant outside, the same on host and device; the tool path reads position and power off one
FSX_ENTRY h_table() { size_t n = 2 + fsx_choose((unsigned)fsx_param("rows", 3) - 1, "rows"); ToolPathInfo p(n); double x[6], y[6][4]; for (size_t i = 0; i < n; i++) { x[i] = sd("t", 0, 100); if (i) fsx_assume(x[i] > x[i - 1]); for (int c = 0; c < 4; c++) y[i][c] = sd("y", -100, 100); p.set_data_point(i, x[i], y[i][0], y[i][1], y[i][2], y[i][3]); } p.update_device(); double t = sd("at", -10, 110), v[4]; p.get_position(t, v[0], v[1], v[2]); v[3] = p.get_power(t);
  for (int c = 0; c < 4; c++) { fsx_check_near(p.tool_path_table.linear_interpolation_host(t, c + 1), v[c], TOL, "host and device agree"); if (t <= x[0]) { fsx_check_near(v[c], y[0][c], TOL, "before the first row: its value"); fsx_cover("before"); } else if (t >= x[n - 1]) { fsx_check_near(v[c], y[n - 1][c], TOL, "after the last row: its value"); fsx_cover("after"); }
    else { for (size_t i = 0; i + 1 < n; i++) if (t >= x[i] && t <= x[i + 1]) fsx_check_near((v[c] - y[i][c]) * (x[i + 1] - x[i]), (t - x[i]) * (y[i + 1][c] - y[i][c]), TOL, "between rows: linear"); fsx_cover("between"); } } }
