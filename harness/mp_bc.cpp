// Multiphysics boundary conditions: velocity, stress and temperature models, boundary sets (apps/multiphysics/src/boundary_conditions, SGH_solver_3D/src/boundary.cpp, common/src/geometry_new.cpp).
#include "mp_sgh.h"
#include "constant_velocity_bc.hpp"
#include "no_velocity_bc.hpp"
#include "piston_velocity_bc.hpp"
#include "reflected_velocity_bc.hpp"
#include "time_varying_velocity_bc.hpp"
#include "zero_velocity_bc.hpp"
#include "constant_stress_bc.hpp"
#include "time_varying_stress_bc.hpp"
#include "constant_temp_bc.hpp"
typedef DCArrayKokkos<double> D; typedef RaggedRightArrayKokkos<double> R2;
static R2 table(size_t rows, size_t cols) { CArrayKokkos<size_t> c(rows); for (size_t i = 0; i < rows; i++) c(i) = cols; return R2(c); }
typedef void (*VelFn)(const swage::Mesh&, const DCArrayKokkos<BoundaryConditionEnums_t>&, const R2&, const D&, const D&, const double, const size_t, const size_t, const size_t);
static VelFn vel_model(int k) { VelFn f[] = {NoVelocityBC::velocity, ZeroVelocityBC::velocity, ConstantVelocityBC::velocity, ReflectedVelocityBC::velocity, PistonVelocityBC::velocity, TimeVaryingVelocityBC::velocity}; return f[k]; }
FSX_ENTRY h_vel_model() { int k = fsx_choose(6, "model"), dims = 2 + fsx_choose(2, "dims"); swage::Mesh m; swage::fsx_block(m, dims, 1, 1, 1); DCArrayKokkos<BoundaryConditionEnums_t> en(2); D sv(2, 2), v(m.num_nodes, dims); R2 g = table(2, 9); size_t node = 2, set = 1;
  for (size_t n = 0; n < m.num_nodes; n++) for (int d = 0; d < dims; d++) v(n, d) = n == node ? sd("v") : 5 + n; for (int j = 0; j < 9; j++) g(0, j) = 1234; for (int j = 0; j < 3; j++) g(1, j) = sd("n"); double n2 = 0, v0[3], vn = 0; for (int d = 0; d < dims; d++) { n2 += g(1, d) * g(1, d); v0[d] = v(node, d); vn += v0[d] * g(1, d); }
  bool dir = k >= 3; if (dir) fsx_assume(n2 >= 0.01); double t = sd("t", 0, 10), a = 0, b = 0; bool in = true; double want = 0; 
  if (k == 4) { for (int j = 3; j < 6; j++) g(1, j) = sd("poly"); a = g(1, 6) = sd("start", 0, 10); b = g(1, 7) = sd("end", 0, 10); in = a <= t && t <= b; want = g(1, 3) + g(1, 4) * (t - a) + 0.5 * g(1, 5) * (t - a) * (t - a); }
  if (k == 5) { g(1, 3) = sd("v0"); g(1, 4) = sd("decay", 0, 5); a = g(1, 5) = sd("start", 0, 10); b = g(1, 6) = sd("end", 0, 10); in = a <= t && t <= b; want = g(1, 3) * exp(-g(1, 4) * (t - a)); }
  vel_model(k)(m, en, g, sv, v, t, 1, node, set); double w[3]; for (int d = 0; d < dims; d++) w[d] = v(node, d);
  for (size_t n = 0; n < m.num_nodes; n++) if (n != node) for (int d = 0; d < dims; d++) fsx_check(v(n, d) == 5 + n, "only the given node's velocity changes");
  if (k == 0 || !in) { for (int d = 0; d < dims; d++) fsx_check(w[d] == v0[d], "without a condition, or outside its time window, the velocity is untouched"); fsx_cover(k == 0 ? "no condition" : "outside window"); return; }
  if (k == 1) { for (int d = 0; d < dims; d++) fsx_check(w[d] == 0, "zero velocity"); fsx_cover("zero"); return; }
  if (k == 2) { for (int d = 0; d < dims; d++) fsx_check(w[d] == g(1, d), "constant velocity"); fsx_cover("constant"); return; }
  double wn = 0; for (int d = 0; d < dims; d++) wn += w[d] * g(1, d); 
  if (k == 3) { fsx_check_near(wn, 0, 1e-7, "a wall removes the velocity along its direction, whatever the direction's length and sign"); fsx_cover("wall"); }
  else { fsx_check_near(wn, want * sqrt(n2), 1e-7, "a driven boundary moves along its direction at the prescribed speed"); fsx_cover(k == 4 ? "piston" : "decaying"); }
  for (int d = 0; d < dims; d++) for (int e = 0; e < d; e++) fsx_check_near((w[d] - v0[d]) * g(1, e), (w[e] - v0[e]) * g(1, d), 1e-7, "the velocity across the direction is untouched"); }
// a boundary set applies to exactly the nodes listed for it, sets in the order the solver lists them; nodes outside keep their velocity
FSX_ENTRY h_vel_sets() { swage::Mesh m; swage::fsx_block(m, 3, 2, 1, 1); fsx_loop_order = fsx_choose(2, "order"); SGH3D s; s.solver_id = 1; size_t N = m.num_nodes; m.init_bdy_sets(3); m.num_bdy_nodes_in_set = DCArrayKokkos<size_t>(3); BoundaryCondition_t bc; bc.BoundaryConditionFunctions = CArrayKokkos<BoundaryConditionFunctions_t>(3); bc.velocity_bc_global_vars = table(3, 8); bc.num_vel_bdy_sets_in_solver = DCArrayKokkos<size_t>(2); bc.vel_bdy_sets_in_solver = DCArrayKokkos<size_t>(2, 3);
  static const size_t L[3][4] = {{0, 2, 3, 5}, {5, 6, 11, 0}, {1, 4, 7, 9}}; for (int i = 0; i < 3; i++) { m.num_bdy_nodes_in_set(i) = 4 - fsx_choose(2, "short"); bc.BoundaryConditionFunctions(i).velocity = ConstantVelocityBC::velocity; for (int d = 0; d < 3; d++) bc.velocity_bc_global_vars(i, d) = sd("bc"); }
  m.bdy_nodes_in_set = RaggedRightArrayKokkos<size_t>(m.num_bdy_nodes_in_set); for (int i = 0; i < 3; i++) for (size_t j = 0; j < m.num_bdy_nodes_in_set(i); j++) m.bdy_nodes_in_set(i, j) = L[i][j];
  size_t n = bc.num_vel_bdy_sets_in_solver(1) = fsx_choose(3, "sets"); bc.num_vel_bdy_sets_in_solver(0) = 3; for (size_t i = 0; i < 3; i++) { bc.vel_bdy_sets_in_solver(0, i) = i; bc.vel_bdy_sets_in_solver(1, i) = fsx_choose(3, "set"); }
  D v(N, 3); for (size_t i = 0; i < N; i++) for (int d = 0; d < 3; d++) v(i, d) = 100 * i + d; s.boundary_velocity(m, bc, v, 0.5);
  for (size_t i = 0; i < N; i++) for (int d = 0; d < 3; d++) { double w = 100 * i + d; for (size_t k = 0; k < n; k++) { size_t set = bc.vel_bdy_sets_in_solver(1, k); for (size_t j = 0; j < m.num_bdy_nodes_in_set(set); j++) if (L[set][j] == i) w = bc.velocity_bc_global_vars(set, d); } fsx_check(v(i, d) == w, "each set's nodes, and no others, get its velocity; a later set prevails"); } fsx_cover("sets"); }
// a constant (or decaying) stress on boundary patches: the total nodal force is stress times area, and vanishes on a closed surface
FSX_ENTRY h_stress() { swage::Mesh m; swage::fsx_block(m, 3, 2, 1, 1); fsx_loop_order = fsx_choose(2, "order"); SGH3D s; s.solver_id = 0; size_t N = m.num_nodes; m.init_bdy_sets(2); int k = 1 + fsx_choose(2, "model"); size_t P = m.num_bdy_patches; bool all = fsx_choose(2, "all"); size_t pick = all ? 0 : fsx_choose((int)P, "patch");
  BoundaryCondition_t bc; bc.BoundaryConditionFunctions = CArrayKokkos<BoundaryConditionFunctions_t>(2); bc.stress_bc_global_vars = table(2, 9); bc.num_stress_bdy_sets_in_solver = DCArrayKokkos<size_t>(1); bc.stress_bdy_sets_in_solver = DCArrayKokkos<size_t>(1, 2); bc.num_stress_bdy_sets_in_solver(0) = 1; bc.stress_bdy_sets_in_solver(0, 0) = 1;
  bc.BoundaryConditionFunctions(1).stress = k == 1 ? ConstantStressBC::stress : TimeVaryingStressBC::stress; R2& g = bc.stress_bc_global_vars; for (int j = 0; j < 9; j++) { g(0, j) = 77; g(1, j) = 0; } for (int j = 0; j < 6; j++) g(1, j) = sd("sigma"); double S[3][3]; for (int i = 0; i < 3; i++) S[i][i] = g(1, i); S[1][2] = S[2][1] = g(1, 3); S[0][2] = S[2][0] = g(1, 4); S[0][1] = S[1][0] = g(1, 5);
  double t = 0.5, f = k == 1; if (k == 2) { g(1, 6) = sd("decay", 0, 5); double a = g(1, 7) = sd("start", 0, 1), b = g(1, 8) = sd("end", 0, 1); bool in = a <= t && t <= b; fsx_cover(in ? "in window" : "outside window"); f = in ? exp(-g(1, 6) * (t - a)) : 0; }
  m.num_bdy_patches_in_set(0) = 0; m.num_bdy_patches_in_set(1) = all ? P : 1; m.bdy_patches_in_set = RaggedRightArrayKokkos<size_t>(m.num_bdy_patches_in_set); for (size_t i = 0; i < (all ? P : 1); i++) m.bdy_patches_in_set(1, i) = m.bdy_patches(all ? i : pick);
  D x(N, 3), nf(N, 3); for (size_t i = 0; i < N; i++) for (int d = 0; d < 3; d++) { x(i, d) = sd("x"); nf(i, d) = (double)i - d; } s.boundary_stress(m, bc, nf, x, t);
  size_t pg = m.bdy_patches(pick); double A[3] = {0, 0, 0}; size_t q[4]; for (int i = 0; i < 4; i++) q[i] = m.nodes_in_patch(pg, i); for (int d = 0; d < 3; d++) { int a = (d + 1) % 3, b = (d + 2) % 3; A[d] = 0.5 * ((x(q[2], a) - x(q[0], a)) * (x(q[3], b) - x(q[1], b)) - (x(q[2], b) - x(q[0], b)) * (x(q[3], a) - x(q[1], a))); }
  for (int d = 0; d < 3; d++) { double tot = 0, w = 0; for (size_t i = 0; i < N; i++) tot += nf(i, d) - ((double)i - d); if (!all) for (int e = 0; e < 3; e++) w += f * S[d][e] * A[e]; fsx_check_near(tot, w, 1e-7, all ? "a uniform stress on a closed surface has no resultant" : "the total force of a patch is stress times its area vector");
    if (!all) for (size_t i = 0; i < N; i++) { bool in = false; for (size_t j : q) in |= j == i; fsx_check_near(nf(i, d) - ((double)i - d), in ? w / 4 : 0, 1e-7, "each node of the patch carries a quarter of its force, other nodes none"); } } fsx_cover(all ? "closed" : "patch"); }
// boundary sets hold exactly the boundary patches lying on the surface, and exactly their nodes, once each
FSX_ENTRY h_tag() { swage::Mesh m; swage::fsx_block(m, 3, 2, 1, 1); fsx_loop_order = fsx_choose(2, "order"); m.init_bdy_sets(2); BoundaryCondition_t bc; bc.BoundaryConditionSetup = CArrayKokkos<BoundaryConditionSetup_t>(2); int tag = fsx_choose(5, "surface"); size_t set = tag % 2;
  for (size_t s = 0; s < 2; s++) { BoundaryConditionSetup_t& b = bc.BoundaryConditionSetup(s); b.surface = (boundary_conditions::BdyTag)(s == set ? tag : 1); b.value = s == set ? sd("value", -1, 4) : 0; b.tolerance = s == set ? sd("tol", 0, 0.5) : 0.01; for (int d = 0; d < 3; d++) b.origin[d] = s == set ? fsx_choose(2, "origin") * 0.5 : 0; }
  D x(m.num_nodes, 3); for (size_t n = 0; n < m.num_nodes; n++) { x(n, 0) = n % 3; x(n, 1) = n / 3 % 2; x(n, 2) = n / 6 * 1.5; } if (tag < 3) x(fsx_choose((int)fsx_param("nodes", 3), "node") * 2 + 1, tag) += sd("shift", -1, 1); bool only = tag > 2 && fsx_choose(2, "shrink"); if (only) bc.BoundaryConditionSetup(set).tolerance = 0.01;
  BoundaryConditionSetup_t b = bc.BoundaryConditionSetup(set); tag_bdys(bc, m, x); build_boundry_node_sets(m);
  for (size_t s = 0; s < 2; s++) { BoundaryConditionSetup_t c = bc.BoundaryConditionSetup(s); std::vector<int> on(m.num_nodes, 0), got(m.num_nodes, 0), pg(m.num_patches, 0); size_t np = 0; for (size_t i = 0; i < m.num_bdy_patches_in_set(s); i++) pg[m.bdy_patches_in_set(s, i)]++; for (size_t i = 0; i < m.num_bdy_nodes_in_set(s); i++) got[m.bdy_nodes_in_set(s, i)]++;
    std::vector<int> isb(m.num_patches, 0); for (size_t i = 0; i < m.num_bdy_patches; i++) isb[m.bdy_patches(i)] = 1;
    for (size_t p = 0; p < m.num_patches; p++) { bool in = isb[p]; for (int l = 0; l < 4 && in; l++) { size_t n = m.nodes_in_patch(p, l); double r; if (c.surface < 3) r = x(n, (int)c.surface); else { double q = 0; for (int d = 0; d < (c.surface == 3 ? 2 : 3); d++) q += (x(n, d) - c.origin[d]) * (x(n, d) - c.origin[d]); r = sqrt(q); } in = r - c.value <= c.tolerance && c.value - r <= c.tolerance; }
      fsx_check(pg[p] == (in ? 1 : 0), "a set holds exactly the boundary patches whose nodes all lie on its surface"); if (in) { np++; for (int l = 0; l < 4; l++) on[m.nodes_in_patch(p, l)] = 1; } }
    for (size_t n = 0; n < m.num_nodes; n++) fsx_check(got[n] == on[n], "a set's nodes are those of its patches, once each"); fsx_cover(np ? "tagged" : "empty"); } }
FSX_ENTRY h_temp() { swage::Mesh m; swage::fsx_block(m, 3, 1, 1, 1); DCArrayKokkos<BoundaryConditionEnums_t> en(2); D sv(2, 2), T(8); R2 g = table(2, 3); for (int i = 0; i < 8; i++) T(i) = 300 + i; g(0, 0) = 9; g(1, 0) = sd("temp", 0, 5000); size_t n = fsx_choose(8, "node"); ConstantTemperatureBC::temperature(m, en, g, sv, T, sd("t"), 1, n, 1); for (size_t i = 0; i < 8; i++) fsx_check(T(i) == (i == n ? g(1, 0) : 300.0 + i), "constant temperature"); fsx_cover("temperature"); }
