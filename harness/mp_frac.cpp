// Cohesive zones (apps/multiphysics/src/Solvers/SGH_solver_3D/src/fracture.cpp): where they are, how they open, what they carry, whom they push.
#include "matar.h"
#include "ELEMENTS.h"
#include "Solvers/SGH_solver_3D/src/fracture.cpp"
#include "reorientation_kinematics.hpp"
#include <vector>
static const double TOL = 1e-9;
static double sd(const char* n, double lo = -10, double hi = 10) { return fsx_double(n, lo, hi); }
typedef DCArrayKokkos<double> D;
static const int F3[6][4] = {{0, 4, 6, 2}, {1, 3, 7, 5}, {0, 1, 5, 4}, {3, 2, 6, 7}, {0, 2, 3, 1}, {4, 5, 7, 6}};
// blocks of elements that do not share nodes with one another
struct Blocks { swage::Mesh mesh; State_t S; cohesive_zones_t cz; std::vector<int> body; std::vector<double> X; std::vector<std::vector<size_t>> el; std::vector<int> elb; size_t N = 0, E = 0; int bodies = 0;
  void add(const int o[3], const int n[3]) { size_t at = N; int L[3] = {n[0] + 1, n[1] + 1, n[2] + 1}; for (int k = 0; k < L[2]; k++) for (int j = 0; j < L[1]; j++) for (int i = 0; i < L[0]; i++) { X.push_back(o[0] + i); X.push_back(o[1] + j); X.push_back(o[2] + k); body.push_back(bodies); N++; }
    for (int k = 0; k < n[2]; k++) for (int j = 0; j < n[1]; j++) for (int i = 0; i < n[0]; i++) { std::vector<size_t> e; for (int l = 0; l < 8; l++) e.push_back(at + i + (l & 1) + L[0] * (j + (l >> 1 & 1) + L[1] * (k + (l >> 2)))); el.push_back(e); elb.push_back(bodies); } bodies++; }
  void make() { fsx_loop_order = 0; E = el.size(); mesh.initialize_nodes(N); mesh.initialize_elems(E, 3); for (size_t e = 0; e < E; e++) for (int l = 0; l < 8; l++) mesh.nodes_in_elem(e, l) = el[e][l]; mesh.initialize_corners(8 * E); mesh.build_connectivity(); S.node.coords = D(N, 3); S.node.vel = D(N, 3); S.node.force = D(N, 3); for (size_t n = 0; n < N; n++) for (int k = 0; k < 3; k++) { S.node.coords(n, k) = X[3 * n + k]; S.node.vel(n, k) = 0; S.node.force(n, k) = 7 + n; } }
  bool touch(size_t a, size_t b) const { for (int k = 0; k < 3; k++) if (X[3 * a + k] != X[3 * b + k]) return false; return a != b; }
  // the corner of element f's face g that lies on node a of face h of element e, if the faces are the same
  long facing(size_t e, int h, size_t f, int g, size_t a) const { if (elb[e] == elb[f]) return -1; long at = -1; for (int i = 0; i < 4; i++) { bool hit = false; for (int j = 0; j < 4; j++) if (touch(el[e][F3[h][i]], el[f][F3[g][j]])) { hit = true; if (el[e][F3[h][i]] == a) at = el[f][F3[g][j]]; } if (!hit) return -1; } return at; }
  void init(double E_inf, double a1, double n_exp, double un, double ut, int np, const double* pr) { SimulationParameters_t P; cz.initialize(mesh, S, P); BoundaryCondition_t bc; CArrayKokkos<size_t> st(3); st(0) = 1; st(1) = 30; st(2) = 2; bc.stress_bc_global_vars = RaggedRightArrayKokkos<double>(st); for (int s = 0; s < 3; s++) for (size_t j = 0; j < st(s); j++) bc.stress_bc_global_vars(s, j) = -55; double v[6] = {E_inf, a1, n_exp, un, ut, (double)np}; for (int j = 0; j < 6; j++) bc.stress_bc_global_vars(1, j) = v[j]; for (int j = 0; j < 2 * np; j++) bc.stress_bc_global_vars(1, 6 + j) = pr[j]; cz.initialize_fracture_bc(mesh, bc, 1); }
};
static void face(const Blocks& t, size_t e, int h, double n[3], double& area) { double c[4][3]; for (int i = 0; i < 4; i++) for (int k = 0; k < 3; k++) c[i][k] = t.S.node.coords(t.el[e][F3[h][i]], k); double a[3], b[3]; for (int k = 0; k < 3; k++) { a[k] = c[1][k] - c[0][k]; b[k] = c[3][k] - c[0][k]; } for (int k = 0; k < 3; k++) n[k] = a[(k + 1) % 3] * b[(k + 2) % 3] - a[(k + 2) % 3] * b[(k + 1) % 3]; area = sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]); for (int k = 0; k < 3; k++) n[k] /= area; }
static const double MAP[3][3][3] = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, {{2, 0, 0}, {0, 0.5, 0}, {0, 0, 1.5}}, {{1.2, 0.3, 0}, {-0.4, 0.9, 0.2}, {0.1, -0.3, 1.1}}};
// zones: nodes that coincide are paired, once; a pair carries its share of the faces its nodes' elements have in common, and of no other
FSX_ENTRY h_zones() { Blocks t; int lay = fsx_choose(3, "layout"), ax = fsx_choose(3, "axis"), swap = fsx_choose(2, "swap"); int o0[3] = {0, 0, 0}, o1[3] = {0, 0, 0}, n0[3] = {1, 1, 1}, n1[3] = {1, 1, 1}, n2[3] = {2, 2, 2}; o1[ax] = 1; n2[ax] = 1; if (lay == 0) { t.add(swap ? o1 : o0, n2); t.add(swap ? o0 : o1, n2); } else if (lay == 1) { int o2[3] = {0, 0, 0}; o2[(ax + 1) % 3] = 1; t.add(swap ? o1 : o0, n0); t.add(o2, n1); t.add(swap ? o0 : o1, n1); } else { int o2[3] = {0, 0, 0}, o3[3] = {0, 0, 0}; o2[ax] = 2; o3[(ax + 2) % 3] = 5; t.add(swap ? o1 : o0, n0); t.add(o3, n1); t.add(swap ? o0 : o1, n1); t.add(o2, n1); } t.make(); int m = fsx_choose(3, "map");
  for (size_t n = 0; n < t.N; n++) for (int k = 0; k < 3; k++) { t.S.node.coords(n, k) = 0.25 * k; for (int j = 0; j < 3; j++) t.S.node.coords(n, k) += MAP[m][k][j] * t.X[3 * n + j]; } t.init(3, 2, 1, 0.5, 0.25, 0, nullptr); size_t want = 0; for (size_t a = 0; a < t.N; a++) for (size_t b = a + 1; b < t.N; b++) want += t.touch(a, b); auto& pr = t.cz.overlapping_node_gids; fsx_check(pr.dims(0) == want && t.cz.is_ready(), "every two nodes that coincide are a pair, once"); for (size_t i = 0; i < want; i++) { fsx_check(pr(i, 0) != pr(i, 1) && t.touch(pr(i, 0), pr(i, 1)), "pairs are nodes that coincide"); for (size_t j = 0; j < i; j++) fsx_check(!(pr(i, 0) == pr(j, 0) && pr(i, 1) == pr(j, 1)) && !(pr(i, 0) == pr(j, 1) && pr(i, 1) == pr(j, 0)), "every two nodes that coincide are a pair, once"); }
  std::vector<double> T(want); for (size_t i = 0; i < want; i++) { t.cz.internal_vars(i, 2) = 0.25; T[i] = t.cz.delta_internal_vars(i, 2) = sd("traction"); t.cz.internal_vars(i, 3) = 9; t.cz.delta_internal_vars(i, 3) = -5; } D orient(want, 6); orient.set_values(0); CArrayKokkos<double> area(want); t.cz.oriented(t.mesh.nodes_in_elem, t.S.node.coords, pr, t.cz.cz_info, t.cz.max_elem_in_cohesive_zone, t.cz.geom_tol, orient); t.cz.F_cz.set_values(88); t.cz.cohesive_zone_loads(t.mesh.nodes_in_elem, t.S.node.coords, pr, orient, t.cz.cz_info, t.cz.max_elem_in_cohesive_zone, t.cz.internal_vars, t.cz.delta_internal_vars, area, t.cz.F_cz);
  std::vector<double> F(3 * t.N, 0.0); for (size_t e = 0; e < t.E; e++) for (size_t f = 0; f < t.E; f++) for (int h = 0; h < 6; h++) for (int g = 0; g < 6; g++) for (int l = 0; l < 8; l++) { size_t a = t.el[e][l]; long b = t.facing(e, h, f, g, a); if (b < 0) continue; double n[3], A; face(t, e, h, n, A); for (size_t i = 0; i < want; i++) if ((pr(i, 0) == a && pr(i, 1) == (size_t)b) || (pr(i, 1) == a && pr(i, 0) == (size_t)b)) for (int k = 0; k < 3; k++) F[3 * a + k] += (0.25 + T[i]) * 0.25 * A * n[k]; }
  for (size_t n = 0; n < 3 * t.N; n++) fsx_check_near(t.cz.F_cz(n), F[n], TOL, "a node is pulled towards its partner by its share of the faces they have in common"); fsx_cover(lay == 0 ? "plane" : lay == 1 ? "corner" : "stack"); }
// the share and direction of a face of any size and slant
FSX_ENTRY h_shape() { Blocks t; int ax = fsx_choose(3, "axis"), o0[3] = {0, 0, 0}, o1[3] = {0, 0, 0}, n0[3] = {1, 1, 1}; o1[ax] = 1; int swap = fsx_choose(2, "swap"); t.add(swap ? o1 : o0, n0); t.add(swap ? o0 : o1, n0); t.make(); t.init(3, 2, 1, 0.5, 0.25, 0, nullptr); double a = sd("a", 0.25, 4), b = sd("b", 0.25, 4), c = sd("c", 0.25, 4), s = 0; if (fsx_choose(2, "slant")) { s = sd("slant", -2, 2); b = 1.5; } int u = (ax + 1) % 3, v = (ax + 2) % 3; for (size_t n = 0; n < t.N; n++) { t.S.node.coords(n, u) = a * t.X[3 * n + u] + s * t.X[3 * n + v]; t.S.node.coords(n, v) = b * t.X[3 * n + v]; t.S.node.coords(n, ax) = c * t.X[3 * n + ax]; }
  auto& pr = t.cz.overlapping_node_gids; size_t P = pr.dims(0); fsx_check(P == 4, "the nodes of a common face are paired"); D orient(P, 6); orient.set_values(0); CArrayKokkos<double> area(P); t.cz.oriented(t.mesh.nodes_in_elem, t.S.node.coords, pr, t.cz.cz_info, t.cz.max_elem_in_cohesive_zone, t.cz.geom_tol, orient); t.cz.internal_vars(2, 2) = 1; t.cz.cohesive_zone_loads(t.mesh.nodes_in_elem, t.S.node.coords, pr, orient, t.cz.cz_info, t.cz.max_elem_in_cohesive_zone, t.cz.internal_vars, t.cz.delta_internal_vars, area, t.cz.F_cz);
  for (size_t i = 0; i < P; i++) for (int k = 0; k < 3; k++) { fsx_check_near(orient(i, k), k == ax ? (swap ? -1.0 : 1.0) : 0.0, TOL, "the direction of a zone is that of its faces"); fsx_check_near(orient(i, 3 + k), k == ax ? (swap ? -1.0 : 1.0) : 0.0, TOL, "the direction of a zone is that of its faces"); double f = i == 2 && k == ax ? (swap ? -1.0 : 1.0) * a * b / 4 : 0.0; fsx_check_near(t.cz.F_cz(3 * pr(i, 0) + k), f, TOL, "a pair carries a quarter of its face"); fsx_check_near(t.cz.F_cz(3 * pr(i, 1) + k), -f, TOL, "the two nodes of a pair are pulled alike"); } fsx_cover("shape"); }
// openings: normal and sliding parts, now and at the end of the step
FSX_ENTRY h_open() { cohesive_zones_t cz; D x(3, 3), v(3, 3), o(2, 6), out(2, 4); DCArrayKokkos<size_t> pr(2, 2); pr(0, 0) = 2; pr(0, 1) = 0; pr(1, 0) = 1; pr(1, 1) = 2; int ax = fsx_choose(4, "axis"); double n[3] = {ax == 0 ? 1.0 : 0.0, ax == 1 ? 1.0 : 0.0, ax == 2 ? 1.0 : 0.0}; if (ax == 3) { n[0] = 0.6; n[1] = 0; n[2] = -0.8; } double dt = sd("dt", 0.001, 2), shift = sd("shift"), drift = sd("drift"); for (int k = 0; k < 3; k++) { x(2, k) = shift; v(2, k) = drift; x(1, k) = 5 + k; v(1, k) = 4 - k; o(0, k) = n[k]; o(0, 3 + k) = 3; o(1, k) = k == 1; o(1, 3 + k) = 2; } double d[3], w[3]; for (int k = 0; k < 3; k++) { d[k] = sd("gap", -2, 2); w[k] = sd("rate", -2, 2); x(0, k) = shift + d[k]; v(0, k) = drift + w[k]; }
  cz.ucmap(x, v, o, pr, dt, out); for (int s = 0; s < 2; s++) { double e[3], un = 0, q = 0; for (int k = 0; k < 3; k++) { e[k] = d[k] + (s ? dt * w[k] : 0.0); un += e[k] * n[k]; } for (int k = 0; k < 3; k++) q += (e[k] - un * n[k]) * (e[k] - un * n[k]); fsx_check_near(out(0, 2 * s), un, TOL, "the opening is the gap along the zone's direction"); fsx_check(out(0, 2 * s + 1) >= 0, "sliding has a size"); fsx_check_near(out(0, 2 * s + 1) * out(0, 2 * s + 1), q, TOL, "sliding is the rest of the gap"); } fsx_cover("open"); }
static void law(int np) { cohesive_zones_t cz; const int W = 4 + np; D op(2, 4), iv(2, W), dv(2, W), pr(np ? np : 1, 2); DCArrayKokkos<size_t> pairs(2, 2); iv.set_values(0); dv.set_values(0); op.set_values(0); int two = fsx_choose(2, "pair"), ex = fsx_choose(3, "exponent"); double E = sd("E", 0, 10), a1 = sd("a1", 0, 10), nx = ex == 0 ? 1.0 : ex == 1 ? 2.0 : sd("exponent", 0.1, 4), us = sd("normal length", 0.1, 4), ut = sd("sliding length", 0.1, 4), dt = sd("dt", 0.001, 2), Ej[3], tau[3], sg[3]; for (int j = 0; j < np; j++) { pr(j, 0) = Ej[j] = sd("Ej", 0, 10); pr(j, 1) = tau[j] = sd("tau", 0.01, 10); iv(two, 4 + j) = sg[j] = sd("branch stress"); }
  double u[4]; int how = fsx_choose(3, "from"); for (int k = 0; k < 4; k++) { u[k] = (how == 1 && k < 2) || (how == 2 && k > 1) ? 0.0 : k % 2 ? sd("sliding", 0, 3) : sd("opening", -3, 3); op(two, k) = u[k]; } double al = iv(two, 1) = sd("damage", 0, 1); double L = sqrt((u[0] / us) * (u[0] / us) + (u[1] / ut) * (u[1] / ut)), M = sqrt((u[2] / us) * (u[2] / us) + (u[3] / ut) * (u[3] / ut)); bool holds = np == 0; double Tn = holds ? E * (1 - al) * u[0] / us : sd("normal traction"), Tt = holds ? E * (1 - al) * u[1] / ut : sd("sliding traction"); iv(two, 2) = Tn; iv(two, 3) = Tt; iv(two, 0) = 3;
  cz.cohesive_zone_var_update(op, dt, 0.5, pairs, E, a1, nx, us, ut, np, pr, iv, dv);
  if (how != 1) fsx_assume(L > 0); if (how != 2) fsx_assume(M > 0); double rate = (M - L) / dt, al2 = al; if (rate > 0) { double mid = 0.5 * (M + L), grow = a1 * (ex == 0 ? mid : ex == 1 ? mid * mid : pow(mid, nx)) * dt; al2 = al + grow > 1.0 ? 1.0 : al + grow; fsx_cover("loading"); } else fsx_cover("unloading");
  fsx_check_near(dv(two, 0), rate, TOL, "the rate is that of the combined opening"); fsx_check_near(al + dv(two, 1), al2, TOL, "damage grows with the opening, while it grows, up to one"); fsx_check(dv(two, 1) >= 0, "damage never heals"); double S = 0, R = 0, K = E; for (int j = 0; j < np; j++) { double a = exp(-dt / tau[j]), s = a * sg[j] + Ej[j] * tau[j] * rate * (1.0 - a); S += s; R += (1.0 - a) * s; K += Ej[j] * tau[j] * ((1.0 - a) / dt); fsx_check_near(dv(two, 4 + j), s, TOL, "a branch relaxes and is driven by the rate"); }
  double base = E * L + S, n0 = how == 1 ? 0 : u[0] / (us * L), t0 = how == 1 ? 0 : u[1] / (ut * L), n1 = how == 2 ? 0 : u[2] / (us * M), t1 = how == 2 ? 0 : u[3] / (ut * M); if (holds) { fsx_check_near(Tn + dv(two, 2), E * (1 - al2) * u[2] / us, TOL, "without branches the traction is that of a damaged spring"); fsx_check_near(Tt + dv(two, 3), E * (1 - al2) * u[3] / ut, TOL, "without branches the traction is that of a damaged spring"); }
  else { fsx_check_near(dv(two, 2), n1 * (1 - al2) * (base + K * rate * dt - R) - n0 * (1 - al) * base, TOL, "the traction follows the law of the zone"); fsx_check_near(dv(two, 3), t1 * (1 - al2) * (base + K * rate * dt - R) - t0 * (1 - al) * base, TOL, "the traction follows the law of the zone"); }
  for (int j = 0; j < W; j++) { if (j > 3) fsx_check(iv(two, j) == sg[j - 4], "the state is kept until the step is done"); fsx_check(iv(1 - two, j) == 0, "other zones keep their state"); fsx_check_near(dv(1 - two, j), 0.0, TOL, "a zone at rest stays at rest"); } }
FSX_ENTRY h_law() { law(0); }
FSX_ENTRY h_law1() { law(1); }
FSX_ENTRY h_law2() { law(2); }
// two steps of a zone that opens from nothing, with one or more stages each
FSX_ENTRY h_step() { Blocks t; int ax = fsx_choose(3, "axis"), o0[3] = {0, 0, 0}, o1[3] = {0, 0, 0}, n0[3] = {1, 1, 1}; o1[ax] = 1; int swap = fsx_choose(2, "swap"), stages = 1 + fsx_choose(2, "stages"); t.add(swap ? o1 : o0, n0); t.add(swap ? o0 : o1, n0); t.make(); bool moves = fsx_choose(2, "what"); double E = sd("E", 0.1, 10), a1 = moves ? 0.0 : sd("a1", 0, 0.05), us = 0.5, ut = 0.25; t.init(E, a1, 1, us, ut, 0, nullptr); auto& pr = t.cz.overlapping_node_gids; double sgn = swap ? -1 : 1, d[3] = {0, 0, 0}, al = 0; for (int step = 0; step < 2; step++) { double dt = 0.5, w[3]; for (int k = 0; k < 3; k++) { w[k] = k == ax || k == (ax + 1) % 3 ? (moves ? sd("rate", 0.25, 1) : 0.375 + 0.125 * (k == ax) + 0.25 * step) * (k == ax ? sgn : 1.0) : 0.0; } for (size_t n = 0; n < t.N; n++) for (int k = 0; k < 3; k++) { if (t.body[n] == 1) t.S.node.coords(n, k) = t.X[3 * n + k] + d[k]; t.S.node.vel(n, k) = 0.5 + (t.body[n] == 1 ? w[k] : 0.0); }
    for (int r = 0; r < stages; r++) { t.cz.reset_delta_internal_vars(); t.cz.F_cz.set_values(0.0); t.cz.compute_cohesive_zone_nodal_forces(t.mesh, t.S, dt, 0.1, step, r, stages, t.cz.F_cz); t.cz.commit_internal_vars(r, stages); D f(t.N, 3); for (size_t n = 0; n < t.N; n++) for (int k = 0; k < 3; k++) f(n, k) = 7 + n; t.cz.add_cohesive_zone_nodal_forces(f, t.cz.F_cz, t.N); double e[3]; for (int k = 0; k < 3; k++) e[k] = d[k] + dt * w[k]; double u0 = d[ax] * sgn, u1 = e[ax] * sgn, q = (ax + 1) % 3, s0 = d[(int)q], s1 = e[(int)q]; double L = step ? sqrt((u0 / us) * (u0 / us) + (s0 / ut) * (s0 / ut)) : 0, M = sqrt((u1 / us) * (u1 / us) + (s1 / ut) * (s1 / ut)), al2 = al + a1 * 0.5 * (M + L) * dt;
      for (size_t i = 0; i < 4; i++) for (int side = 0; side < 2; side++) { size_t n = pr(i, side); for (int k = 0; k < 3; k++) { double F = 0; if (k == ax) F = 0.25 * E * (1 - al2) * u1 / us * sgn; else if (k == (int)q && step) F = 0.25 * E * (1 - al2) * s1 / ut; fsx_check_near(f(n, k) - (7 + n), side ? -F : F, TOL, "zones pull their nodes together by the traction at the end of the step"); } } bool last = r == stages - 1; for (size_t i = 0; i < 4; i++) { fsx_check_near(t.cz.internal_vars(i, 1), last ? al2 : al, TOL, "the state changes once, at the end of the step"); fsx_check_near(t.cz.internal_vars(i, 2), last ? E * (1 - al2) * u1 / us : E * (1 - al) * u0 / us, TOL, "the state changes once, at the end of the step"); fsx_check_near(t.cz.internal_vars(i, 3), last ? E * (1 - al2) * s1 / ut : E * (1 - al) * s0 / ut, TOL, "the state changes once, at the end of the step"); } for (size_t n = 0; n < t.N; n++) { bool in = false; for (size_t i = 0; i < 4; i++) in |= pr(i, 0) == n || pr(i, 1) == n; if (!in) for (int k = 0; k < 3; k++) fsx_check(f(n, k) == 7 + n, "other nodes are left alone"); } if (last) { al = al2; for (int k = 0; k < 3; k++) d[k] = e[k]; } } } fsx_cover("two steps"); }
// parameters are those of the fracture boundary; without one, or without pairs, there are no zones
FSX_ENTRY h_params() { Blocks t; int o0[3] = {0, 0, 0}, o1[3] = {1, 0, 0}, n0[3] = {1, 1, 1}; int how = fsx_choose(3, "how"); if (how == 1) o1[0] = 2; t.add(o0, n0); t.add(o1, n0); t.make(); double v[5], p[4]; for (int k = 0; k < 5; k++) v[k] = sd("parameter", 0.1, 10); for (int k = 0; k < 4; k++) p[k] = sd("branch", 0.1, 10); int np = fsx_choose(3, "branches"); if (how == 2) { SimulationParameters_t P; t.cz.initialize(t.mesh, t.S, P); BoundaryCondition_t bc; t.cz.initialize_fracture_bc(t.mesh, bc, -1); } else t.init(v[0], v[1], v[2], v[3], v[4], np, p); fsx_check(t.cz.is_ready() == (how == 0), "there are zones where a fracture boundary has pairs"); if (how) { fsx_cover("none"); return; }
  fsx_check(t.cz.E_inf == v[0] && t.cz.a1 == v[1] && t.cz.n_exp == v[2] && t.cz.u_n_star == v[3] && t.cz.u_t_star == v[4] && t.cz.num_prony_terms == np && t.cz.num_nodes == t.N, "a zone has the parameters of its boundary"); for (int j = 0; j < np; j++) fsx_check(t.cz.prony_params(j, 0) == p[2 * j] && t.cz.prony_params(j, 1) == p[2 * j + 1], "a zone has the branches of its boundary"); for (size_t i = 0; i < 4; i++) for (int j = 0; j < 4 + np; j++) fsx_check(t.cz.internal_vars(i, j) == 0 && t.cz.delta_internal_vars(i, j) == 0, "zones start without load or damage"); fsx_cover("parameters"); }
// the prescribed motion of the reorientation check: a rigid turn, with one side opening along the turned axis, and its velocity
FSX_ENTRY h_turn() { Blocks t; int o0[3] = {0, 0, 0}, o1[3] = {1, 0, 0}, n0[3] = {1, 1, 1}; t.add(o0, n0); t.add(o1, n0); t.make(); BoundaryCondition_t bc; bc.num_bcs = 3; bc.BoundaryConditionEnums = DCArrayKokkos<BoundaryConditionEnums_t>(3); CArrayKokkos<size_t> st(3); for (int i = 0; i < 3; i++) st(i) = 12; bc.velocity_bc_global_vars = RaggedRightArrayKokkos<double>(st); for (int i = 0; i < 3; i++) for (int j = 0; j < 12; j++) bc.velocity_bc_global_vars(i, j) = i + 1; int on = fsx_choose(4, "on"); for (int i = 0; i < 3; i++) bc.BoundaryConditionEnums(i).BCVelocityModel = i == 0 ? boundary_conditions::noVelocityBC : boundary_conditions::userDefinedVelocityBC; double oy = sd("omega y", -2, 2), oz = sd("omega z", -2, 2), op = sd("opening rate", 0, 2); for (int i = 1; i < 3; i++) bc.velocity_bc_global_vars(i, UserDefinedVelocityBC::BCVars::reorientation_mode) = i == on; if (on == 1 || on == 2) { auto& g = bc.velocity_bc_global_vars; g(on, UserDefinedVelocityBC::BCVars::omega_y) = oy; g(on, UserDefinedVelocityBC::BCVars::omega_z) = oz; g(on, UserDefinedVelocityBC::BCVars::cz_opening_rate) = op; g(on, UserDefinedVelocityBC::BCVars::x_interface) = 1.0; }
  t.cz.initialize_reorientation_mode(t.mesh, t.S, bc, on != 3); bool want = on == 1 || on == 2; fsx_check(t.cz.reorientation_validation_mode == want, "the check runs when a boundary asks for it"); if (!want) { fsx_cover("no check"); return; } double dt = sd("dt", 0.01, 1), time = sd("time", 0, 5); auto& z = t.cz; ReorientationKinematics::prescribe_reorientation_kinematics(t.mesh, t.S, z.initial_coords, z.cz_b_side_flag, time, dt, z.omega_y, z.omega_z, z.cz_opening_rate); D x(t.N, 3), v(t.N, 3); for (size_t n = 0; n < t.N; n++) for (int k = 0; k < 3; k++) { x(n, k) = t.S.node.coords(n, k); v(n, k) = t.S.node.vel(n, k); }
  double cy = cos(oy * time), sy = sin(oy * time), c = cos(oz * time), s = sin(oz * time); for (size_t n = 0; n < t.N; n++) { double X = t.X[3 * n] + (t.body[n] ? op * time : 0.0), Y = t.X[3 * n + 1], Z = t.X[3 * n + 2], a = cy * X + sy * Z, b = -sy * X + cy * Z; fsx_check_near(x(n, 0), c * a - s * Y, TOL, "nodes turn, and one side opens"); fsx_check_near(x(n, 1), s * a + c * Y, TOL, "nodes turn, and one side opens"); fsx_check_near(x(n, 2), b, TOL, "nodes turn, and one side opens"); }
  ReorientationKinematics::prescribe_reorientation_kinematics(t.mesh, t.S, z.initial_coords, z.cz_b_side_flag, time + dt, dt, z.omega_y, z.omega_z, z.cz_opening_rate); for (size_t n = 0; n < t.N; n++) for (int k = 0; k < 3; k++) fsx_check_near(x(n, k) + dt * v(n, k), t.S.node.coords(n, k), TOL, "nodes move to their next place in a step"); fsx_cover("turn"); }
