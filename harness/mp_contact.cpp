// Contact (apps/multiphysics/src/Solvers/SGH_solver_3D/src/contact.cpp): who touches whom, where, and what they do to each other.
#include "matar.h"
#include "ELEMENTS.h"
#include <sstream>
#include <fstream>
#include <iostream>
#include <iomanip>
#include <functional>
#include <memory>
#include <vector>
#include <map>
#define private public
#define protected public
#include "Solvers/SGH_solver_3D/src/contact.cpp"
#include "Solvers/SGH_solver_3D/src/boundary.cpp"
#include <vector>
static const double TOL = 1e-9;
static double sd(const char* n, double lo = -10, double hi = 10) { return fsx_double(n, lo, hi); }
typedef DCArrayKokkos<double> D;
static const int F3[6][4] = {{0, 4, 6, 2}, {1, 3, 7, 5}, {0, 1, 5, 4}, {3, 2, 6, 7}, {0, 2, 3, 1}, {4, 5, 7, 6}};
// a block A and an element B that only has its corner 0 (seen from face `side` of A) close to it
struct Two { swage::Mesh mesh; State_t S; contact_state_t C; size_t E, N; int ax, u, v, side; double L[3]; size_t tip, tip3 = 0; bool third = false; std::vector<std::vector<size_t>> el;
  void make(int face_) { ax = face_ / 2; side = face_ % 2; u = (ax + 1) % 3; v = (ax + 2) % 3; L[ax] = 4; L[u] = 4; L[v] = 2; E = third ? 3 : 2; N = 8 * E; for (int b = 0; b < (int)E; b++) { std::vector<size_t> e; for (int l = 0; l < 8; l++) e.push_back(8 * b + l); el.push_back(e); } mesh.initialize_nodes(N); mesh.initialize_elems(E, 3); fsx_loop_order = 0; for (size_t e = 0; e < E; e++) for (int l = 0; l < 8; l++) mesh.nodes_in_elem(e, l) = el[e][l]; mesh.initialize_corners(8 * E); mesh.build_connectivity();
    S.node.coords = D(N, 3); S.node.vel = D(N, 3); S.node.mass = D(N); S.corner.force = D(8 * E, 3); S.node.vel.set_values(0); S.corner.force.set_values(0); S.node.mass.set_values(1); int b[3] = {0, 0, 0}; b[ax] = 1 - side; tip = 8 + b[0] + 2 * b[1] + 4 * b[2]; for (int l = 0; l < 8; l++) { int q[3] = {l & 1, l >> 1 & 1, l >> 2}; for (int k = 0; k < 3; k++) { S.node.coords(l, k) = q[k] * L[k]; double y = q[k] * 1.0 + (k == u ? 2 : k == v ? 1 : side ? 4.5 : -1.5); S.node.coords(8 + l, k) = y; if (third) S.node.coords(16 + l, k) = k == ax ? q[k] * 1.0 + (side ? -1.5 : 4.5) : y; } } if (third) { b[ax] = side; tip3 = 16 + b[0] + 2 * b[1] + 4 * b[2]; } }
  void start(int li = 20, int gi = 20) { C.initialize(3, 4, mesh.bdy_patches, mesh.num_bdy_nodes, mesh.num_bdy_patches, mesh.patches_in_elem, mesh.elems_in_patch, mesh.nodes_in_elem, mesh.nodes_in_patch, mesh.bdy_nodes, mesh.num_patches, N, S.node.coords, li, gi); }
  size_t lid(size_t n) { for (size_t i = 0; i < mesh.num_bdy_nodes; i++) if (mesh.bdy_nodes(i) == n) return i; return 999; } };
// the tip anywhere near a face: it is paired with that face, at the place it projects to, exactly if it is inside
FSX_ENTRY h_find() { Two t; t.make(fsx_choose(6, "face")); int what = fsx_choose(3, "what"), in = fsx_choose(2, "in"); double p = what == 0 ? sd("p", 1, 3) : 1.75, q = what == 1 ? sd("q", 0.5, 1.5) : 0.875, d = what == 2 ? (in ? sd("depth", 0.001, 0.09) : sd("away", 0.011, 0.4)) : in ? 0.0625 : 0.25; t.S.node.coords(t.tip, t.u) = p; t.S.node.coords(t.tip, t.v) = q; t.S.node.coords(t.tip, t.ax) = t.side ? (in ? 4 - d : 4 + d) : (in ? d : -d); t.start(); auto& C = t.C; auto& m = t.mesh; size_t nb = m.num_bdy_nodes; C.nbox = CArrayKokkos<size_t>(1); C.npoint = CArrayKokkos<size_t>(1); C.nsort = CArrayKokkos<size_t>(nb); C.nbox(0) = nb; C.npoint(0) = 0; for (size_t i = 0; i < nb; i++) C.nsort(i) = m.bdy_nodes(i);
  double dt = sd("dt", 0.01, 1); size_t NP = 0; while (NP < m.num_bdy_patches && m.elems_in_patch(m.bdy_patches(NP), 0) == 0) NP++; fsx_check(NP == 6, "a block has six faces"); penetration_sweep(-10, -10, -10, C.bounding_box, t.S.node.coords, NP, C.penetration_surfaces, m.bdy_patches, 1, 1, 1, 1000, C.buckets, C.node_penetrations, C.npoint, m.num_patches, C.nbox, C.nsort, m.nodes_in_elem, m.elems_in_patch, nb, m.nodes_in_patch, C.xi, C.eta, 10, 10, 10, C.num_active, m.elems_in_node, m.num_nodes_in_elem, m.patches_in_elem, C.node_patch_pairs, m.num_elems, C.pair_vars, dt, C.active_set, fsx_choose(2, "preload"));
  fsx_check(C.num_active(0) == (size_t)in, "a node inside another block, and no other, is in contact"); if (!in) { fsx_cover("away"); return; } size_t id = t.lid(t.tip); fsx_check(C.active_set(0) == id, "the node inside is the one in contact"); fsx_check(C.node_patch_pairs.stride(id) == 1, "a node in one element is in contact with one face"); size_t pl = C.node_patch_pairs(id, 0); fsx_check(pl < m.num_bdy_patches, "a node is in contact with a face"); size_t g = m.bdy_patches(pl); double at[3] = {0, 0, 0}; for (int k = 0; k < 4; k++) { size_t n = m.nodes_in_patch(g, k); fsx_check(n < 8 && t.S.node.coords(n, t.ax) == 4.0 * t.side, "the face is the one the node went through"); fsx_check(m.bdy_nodes(C.contact_surface_map(pl, k)) == n, "a face has its own nodes"); for (int j = 0; j < 3; j++) at[j] += t.S.node.coords(n, j) * 0.25 * (1 + (k == 1 || k == 2 ? 1 : -1) * C.pair_vars(id, 0)) * (1 + (k > 1 ? 1 : -1) * C.pair_vars(id, 1)); }
  fsx_check_near(at[t.u], p, TOL, "the node touches the face where it projects to"); fsx_check_near(at[t.v], q, TOL, "the node touches the face where it projects to"); for (int k = 0; k < 3; k++) fsx_check_near(C.pair_vars(id, 3 + k), k == t.ax ? (t.side ? 1.0 : -1.0) : 0.0, TOL, "contact pushes outwards from the face"); fsx_check(C.pair_vars(id, 6) == 0 && C.pair_vars(id, 7) == 0, "contact starts without force"); fsx_cover("inside"); }
// forces of one pair: equal and opposite, in the shares of the point touched, along the normal, never pulling
FSX_ENTRY h_share() { CArrayKokkos<double> xi(4), eta(4), F(7, 3), pv(8); CArrayKokkos<size_t> np(7), map(4); const int ord[4] = {5, 2, 6, 0}; for (int k = 0; k < 4; k++) { xi(k) = k == 1 || k == 2 ? 1 : -1; eta(k) = k > 1 ? 1 : -1; map(k) = ord[k]; } size_t id = 3; double f0[7][3]; for (int i = 0; i < 7; i++) for (int k = 0; k < 3; k++) F(i, k) = f0[i][k] = i == 4 ? 3 : sd("force", -10, 10); for (int k = 0; k < 3; k++) pv(k) = sd(k == 0 ? "xi" : k == 1 ? "eta" : "dt", -1.5, 1.5); for (int k = 0; k < 3; k++) pv(3 + k) = sd("normal", -1, 1); double inc = pv(6) = sd("increment"), tot = pv(7) = sd("total", 0, 10), cor = sd("correction"), x = pv(0), e = pv(1); ViewCArrayKokkos<double> P(&pv(0), 8); ViewCArrayKokkos<size_t> M(&map(0), 4);
  distribute_frictionless_force(P, id, M, xi, eta, F, np, cor); double f = 0.2 * (inc + cor); bool off = f + tot < 0 || x > 1.01 || x < -1.01 || e > 1.01 || e < -1.01; double g = off ? -tot : f; if (off) { fsx_check(pv(7) == 0 && pv(6) == 0, "a pair that would pull or left its face lets go"); fsx_cover("released"); } else { fsx_check_near(pv(7), tot + f, TOL, "a pair knows its force"); fsx_cover("pushed"); } fsx_check(pv(7) >= 0, "contact never pulls"); for (int k = 0; k < 3; k++) { fsx_check_near(F(3, k), f0[3][k] + g * pv(3 + k), TOL, "the node is pushed along the normal"); for (int j = 0; j < 4; j++) fsx_check_near(F(ord[j], k), f0[ord[j]][k] - g * pv(3 + k) * 0.25 * (1 + xi(j) * x) * (1 + eta(j) * e), TOL, "the face is pushed back in the shares of the point touched"); fsx_check(F(1, k) == f0[1][k] && F(4, k) == 3.0, "other nodes are left alone"); } }
// a whole step: the tip in the middle of a face, with any speed and force: nothing when it leaves, otherwise as much as closes the gap
static void push(int gi) { fsx_tidy(30); Two t; t.make(fsx_choose(6, "face")); double d = 0.0625; t.S.node.coords(t.tip, t.u) = 2; t.S.node.coords(t.tip, t.v) = 1; double sg = t.side ? 1 : -1; t.S.node.coords(t.tip, t.ax) = t.side ? 4 - d : d; t.start(20, gi); double dt = 0.5, Mt = fsx_choose(2, "mass") ? 2.0 : 0.5, V = sd("speed", -2, 2), fo = fsx_choose(2, "load") ? sd("load", -1, 1) : 0.0; t.S.node.mass(t.tip) = Mt; t.S.node.vel(t.tip, t.ax) = V * sg; t.S.corner.force(t.tip, t.ax) = fo * sg; SGH3D* s = (SGH3D*)calloc(1, sizeof(SGH3D)); s->boundary_contact_force(t.S, t.mesh, dt, t.C); auto& f = t.C.contact_force; double tot[3] = {0, 0, 0}; for (size_t n = 0; n < t.N; n++) for (int k = 0; k < 3; k++) tot[k] += f(n, k); for (int k = 0; k < 3; k++) fsx_check_near(tot[k], 0.0, 1e-7, "contact forces add up to nothing");
  double gap = -d + V * dt + 0.5 * fo / Mt * dt * dt, K = 0.5 * dt * dt * (1 / Mt + 0.25), full = -gap / K, R = 1; for (int i = 0; i < gi; i++) R *= 0.8; if (full <= 0) { for (size_t n = 0; n < t.N; n++) for (int k = 0; k < 3; k++) fsx_check_near(f(n, k), 0.0, 1e-7, "contact does not pull"); fsx_cover("leaves"); return; }
  for (size_t n = 0; n < t.N; n++) for (int k = 0; k < 3; k++) { bool on = n < 8 && t.S.node.coords(n, t.ax) == 4.0 * t.side; double w = k != t.ax ? 0.0 : n == t.tip ? sg : on ? -0.25 * sg : 0.0; fsx_check_near(f(n, k), w * full * (1 - R), 1e-6, "contact closes the gap along the normal, up to what its iterations leave"); } fsx_cover("pushed"); }
FSX_ENTRY h_push() { push(2); }
// two tips in opposite faces at once: each pair as if it were alone
FSX_ENTRY h_pairs() { fsx_tidy(30); Two t; t.third = true; t.make(fsx_choose(6, "face")); double d[2] = {0.0625, 0.03125}, V[2] = {sd("speed", -2, 2), fsx_choose(2, "other") ? -0.5 : 0.5}, dt = 0.5; size_t tip[2] = {t.tip, t.tip3}; for (int i = 0; i < 2; i++) { int side = i ? 1 - t.side : t.side; t.S.node.coords(tip[i], t.u) = 2; t.S.node.coords(tip[i], t.v) = 1; t.S.node.coords(tip[i], t.ax) = side ? 4 - d[i] : d[i]; t.S.node.vel(tip[i], t.ax) = V[i] * (side ? 1 : -1); } t.start(20, 2); SGH3D* s = (SGH3D*)calloc(1, sizeof(SGH3D)); s->boundary_contact_force(t.S, t.mesh, dt, t.C); auto& f = t.C.contact_force; double full[2]; for (int i = 0; i < 2; i++) { double gap = -d[i] + V[i] * dt; full[i] = gap < 0 ? -gap / (0.5 * dt * dt * 1.25) * (1 - 0.8 * 0.8) : 0; }
  for (size_t n = 0; n < t.N; n++) for (int k = 0; k < 3; k++) { double w = 0; if (k == t.ax) for (int i = 0; i < 2; i++) { int side = i ? 1 - t.side : t.side; double sg = side ? 1 : -1; if (n == tip[i]) w += sg * full[i]; if (n < 8 && t.S.node.coords(n, t.ax) == 4.0 * side) w -= 0.25 * sg * full[i]; } fsx_check_near(f(n, k), w, 1e-6, "every pair closes its own gap"); } fsx_cover(full[0] > 0 && full[1] > 0 ? "both" : "not both"); }
// boxes: every boundary node is in exactly one bucket, that of its place
FSX_ENTRY h_sort() { Two t; t.make(fsx_choose(6, "face")); double far = fsx_choose(2, "shift") ? 3.0 : -2.25; for (size_t n = 0; n < t.N; n++) for (int k = 0; k < 3; k++) t.S.node.coords(n, k) += far * (k + 1); t.start(); auto& C = t.C; double v = sd("speed"); t.S.node.vel(3, 1) = v; auto& m = t.mesh; sort(t.S.node.coords, m.num_bdy_nodes, m.bdy_nodes, t.S.node.vel, m.num_corners_in_node, m.corners_in_node, t.S.corner.force, C.contact_forces, t.S.node.mass, C.x_max, C.y_max, C.z_max, C.x_min, C.y_min, C.z_min, C.vx_max, C.vy_max, C.vz_max, C.ax_max, C.ay_max, C.az_max, C.Sx, C.Sy, C.Sz, C.bucket_size, C.nbox, C.lbox, C.nsort, C.npoint);
  double lo[3], hi[3]; for (int k = 0; k < 3; k++) { lo[k] = 1e9; hi[k] = -1e9; for (size_t n = 0; n < t.N; n++) { lo[k] = fmin(lo[k], t.S.node.coords(n, k)); hi[k] = fmax(hi[k], t.S.node.coords(n, k)); } } fsx_check(C.x_min == lo[0] && C.y_min == lo[1] && C.z_min == lo[2] && C.x_max == hi[0] && C.y_max == hi[1] && C.z_max == hi[2], "the boxes cover the boundary"); size_t S[3] = {C.Sx, C.Sy, C.Sz}, nb = S[0] * S[1] * S[2], all = 0; for (size_t n = 0; n < t.N; n++) { size_t b[3]; for (int k = 0; k < 3; k++) { b[k] = (size_t)floor((t.S.node.coords(n, k) - lo[k]) / C.bucket_size); fsx_check(b[k] < S[k], "every node has a box"); } size_t B = (b[2] * S[1] + b[1]) * S[0] + b[0]; int seen = 0; for (size_t i = 0; i < C.nbox(B); i++) seen += C.nsort(C.npoint(B) + i) == n; fsx_check(seen == 1, "a box lists its nodes once"); } for (size_t b = 0; b < nb; b++) all += C.nbox(b); fsx_check(all == t.N, "every node is in one box"); fsx_cover("boxes"); }
