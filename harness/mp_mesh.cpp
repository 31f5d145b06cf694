// Multiphysics mesh generation (apps/multiphysics/src/common/include/mesh_io.hpp MeshBuilder, PointIndexFromIJK).
#include "matar.h"
#include "ELEMENTS.h"
using namespace mtr;
#include "common/include/mesh_io.hpp"
static const double TOL = 1e-9;
static double sd(const char* n, double lo = -10, double hi = 10) { return fsx_double(n, lo, hi); }
// box meshes: nodes on the lattice, every cell once, every node once
static void box(int d) { int N[3] = {1, 1, 1}; for (int k = 0; k < d; k++) N[k] = 1 + fsx_choose(d == 3 ? 3 : 4, "elems"); swage::Mesh m; GaussPoint_t g; node_t node; corner_t c; SimulationParameters_t P; double o[3] = {0}, L[3] = {0}; P.mesh_input.num_dims = d; P.mesh_input.type = mesh_input::Box; for (int k = 0; k < d; k++) { o[k] = P.mesh_input.origin[k] = sd("origin"); L[k] = P.mesh_input.length[k] = sd("length", 0.1, 10); P.mesh_input.num_elems[k] = N[k]; }
  MeshBuilder b; b.build_mesh(m, g, node, c, P); size_t NN = d == 3 ? 8 : 4, want = 1, cells = 1; for (int k = 0; k < d; k++) { want *= N[k] + 1; cells *= N[k]; } fsx_check(m.num_nodes == want && m.num_elems == cells && (int)m.num_dims == d && m.num_corners == cells * NN, "a box has its nodes and elements");
  auto at = [&](size_t n, int k) { size_t s = 1; for (int i = 0; i < k; i++) s *= N[i] + 1; return n / s % (N[k] + 1); }; for (size_t n = 0; n < want; n++) for (int k = 0; k < d; k++) { double x = o[k] + (double)at(n, k) * (L[k] / (double)N[k]); fsx_check_near(node.coords.host(n, k), x, TOL, "nodes lie evenly spaced from the origin"); fsx_check_near(node.coords(n, k), x, TOL, "the device sees the nodes"); }
  std::vector<int> seen(cells, 0); for (size_t e = 0; e < cells; e++) { size_t low[3] = {0, 0, 0}, n0 = m.nodes_in_elem.host(e, 0); fsx_check(n0 < want, "elements name nodes of the mesh"); size_t cell = 0, s = 1; for (int k = 0; k < d; k++) { low[k] = at(n0, k); fsx_check((int)low[k] < N[k], "an element starts at its lowest node"); cell += s * low[k]; s *= N[k]; } seen[cell]++; for (size_t l = 0; l < NN; l++) { size_t n = m.nodes_in_elem.host(e, l); fsx_check(n < want && m.nodes_in_elem(e, l) == n, "elements name nodes of the mesh"); int off[3] = {(int)(l & 1), (int)(l >> 1 & 1), (int)(l >> 2 & 1)}; if (d == 2) { off[0] = l == 1 || l == 2; off[1] = l >= 2; } for (int k = 0; k < d; k++) fsx_check(at(n, k) == low[k] + off[k], "an element has its nodes in order"); } }
  for (int x : seen) fsx_check(x == 1, "every cell is one element"); size_t cn = 0; for (size_t n = 0; n < want; n++) cn += m.num_corners_in_node(n); fsx_check(cn == cells * NN, "the connectivity is built"); fsx_cover("box"); }
FSX_ENTRY h_box2() { box(2); }
FSX_ENTRY h_box3() { box(3); }
// polar meshes: rings and rays; nodes below the axis are refused, nothing else
static void polar(int nr, int na, int range, bool up) { static const double A[6][2] = {{0, 90}, {0, 180}, {30, 75}, {-30, 60}, {90, 200}, {15, 15.5}}; swage::Mesh m; GaussPoint_t g; node_t node; corner_t c; SimulationParameters_t P; double a = A[range][0], z = A[range][1], r0 = sd("inner", 0.1, 2), r1 = sd("outer", 2.5, 10), o[2] = {sd("x"), up ? 20.0 : 0.0}; P.mesh_input.num_dims = 2; P.mesh_input.type = mesh_input::Polar; P.mesh_input.inner_radius = r0; P.mesh_input.outer_radius = r1; P.mesh_input.starting_angle = a; P.mesh_input.ending_angle = z; P.mesh_input.num_radial_elems = nr; P.mesh_input.num_angular_elems = na; for (int k = 0; k < 2; k++) P.mesh_input.origin[k] = o[k];
  bool bad = !up && (a < -1 || z > 181), threw = false; MeshBuilder b; try { b.build_mesh(m, g, node, c, P); } catch (std::runtime_error&) { threw = true; } fsx_check(threw == bad, "a polar mesh is refused only if it reaches below the axis"); if (threw) { fsx_cover("refused"); return; } fsx_cover("polar");
  size_t nn = (nr + 1) * (na + 1); fsx_check(m.num_nodes == nn && m.num_elems == (size_t)nr * na && m.num_corners == 4 * m.num_elems, "a polar mesh has its nodes and elements"); for (int j = 0; j <= na; j++) for (int i = 0; i <= nr; i++) { double r = r0 + (double)i * ((r1 - r0) / (double)nr), t = (a + (double)j * ((z - a) / (double)na)) * PI / 180.0; size_t n = i + j * (nr + 1); fsx_check_near(node.coords.host(n, 0), o[0] + r * cos(t), 1e-8, "nodes lie on rings and rays"); fsx_check_near(node.coords.host(n, 1), o[1] + r * sin(t), 1e-8, "nodes lie on rings and rays"); }
  for (size_t e = 0; e < m.num_elems; e++) { size_t i = e % nr, j = e / nr, w[4] = {i + j * (nr + 1), i + 1 + j * (nr + 1), i + 1 + (j + 1) * (nr + 1), i + (j + 1) * (nr + 1)}; for (int l = 0; l < 4; l++) fsx_check(m.nodes_in_elem.host(e, l) == w[l], "elements turn counter-clockwise around their cell"); } }
FSX_ENTRY h_polar() { polar(1 + fsx_choose(3, "radial"), 1 + fsx_choose(3, "angular"), fsx_choose(6, "range"), fsx_choose(2, "up")); }
FSX_ENTRY h_polar_fine() { static const int N[3] = {25, 41, 50}; polar(1, N[fsx_choose(3, "angular")], fsx_choose(2, "range"), false); }
FSX_ENTRY h_dims() { swage::Mesh m; GaussPoint_t g; node_t node; corner_t c; SimulationParameters_t P; int d = fsx_choose(5, "dims"), t = fsx_choose(2, "type"); P.mesh_input.num_dims = d; P.mesh_input.type = t ? mesh_input::Polar : mesh_input::Box; for (int k = 0; k < 3; k++) { P.mesh_input.origin[k] = 0; P.mesh_input.length[k] = 1; P.mesh_input.num_elems[k] = 1; } P.mesh_input.num_radial_elems = P.mesh_input.num_angular_elems = 1; P.mesh_input.inner_radius = 1; P.mesh_input.outer_radius = 2; P.mesh_input.starting_angle = 0; P.mesh_input.ending_angle = 45; bool threw = false; try { MeshBuilder b; b.build_mesh(m, g, node, c, P); } catch (std::runtime_error&) { threw = true; } fsx_check(threw == (d != 2 && d != 3), "only meshes in two and three dimensions are built"); if (!threw) fsx_check((int)m.num_dims == d && m.num_nodes == (d == 2 ? 4u : 8u), "the mesh has the dimensions asked for"); fsx_cover(threw ? "dims refused" : "dims"); }
// the point order of VTK's Lagrange hexahedra is a bijection that puts corners, edges, faces and the body in their blocks
FSX_ENTRY h_lagrange() { int o[3]; for (int k = 0; k < 3; k++) o[k] = 1 + fsx_choose(fsx_param("order", 3), "order"); auto idx = [&](const char* n, int k) { return (int)fsx_int(n, 32, 0, o[k]); }; int i = idx("i", 0), j = idx("j", 1), k = idx("k", 2), a = idx("i'", 0), b = idx("j'", 1), c = idx("k'", 2); int p = PointIndexFromIJK(i, j, k, o), q = PointIndexFromIJK(a, b, c, o); int total = (o[0] + 1) * (o[1] + 1) * (o[2] + 1); fsx_check(p >= 0 && p < total, "point numbers are in range"); fsx_check(p != q || (i == a && j == b && k == c), "no two points share a number"); int nb = (i == 0 || i == o[0]) + (j == 0 || j == o[1]) + (k == 0 || k == o[2]), ne = 4 * (o[0] + o[1] + o[2] - 3), nf = 2 * ((o[0] - 1) * (o[1] - 1) + (o[1] - 1) * (o[2] - 1) + (o[2] - 1) * (o[0] - 1));
  int lo = nb == 3 ? 0 : nb == 2 ? 8 : nb == 1 ? 8 + ne : 8 + ne + nf, hi = nb == 3 ? 8 : nb == 2 ? 8 + ne : nb == 1 ? 8 + ne + nf : total; fsx_check(p >= lo && p < hi, "corners come first, then edges, faces and the body"); if (nb == 3) { int w = (j ? (i ? 2 : 3) : (i ? 1 : 0)) + (k ? 4 : 0); fsx_check(p == w, "corners turn around the bottom, then the top"); } fsx_cover("lagrange"); }
