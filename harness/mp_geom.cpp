// Multiphysics geometry: volumes, corner normals, areas, boundary sets (apps/multiphysics/src/common/src/geometry_new.cpp).
#include "matar.h"
#include "ELEMENTS.h"
using namespace mtr;
#include "geometry_new.cpp"
static const double TOL = 1e-9;
static double sd(const char* n, double lo = -10, double hi = 10) { return fsx_double(n, lo, hi); }
typedef double V3[3];
// volume under one bilinear face: the flux of x/3 through it, by Simpson's rule (exact for its polynomial degree)
static double face_flux(const V3* x, int a, int b, int c, int d) { double s = 0; static const double w[3] = {1. / 6, 4. / 6, 1. / 6};
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double u = i * 0.5, v = j * 0.5, r[3], ru[3], rv[3];
    for (int k = 0; k < 3; k++) { r[k] = (1 - u) * (1 - v) * x[a][k] + u * (1 - v) * x[b][k] + u * v * x[c][k] + (1 - u) * v * x[d][k]; ru[k] = (1 - v) * (x[b][k] - x[a][k]) + v * (x[c][k] - x[d][k]); rv[k] = (1 - u) * (x[d][k] - x[a][k]) + u * (x[c][k] - x[b][k]); }
    s += w[i] * w[j] * (r[0] * (ru[1] * rv[2] - ru[2] * rv[1]) + r[1] * (ru[2] * rv[0] - ru[0] * rv[2]) + r[2] * (ru[0] * rv[1] - ru[1] * rv[0])); }
  return s / 3; }
static double hex_volume(const V3* x) { return face_flux(x, 0, 4, 6, 2) + face_flux(x, 1, 3, 7, 5) + face_flux(x, 0, 1, 5, 4) + face_flux(x, 3, 2, 6, 7) + face_flux(x, 0, 2, 3, 1) + face_flux(x, 4, 5, 7, 6); }
// one element whose nodes are a permuted subset of a larger node table
struct One { DCArrayKokkos<double> xc; size_t g[8]; V3 x[8]; ViewCArrayKokkos<size_t> gids; DCArrayKokkos<double> vol; int nn;
  One(int dims) : xc(9, dims), nn(dims == 3 ? 8 : 4), vol(2) { gids = ViewCArrayKokkos<size_t>(g, nn); for (int i = 0; i < 9; i++) for (int d = 0; d < dims; d++) xc(i, d) = 1000 + i;
    for (int i = 0; i < nn; i++) { g[i] = (2 * i + 1) % 9; if (nn == 8) g[i] = 8 - i; for (int d = 0; d < dims; d++) xc(g[i], d) = x[i][d] = sd("x"); } } };
FSX_ENTRY h_hex_vol() { One o(3); o.vol(0) = o.vol(1) = 7; geometry::get_vol_hex(o.vol, 1, o.xc, o.gids); double v = hex_volume(o.x); 
  if (o.vol(1) == 1.0E-14) { fsx_cover("flat or inverted"); if (fsx_realmode()) fsx_check(v <= 1.0E-9, "only a hexahedron without volume is given the minimal volume"); } else { fsx_cover("volume"); fsx_check_near(o.vol(1), v, TOL, "hexahedron volume is exact"); }
  fsx_check(o.vol(0) == 7, "only the element's own volume is written"); }
FSX_ENTRY h_hex_bmat() { One o(3); double b_[24]; for (double& b : b_) b = 5; ViewCArrayKokkos<double> B(b_, 8, 3); geometry::get_bmatrix(B, 0, o.xc, o.gids);
  for (int d = 0; d < 3; d++) { double s = 0; for (int p = 0; p < 8; p++) s += B(p, d); fsx_check_near(s, 0, TOL, "corner normals of an element sum to zero"); }
  double t = 0; for (int p = 0; p < 8; p++) for (int d = 0; d < 3; d++) t += B(p, d) * o.x[p][d]; fsx_check_near(t, 3 * hex_volume(o.x), TOL, "corner normals dotted with positions give three volumes");
  int p = fsx_choose(8, "node"), d = fsx_choose(3, "dim"); double v0 = hex_volume(o.x); o.x[p][d] += 1; double v1 = hex_volume(o.x); fsx_check_near(B(p, d), v1 - v0, TOL, "a corner normal is the volume's derivative with respect to the node position"); fsx_cover("bmatrix"); }
static double quad_area(const V3* x) { double s = 0; for (int i = 0; i < 4; i++) { int j = (i + 1) % 4; s += 0.5 * (x[i][0] * x[j][1] - x[j][0] * x[i][1]); } return s; }
static double quad_moment(const V3* x) { double s = 0; for (int i = 0; i < 4; i++) { int j = (i + 1) % 4; s += (x[i][1] + x[j][1]) * (x[i][0] * x[j][1] - x[j][0] * x[i][1]) / 6; } return s; }   // integral of y over the polygon
FSX_ENTRY h_quad() { One o(2); o.vol(0) = o.vol(1) = 7; geometry::get_vol_quad(o.vol, 1, o.xc, o.gids); double m = quad_moment(o.x); fsx_check(o.vol(0) == 7, "only the element's own volume is written");
  if (o.vol(1) == 1.0E-14) { fsx_cover("flat or inverted"); if (fsx_realmode()) fsx_check(m <= 1.0E-9, "only a quadrilateral without volume is given the minimal volume"); } else { fsx_cover("volume"); fsx_check_near(o.vol(1), m, TOL, "volume of revolution per radian is exact"); }
  fsx_check_near(geometry::get_area_quad(1, o.xc, o.gids), quad_area(o.x), TOL, "quadrilateral area is exact");
  double b_[8]; for (double& b : b_) b = 5; ViewCArrayKokkos<double> B(b_, 4, 2); geometry::get_bmatrix2D(B, 1, o.xc, o.gids);
  for (int d = 0; d < 2; d++) { double s = 0; for (int p = 0; p < 4; p++) s += B(p, d); fsx_check_near(s, 0, TOL, "corner normals of an element sum to zero"); }
  for (int p = 0; p < 4; p++) for (int d = 0; d < 2; d++) { double a0 = quad_area(o.x); o.x[p][d] += 1; double a1 = quad_area(o.x); o.x[p][d] -= 1; fsx_check_near(B(p, d), a1 - a0, TOL, "a corner normal is the area's derivative with respect to the node position"); } }
// every element of a mesh gets its own volume, from its own nodes
FSX_ENTRY h_mesh_vol() { int dims = 2 + fsx_choose(2, "dims"); swage::Mesh m; swage::fsx_block(m, dims, 2, dims == 3 ? 1 : 2, 1); fsx_loop_order = fsx_choose(2, "order"); DCArrayKokkos<double> xc(m.num_nodes, dims), vol(m.num_elems);
  for (size_t n = 0; n < m.num_nodes; n++) for (int d = 0; d < dims; d++) xc(n, d) = ((n / (d == 0 ? 1 : d == 1 ? 3 : 6)) % (d == 0 ? 3 : d == 1 && dims == 2 ? 3 : 2)) * (d + 1.0) + 1; 
  size_t k = fsx_choose((int)m.num_nodes, "node"); for (int d = 0; d < dims; d++) xc(k, d) += sd("shift", -0.1, 0.1);
  geometry::get_vol(vol, xc, m); for (size_t e = 0; e < m.num_elems; e++) { V3 x[8]; for (size_t l = 0; l < m.num_nodes_in_elem; l++) for (int d = 0; d < dims; d++) x[l][d] = xc(m.nodes_in_elem(e, l), d); fsx_check_near(vol(e), dims == 3 ? hex_volume(x) : quad_moment(x), TOL, "every element has the volume of its own nodes"); } fsx_cover(dims == 3 ? "3D" : "RZ"); }
// corner areas of a convex quadrilateral: five twelfths of the two triangles at the corner and one twelfth of the others, summing to the area
FSX_ENTRY h_area_weights() { double a = sd("a", 0.1, 5), b = sd("b", 0.1, 5), x0 = sd("x0", -5, 5), y0 = sd("y0", -5, 5); DCArrayKokkos<double> xc(4, 2); static const int X[4] = {0, 1, 1, 0}, Y[4] = {0, 0, 1, 1}; size_t g[4] = {0, 1, 2, 3}; int r = fsx_choose(4, "first");
  for (int i = 0; i < 4; i++) { xc(i, 0) = x0 + a * X[(i + r) % 4]; xc(i, 1) = y0 + b * Y[(i + r) % 4]; } ViewCArrayKokkos<size_t> gid(g, 4); double c_[4]; ViewCArrayKokkos<double> ca(c_, 4); geometry::get_area_weights2D(ca, 0, xc, gid);
  for (int i = 0; i < 4; i++) fsx_check_near(ca(i), a * b / 4, 1e-7, "a rectangle's corner areas are a quarter each"); fsx_cover("weights"); }
FSX_ENTRY h_heron() { double x[6]; for (double& v : x) v = sd("x"); double t = (x[2] - x[0]) * (x[5] - x[1]) - (x[4] - x[0]) * (x[3] - x[1]); double A = geometry::heron(x[0], x[1], x[2], x[3], x[4], x[5]); fsx_check_near(A * A * 4, t * t, 1e-7, "triangle area"); fsx_check(A >= 0, "an area is not negative"); fsx_cover("heron"); }
