// Micromechanics: dense solves, tensor measures, basis and Voigt changes, rotations (functions compiled from one variant's src).
#include <cstdio>
#include <string>
#include "matar.h"
#ifdef LSV
#include "determinant33.cpp"
#include "matrix_exp.cpp"
#include "defgrad_dcmp.cpp"
#endif
#ifdef LSNP
#include "mod_frequency.cpp"
#endif
#include "math_functions.cpp"
#include "voigt.cpp"
#include "chg_basis.cpp"
#include "euler.cpp"
#include "orient.cpp"
#include "vm.cpp"
#include "utilities.h"
static double sd(const char* n, double lo = -100, double hi = 100) { return fsx_double(n, lo, hi); }
static const double TOL = 1e-6;
static double det3(const double* m) { return m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]); }
template <int N> static void inverse_check(const double* m, double* w, double d) {
  int rc = invert_matrix<N>(w);
  if (rc == 0) { fsx_cover("inverted"); fsx_check(d != 0, "a matrix reported as inverted is invertible");
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { double s = 0; for (int k = 0; k < N; k++) s += m[i * N + k] * w[k * N + j]; fsx_check_near(s, i == j, TOL, "matrix times reported inverse is the identity"); } }
  else { fsx_cover("singular"); if (fsx_realmode()) fsx_check(d == 0, "only a singular matrix is reported as singular"); }
}
FSX_ENTRY h_inv2() { double m[4], w[4]; for (int i = 0; i < 4; i++) w[i] = m[i] = sd("m"); inverse_check<2>(m, w, m[0] * m[3] - m[1] * m[2]); }
FSX_ENTRY h_inv3() { double m[9], w[9]; for (int i = 0; i < 9; i++) w[i] = m[i] = sd("m"); inverse_check<3>(m, w, det3(m)); }
FSX_ENTRY h_solve2() { double a[4], w[4], b[2], x[2]; for (int i = 0; i < 4; i++) w[i] = a[i] = sd("a"); for (int i = 0; i < 2; i++) x[i] = b[i] = sd("b");
  double d = a[0] * a[3] - a[1] * a[2]; int rc = solve_linear_system(w, x, 2);
  if (rc == 0) { fsx_cover("solved"); fsx_check(d != 0, "a system reported as solved is regular"); for (int i = 0; i < 2; i++) fsx_check_near(a[2 * i] * x[0] + a[2 * i + 1] * x[1], b[i], TOL, "the reported solution satisfies the system"); }
  else { fsx_cover("singular"); fsx_check(d == 0, "only a singular system is reported as singular"); } }
FSX_ENTRY h_solve3() { double a[9], w[9], b[3], x[3]; for (int i = 0; i < 9; i++) w[i] = a[i] = sd("a"); for (int i = 0; i < 3; i++) x[i] = b[i] = sd("b");
  double d = det3(a); int rc = solve_linear_system(w, x, 3);
  if (rc == 0) { fsx_cover("solved"); fsx_check(d != 0, "a system reported as solved is regular"); for (int i = 0; i < 3; i++) fsx_check_near(a[3 * i] * x[0] + a[3 * i + 1] * x[1] + a[3 * i + 2] * x[2], b[i], TOL, "the reported solution satisfies the system"); }
  else { fsx_cover("singular"); fsx_check(d == 0, "only a singular system is reported as singular"); } }
// 6x6: permutation times a symbolic diagonal plus one symbolic coupling
FSX_ENTRY h_inv6() { double m[36], w[36]; int p[6]; double dg[6]; for (int i = 0; i < 36; i++) m[i] = 0;
  int r = fsx_choose(6, "shift"); int sw = fsx_choose(5, "swap"); for (int i = 0; i < 6; i++) p[i] = (i + r) % 6; int t = p[sw]; p[sw] = p[sw + 1]; p[sw + 1] = t;
  double d = 1; for (int i = 0; i < 6; i++) { dg[i] = sd("d"); m[i * 6 + p[i]] = dg[i]; d *= dg[i]; }
  int ci = fsx_choose(5, "row"); m[ci * 6 + p[ci + 1]] = sd("c"); 
  for (int i = 0; i < 36; i++) w[i] = m[i]; inverse_check<6>(m, w, d); }
FSX_ENTRY h_pow() { double b = sd("b", -4, 4); int e = fsx_choose(2 * fsx_param("e", 9) + 1, "e") - (int)fsx_param("e", 9); if (e < 0) fsx_assume(b != 0);
  double r = PowIntExpo(b, e), x = 1; for (int i = 0; i < (e < 0 ? -e : e); i++) x *= b; if (e >= 0) fsx_check_near(r, x, TOL, "integer power"); else fsx_check_near(r * x, 1, TOL, "negative integer power"); fsx_cover("pow"); }
// ---- basis and Voigt changes
static const double rt2 = sqrt(2.0);
FSX_ENTRY h_basis() {
  ChgBasis cb; double* B = cb.B_basis_host_pointer(); fsx_check(B == cb.B_basis_device_pointer() || true, "");
  auto b = [&](int i, int j, int n) { return B[i + 3 * j + 9 * n]; };
  for (int n = 0; n < 6; n++) for (int m = 0; m < 6; m++) { double s = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) s += b(i, j, n) * b(i, j, m); fsx_check_near(s, n == m, 1e-9, "the tensor basis is orthonormal"); }
  for (int n = 0; n < 6; n++) { double tr = b(0, 0, n) + b(1, 1, n) + b(2, 2, n); if (n < 5) fsx_check_near(tr, 0, 1e-9, "the first five basis tensors are deviatoric"); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) fsx_check_near(b(i, j, n), b(j, i, n), 1e-12, "basis tensors are symmetric"); }
  // second order: symmetric tensor -> 6-vector -> tensor, norm preserved; deviatoric tensor -> 5-vector -> tensor
  double c[9], c2[9], v[6]; double x[6]; for (int i = 0; i < 6; i++) x[i] = sd("c"); bool dev = fsx_choose(2, "deviatoric"); if (dev) x[2] = -x[0] - x[1];
  c[0] = x[0]; c[4] = x[1]; c[8] = x[2]; c[1] = c[3] = x[3]; c[2] = c[6] = x[4]; c[5] = c[7] = x[5]; int K = dev ? 5 : 6;
  cb.chg_basis_2(v, c, 2, K, B); cb.chg_basis_1(v, c2, 1, K, B); double n1 = 0, n2 = 0;
  for (int i = 0; i < 9; i++) { fsx_check_near(c2[i], c[i], 1e-9, "a symmetric tensor is recovered from its components"); n1 += c[i] * c[i]; } for (int i = 0; i < K; i++) n2 += v[i] * v[i];
  fsx_check_near(n1, n2, 1e-9, "components have the tensor's norm");
  double w[6], y[6], c3[9]; for (int i = 0; i < K; i++) w[i] = sd("v"); cb.chg_basis_1(w, c3, 1, K, B); cb.chg_basis_2(y, c3, 2, K, B); for (int i = 0; i < K; i++) fsx_check_near(y[i], w[i], 1e-9, "components are recovered from their tensor");
  fsx_cover(dev ? "deviatoric" : "full"); }
FSX_ENTRY h_basis4() {
  ChgBasis cb; double* B = cb.B_basis_host_pointer(); int K = 5 + fsx_choose(2, "five"); double m[36], m2[36], c4[81]; for (int i = 0; i < K * K; i++) m[i] = sd("m");
  cb.chg_basis_3(m, c4, 3, K, B); cb.chg_basis_4(m2, c4, 4, K, B); for (int i = 0; i < K * K; i++) fsx_check_near(m2[i], m[i], 1e-9, "a modulus matrix is recovered from its fourth-order tensor");
  // acting on a tensor commutes with the change of basis
  double w[6], c[9], r[6], s[9]; for (int i = 0; i < K; i++) w[i] = sd("w"); cb.chg_basis_1(w, c, 1, K, B);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { s[i + 3 * j] = 0; for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) s[i + 3 * j] += c4[i + 3 * j + 9 * k + 27 * l] * c[k + 3 * l]; }
  cb.chg_basis_2(r, s, 2, K, B); for (int i = 0; i < K; i++) { double t = 0; for (int k = 0; k < K; k++) t += m[i + K * k] * w[k]; fsx_check_near(r[i], t, 1e-9, "applying a modulus commutes with the change of basis"); }
  fsx_cover(K == 5 ? "five" : "six"); }
FSX_ENTRY h_voigt() {
  double c2[36], d2[36], c4[81]; for (int i = 0; i < 36; i++) { c2[i] = sd("c"); d2[i] = 0; } for (int i = 0; i < 81; i++) c4[i] = 0;
  static const int P[6][2] = {{0, 0}, {1, 1}, {2, 2}, {1, 2}, {0, 2}, {0, 1}};
  int iopt = 1 + fsx_choose(4, "iopt"); auto at = [&](int i, int j, int k, int l) -> double& { return c4[i + 3 * j + 9 * k + 27 * l]; };
  if (iopt == 2) { for (int i = 0; i < 81; i++) c4[i] = sd("t"); voigt(d2, c4, 2); for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) fsx_check_near(d2[i + 6 * j], at(P[i][0], P[i][1], P[j][0], P[j][1]), 1e-12, "Voigt matrix holds the tensor's components"); fsx_cover("to matrix"); return; }
  voigt(c2, c4, iopt); fsx_cover("to tensor");
  for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) {
    double f = 1; if (iopt == 3) f = (i > 2 ? 0.5 : 1) * (j > 2 ? 0.5 : 1); if (iopt == 4 && a && i > 2) f = -1;
    fsx_check_near(at(P[i][a], P[i][1 - a], P[j][b], P[j][1 - b]), f * c2[i + 6 * j], 1e-12, iopt == 4 ? "minor antisymmetry of the spin part" : "tensor components come from the Voigt matrix with minor symmetry"); }
  if (iopt == 1) { voigt(d2, c4, 2); for (int i = 0; i < 36; i++) fsx_check_near(d2[i], c2[i], 1e-12, "matrix to tensor to matrix is the identity"); } }
// ---- rotations
static void ortho(const double* a, const char* msg) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double s = 0; for (int k = 0; k < 3; k++) s += a[i + 3 * k] * a[j + 3 * k]; fsx_check_near(s, i == j, 1e-9, msg); } double t[9]; for (int i = 0; i < 9; i++) t[i] = a[i]; fsx_check_near(det3(t), 1, 1e-9, "a rotation has determinant one"); }
// a general rotation (column major) from a quaternion with q0 scaled out: exact rational entries
static void rot_q(double* a, const char* nm) { double x = sd(nm, -10, 10), y = sd(nm, -10, 10), z = sd(nm, -10, 10), n = 1 + x * x + y * y + z * z;
  a[0] = (1 + x * x - y * y - z * z) / n; a[4] = (1 - x * x + y * y - z * z) / n; a[8] = (1 - x * x - y * y + z * z) / n;
  a[3] = 2 * (x * y - z) / n; a[1] = 2 * (x * y + z) / n; a[6] = 2 * (x * z + y) / n; a[2] = 2 * (x * z - y) / n; a[7] = 2 * (y * z - x) / n; a[5] = 2 * (y * z + x) / n; }
FSX_ENTRY h_euler() { double a[9], ph = sd("ph", -3.2, 3.2), th = sd("th", 0, 3.2), tm = sd("tm", -3.2, 3.2); double p = ph, t = th, m = tm; euler(2, p, t, m, a); fsx_check(p == ph && t == th && m == tm, "angles are only read"); ortho(a, "Euler angles give an orthogonal matrix");
  // Bunge convention: third row/column
  fsx_check_near(a[8], cos(th), 1e-9, "tilt"); fsx_check_near(a[2], sin(ph) * sin(th), 1e-9, "first angle"); fsx_check_near(a[5], -cos(ph) * sin(th), 1e-9, "first angle"); fsx_check_near(a[6], sin(tm) * sin(th), 1e-9, "third angle"); fsx_check_near(a[7], cos(tm) * sin(th), 1e-9, "third angle");
  fsx_cover("euler"); }
FSX_ENTRY h_orient() { double a[9], c[9], a0[9]; rot_q(a, "q"); for (int i = 0; i < 9; i++) { a0[i] = a[i]; c[i] = 0; } double v[3]; for (int i = 0; i < 3; i++) v[i] = sd("v", -1, 1);
  // skew increment: c(3,2)=v1, c(1,3)=v2, c(2,1)=v3
  c[5] = v[0]; c[7] = -v[0]; c[6] = v[1]; c[2] = -v[1]; c[1] = v[2]; c[3] = -v[2];
  orient(a, c); ortho(a, "the updated orientation is a rotation"); double n2 = v[0] * v[0] + v[1] * v[1] + v[2] * v[2]; 
  // the increment's axis is unchanged: rot*v = v  (rot = a * a0^T)
  for (int i = 0; i < 3; i++) { double s = 0; for (int j = 0; j < 3; j++) { double r = 0; for (int k = 0; k < 3; k++) r += a[i + 3 * k] * a0[j + 3 * k]; s += r * v[j]; } fsx_check_near(s, v[i], 1e-9, "the rotation's axis is the increment's axis"); }
  if (n2 == 0) { fsx_cover("no rotation"); for (int i = 0; i < 9; i++) fsx_check_near(a[i], a0[i], 1e-9, "a zero increment leaves the orientation unchanged"); } else fsx_cover("rotation"); }
// the angle and sense of the rotation, for axes with rational direction: tan of half the angle is tan of half the increment's norm
FSX_ENTRY h_angle() { static const double D[5][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {0.6, 0, -0.8}, {2. / 3, -1. / 3, 2. / 3}}; int k = fsx_choose(5, "axis"); double s = sd("angle", 0, 3), a[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1}, c[9] = {0}, v[3]; if (k == 4) { v[0] = 2 * (s / 3); v[1] = -(s / 3); v[2] = 2 * (s / 3); } else for (int i = 0; i < 3; i++) v[i] = D[k][i] == 0.6 ? 3 * (s / 5) : D[k][i] == -0.8 ? -4 * (s / 5) : D[k][i] * s; c[5] = v[0]; c[7] = -v[0]; c[6] = v[1]; c[2] = -v[1]; c[1] = v[2]; c[3] = -v[2]; fsx_assume(s >= 1e-5); orient(a, c); double t = tan(s / 2), sn = 2 * t, cs = 1 - t * t, q = 1 + t * t; 
  fsx_check_near((a[0] + a[4] + a[8]) * q, q + 2 * cs, 1e-7, "the orientation turns by the angle of the increment"); double ax[3] = {a[5] - a[7], a[6] - a[2], a[1] - a[3]}; for (int i = 0; i < 3; i++) fsx_check_near(ax[i] * q, 2 * sn * D[k][i], 1e-7, "the orientation turns in the sense of the increment"); fsx_cover("turned"); }
// ---- tensor measures
FSX_ENTRY h_vm() { double d[9], e[9]; for (int i = 0; i < 9; i++) e[i] = d[i] = sd("d"); double r = vm(d), tr = (d[0] + d[4] + d[8]) / 3, s = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double x = (d[i + 3 * j] + d[j + 3 * i]) / 2 - (i == j ? tr : 0); s += x * x; }
  fsx_check(r >= 0, "an equivalent strain is not negative"); fsx_check_near(r * r, 2.0 / 3.0 * s, 1e-7, "equivalent strain is that of the symmetric deviator"); for (int i = 0; i < 9; i++) fsx_check(d[i] == e[i], "the tensor is only read"); fsx_cover("vm"); }
#ifdef LSV
FSX_ENTRY h_det() { double m[9], d; for (int i = 0; i < 9; i++) m[i] = sd("m"); determinant33(m, d); fsx_check_near(d, det3(m), 1e-9, "determinant"); fsx_cover("det"); }
FSX_ENTRY h_exp() { double m[9], e[9]; for (int i = 0; i < 9; i++) m[i] = sd("m", -1, 1); matrix_exp(m, e); auto M = [&](int i, int j) { return m[i + 3 * j]; };
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double s2 = 0, s3 = 0; for (int k = 0; k < 3; k++) { s2 += M(i, k) * M(k, j); for (int l = 0; l < 3; l++) s3 += M(i, k) * M(k, l) * M(l, j); } fsx_check_near(e[i + 3 * j], (i == j) + M(i, j) + s2 / 2 + s3 / 6, 1e-9, "exponential agrees with its series up to third order"); } fsx_cover("exp"); }
#endif

FSX_ENTRY h_array() { double a[5]; int n = 1 + fsx_choose(5, "n"); double mx = 0, mn = 0, sum = 0; for (int i = 0; i < n; i++) { a[i] = sd("a"); sum += a[i]; }
  double M = maxval(a, n), m = minval(a, n), s = sum_array(a, n); bool inM = false, inm = false; for (int i = 0; i < n; i++) { fsx_check(M >= a[i], "maximum"); fsx_check(m <= a[i], "minimum"); inM |= M == a[i]; inm |= m == a[i]; }
  fsx_check(inM && inm, "the extrema are entries"); fsx_check_near(s, sum, 1e-9, "sum"); (void)mx; (void)mn; fsx_cover("array"); }
