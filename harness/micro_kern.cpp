// Micromechanics: one step's kernels of the solver class (compiled from one variant's src) on a grid of voxels.
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
#include <memory>
#include <iostream>
#include <fstream>
#include <sstream>
#include <algorithm>
#include "matar.h"
#include "evpfft.h"
#ifdef LSV
#include "determinant33.cpp"
#include "matrix_exp.cpp"
#include "defgrad_dcmp.cpp"
#include "Cauchy_to_PK1.cpp"
#include "update_defgradp.cpp"
#include "update_defgrad.cpp"
#endif
#ifdef LSNP
#include "mod_frequency.cpp"
#endif
#include "math_functions.cpp"
#include "voigt.cpp"
#include "chg_basis.cpp"
#include "vm.cpp"
#include "Profiler.cpp"
#include "inverse_the_greens.cpp"
#include "update_schmid.cpp"
#include "harden.cpp"
#include "kinhard_param.cpp"
#include "get_smacro.cpp"
#include "orient.cpp"
#include "update_orient.cpp"
#ifdef LSV
#include "update_el_stiff.cpp"
#endif
#include "evpfft.cpp"
static double sd(const char* n, double lo = -100, double hi = 100) { return fsx_double(n, lo, hi); }
static const double TOL = 1e-6;
static EVPFFT& solver(int n1, int n2, int n3) {
  EVPFFT& e = *(EVPFFT*)calloc(1, sizeof(EVPFFT)); new (&e.cb) ChgBasis();
  e.npts1 = e.npts1_g = n1; e.npts2 = e.npts2_g = n2; e.npts3 = e.npts3_g = n3; e.NSYSMX = 3; e.NPHMX = 2; e.wgt = 1.0 / (n1 * n2 * n3);
  e.igas = MatrixTypeIntDual(2); e.igas.host(1) = 0; e.igas.host(2) = 1; e.jphase = MatrixTypeIntDual(n1, n2, n3);
  e.nsyst = MatrixTypeIntDual(2); e.nsyst.host(1) = 2; e.nsyst.host(2) = 0;
  for (int i = 1; i <= n1; i++) for (int j = 1; j <= n2; j++) for (int k = 1; k <= n3; k++) e.jphase.host(i, j, k) = 1;
#ifdef LSNP
  e.iframe = MatrixTypeIntDual(n1, n2, n3); for (int i = 1; i <= n1; i++) for (int j = 1; j <= n2; j++) for (int k = 1; k <= n3; k++) e.iframe.host(i, j, k) = 0;
#endif
#if defined(LSV) && !defined(LSNP)
  e.iJ2 = MatrixTypeIntDual(2); e.iJ2.host(1) = e.iJ2.host(2) = 0;
#endif
  return e;
}
// ---- the polarisation step: every frequency apart from zero and Nyquist gets the compatible field that balances the polarisation
static void moduli(EVPFFT& e, bool iso) {
  e.c0 = MatrixTypeRealDual(3, 3, 3, 3); e.s0 = MatrixTypeRealDual(3, 3, 3, 3);
  double la = iso ? sd("lambda", 0.5, 4) : 1, mu = iso ? sd("mu", 0.5, 4) : 1, an = iso ? 0 : 1.5;
  for (int i = 1; i <= 3; i++) for (int j = 1; j <= 3; j++) for (int k = 1; k <= 3; k++) for (int l = 1; l <= 3; l++) {
    e.c0.host(i, j, k, l) = la * ((i == j) && (k == l)) + mu * (((i == k) && (j == l)) + ((i == l) && (j == k))) + an * (i == j && j == k && k == l) * i;
    e.s0.host(i, j, k, l) = 0.25 * i + 0.5 * (j == l) - 0.125 * k * l + j; }
}
static void greens(bool iso) {
  static const int G[][7] = { // grid, frequency index, class (0 ordinary, 1 zero, 2 Nyquist)
    {5, 5, 5, 1, 2, 2, 0}, {5, 7, 5, 2, 5, 1, 0}, {6, 6, 6, 1, 2, 2, 0}, {6, 6, 8, 2, 5, 7, 0}, {4, 4, 1, 1, 3, 0, 0}, {3, 3, 3, 1, 0, 0, 0}, {5, 4, 7, 2, 3, 3, 0},
    {6, 6, 6, 3, 0, 1, 2}, {5, 6, 4, 1, 3, 0, 2}, {4, 4, 4, 1, 1, 2, 2}, {6, 6, 6, 0, 0, 0, 1}, {5, 5, 5, 0, 0, 0, 1} };
  int c = fsx_choose(sizeof G / sizeof *G, "frequency"); const int* g = G[c];
  EVPFFT& e = solver(1, 1, 1); e.npts1_g = g[0]; e.npts2_g = g[1]; e.npts3_g = g[2];
  e.npts1_cmplx = e.npts2_cmplx = e.npts3_cmplx = 1; e.local_start1_cmplx = g[3]; e.local_start2_cmplx = g[4]; e.local_start3_cmplx = g[5];
  e.xk_gb = MatrixTypeRealDual(1); e.yk_gb = MatrixTypeRealDual(1); e.zk_gb = MatrixTypeRealDual(1); e.delt = MatrixTypeRealHost(3); for (int i = 1; i <= 3; i++) e.delt(i) = 1;
  e.init_xk_gb(); moduli(e, iso);
  double k[3]; for (int d = 0; d < 3; d++) { int m = g[3 + d]; if (m > g[d] / 2) m -= g[d]; k[d] = (double)m / g[d]; }
  const double kx[3] = {e.xk_gb.host(1), e.yk_gb.host(1), e.zk_gb.host(1)};
  for (int d = 0; d < 3; d++) fsx_check_near(kx[d], k[d], 1e-6, "the frequency of a mode is its signed index over the grid size");
  e.work = MatrixTypeRealDual(3, 3, 1, 1, 1); e.workim = MatrixTypeRealDual(3, 3, 1, 1, 1);
  double t[2][3][3]; for (int p = 0; p < 2; p++) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { t[p][i][j] = i == 0 || p == 0 ? sd("polarisation", -4, 4) : 0.5 * (i - j); (p ? e.workim : e.work).host(i + 1, j + 1, 1, 1, 1) = t[p][i][j]; }
  e.inverse_the_greens();
  for (int p = 0; p < 2; p++) { double w[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) w[i][j] = (p ? e.workim : e.work)(i + 1, j + 1, 1, 1, 1);
    if (g[6] == 1) { fsx_cover("zero"); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) fsx_check_near(w[i][j], 0, TOL, "the mean is left alone"); }
    else if (g[6] == 2) { fsx_cover("nyquist"); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double s = 0; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) s -= e.s0(i + 1, j + 1, a + 1, b + 1) * t[p][a][b]; fsx_check_near(w[i][j], s, TOL, "at the Nyquist frequency the field is minus the compliance times the polarisation"); } }
    else { fsx_cover("ordinary");
      for (int i = 0; i < 3; i++) for (int a = 0; a < 3; a++) for (int b = 0; b < a; b++) fsx_check_near(w[i][a] * kx[b], w[i][b] * kx[a], TOL, "the field is a gradient");
      for (int i = 0; i < 3; i++) { double s = 0; for (int j = 0; j < 3; j++) { s += kx[j] * t[p][i][j]; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) s += e.c0(i + 1, j + 1, a + 1, b + 1) * kx[j] * w[a][b]; } fsx_check_near(s, 0, 1e-5, "the reference stress of the field balances the polarisation"); } } }
}
FSX_ENTRY h_greens_iso() { greens(true); }
FSX_ENTRY h_greens_aniso() { greens(false); }
// ---- hardening: the Voce law integrated over the step
FSX_ENTRY h_harden() {
  EVPFFT& e = solver(2, 1, 1); int gas = fsx_choose(3, "gas"); if (gas < 2) e.jphase.host(1 + gas, 1, 1) = 2;
  e.gacumgr = MatrixTypeRealDual(2, 1, 1); e.gamdot = MatrixTypeRealDual(3, 2, 1, 1); e.crss = MatrixTypeRealDual(3, 2, 2, 1, 1);
  e.tau = MatrixTypeRealDual(3, 3, 2); e.thet = MatrixTypeRealDual(3, 2, 2); e.hard = MatrixTypeRealDual(3, 3, 2);
  static const double T1[3] = {2, 0, 4}, TH0[3] = {3, 1, 0}; int law = fsx_choose(3, "law"); double h[3][3], th1[3], g0[3], gd[3][3], c[3][3][3];
  double dt = sd("dt", 0.0625, 1); e.tdot = dt;
  for (int s = 1; s <= 3; s++) { e.tau.host(s, 1, 1) = 1; e.tau.host(s, 2, 1) = 1; e.tau.host(s, 3, 1) = T1[(law + s) % 3]; e.thet.host(s, 1, 1) = TH0[(law + s) % 3]; e.thet.host(s, 2, 1) = th1[s - 1] = sd("theta1", 0, 4); for (int r = 1; r <= 3; r++) e.hard.host(s, r, 1) = h[s - 1][r - 1] = 1 + 0.25 * s - 0.125 * r * s; }
  for (int v = 0; v < 2; v++) { e.gacumgr.host(v + 1, 1, 1) = g0[v] = sd("accumulated", 0, 2); for (int s = 0; s < 3; s++) { e.gamdot.host(s + 1, v + 1, 1, 1) = gd[v][s] = s == 2 ? 7 : v == 0 || s == 0 ? sd("rate", -2, 2) : -0.5; for (int d = 0; d < 2; d++) e.crss.host(s + 1, d + 1, v + 1, 1, 1) = c[v][s][d] = s == 0 ? sd("strength", 1, 9) : 2 + s + d; } }
  e.harden(0);
  for (int v = 0; v < 2; v++) { bool on = gas != v; double del = on ? (gd[v][0] < 0 ? -gd[v][0] : gd[v][0]) * dt + (gd[v][1] < 0 ? -gd[v][1] : gd[v][1]) * dt : 0;
    if (!on) fsx_cover("gas"); else if (del > 0) fsx_cover("hardened");
    fsx_check_near(e.gacumgr(v + 1, 1, 1), g0[v] + del, TOL, "the accumulated slip grows by the slip of all systems");
    for (int s = 0; s < 3; s++) { double inc = 0;
      if (on && s < 2 && del > 0) { double t1 = T1[(law + s + 1) % 3], th0 = TH0[(law + s + 1) % 3], voce = 0;
        if (th0 > 0) { voce = th1[s] * del; if (t1 > 0) { double f = th0 / t1, e0 = exp(-g0[v] * f), ed = exp(-del * f); voce += (t1 + th1[s] * g0[v]) * e0 - (t1 + th1[s] * (g0[v] + del)) * e0 * ed; } }
        double w = 0; for (int r = 0; r < 2; r++) w += h[s][r] * (gd[v][r] < 0 ? -gd[v][r] : gd[v][r]) * dt; inc = w * voce / del; }
      for (int d = 0; d < 2; d++) fsx_check_near(e.crss(s + 1, d + 1, v + 1, 1, 1), c[v][s][d] + inc, 1e-5, "each system hardens by the integrated Voce law times its coupled slip"); } }
}
// ---- slip geometry in the current orientation
static void rotq(double a, double b, double c, double (*R)[3]) { double n = 1 + a * a + b * b + c * c; double q[3][3] = {{1 + a * a - b * b - c * c, 2 * (a * b - c), 2 * (a * c + b)}, {2 * (a * b + c), 1 - a * a + b * b - c * c, 2 * (b * c - a)}, {2 * (a * c - b), 2 * (b * c + a), 1 - a * a - b * b + c * c}}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) R[i][j] = q[i][j] / n; }
static const double NB[2][2][3] = {{{1, 0, 0}, {0, 0.6, 0.8}}, {{0.6, 0, -0.8}, {0.8, 0, 0.6}}}; // direction and normal of two systems
static void slip(EVPFFT& e) {
  double b5[5], m[9];
#ifdef LSV
  e.dnca = MatrixTypeRealDual(3, 3, 2); e.dbca = MatrixTypeRealDual(3, 3, 2); for (int s = 0; s < 2; s++) for (int i = 0; i < 3; i++) { e.dbca.host(i + 1, s + 1, 1) = NB[s][0][i]; e.dnca.host(i + 1, s + 1, 1) = NB[s][1][i]; }
#endif
  e.schca = MatrixTypeRealDual(5, 3, 2); for (int s = 0; s < 2; s++) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[3 * i + j] = (NB[s][0][i] * NB[s][1][j] + NB[s][0][j] * NB[s][1][i]) / 2; e.cb.chg_basis_2(b5, m, 2, 5, e.cb.B_basis_host_pointer()); for (int a = 0; a < 5; a++) e.schca.host(a + 1, s + 1, 1) = b5[a]; }
  e.sch = MatrixTypeRealDual(5, 3, 2, 1, 1); for (int v = 1; v <= 2; v++) for (int s = 1; s <= 3; s++) for (int a = 1; a <= 5; a++) e.sch.host(a, s, v, 1, 1) = 9;
  e.ag = MatrixTypeRealDual(3, 3, 2, 1, 1);
}
FSX_ENTRY h_schmid() {
  EVPFFT& e = solver(2, 1, 1); slip(e); int gas = fsx_choose(3, "gas"); if (gas < 2) e.jphase.host(1 + gas, 1, 1) = 2; double A[2][3][3], F[2][3][3];
#ifdef LSV // one-parameter turns about the axes, or a stretch and shear of a fixed orientation
  bool turn = fsx_choose(2, "what varies") == 0; if (turn) { rotq(sd("q1", -2, 2), 0, 0, A[0]); rotq(0, sd("q3", -2, 2), 0, A[1]); } else { rotq(0, -1, 0, A[0]); rotq(0.5, 0, 0, A[1]); }
#else
  bool turn = true; rotq(sd("q1", -2, 2), sd("q2", -2, 2), 0.5, A[0]); rotq(0.5, sd("q3", -2, 2), -1, A[1]);
#endif
  for (int v = 0; v < 2; v++) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { e.ag.host(i + 1, j + 1, v + 1, 1, 1) = A[v][i][j]; F[v][i][j] = i == j ? 1 + (turn ? 0 : 0.25 * v * i) : 0; }
#ifdef LSV
  if (!turn) { F[0][0][1] = sd("f12", -2, 2); F[1][2][0] = sd("f31", -2, 2); F[1][0][0] = sd("f11", 0.5, 2); } e.defgrade = MatrixTypeRealDual(3, 3, 2, 1, 1); for (int v = 0; v < 2; v++) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) e.defgrade.host(i + 1, j + 1, v + 1, 1, 1) = F[v][i][j];
#else
  for (int i = 0; i < 3; i++) F[1][i][i] = 1;
#endif
  e.update_schmid();
  for (int v = 0; v < 2; v++) for (int s = 0; s < 3; s++) { double b5[5], m[9];
    for (int a = 0; a < 5; a++) b5[a] = e.sch(a + 1, s + 1, v + 1, 1, 1); 
    if (gas == v || s == 2) { fsx_cover("no system"); for (int a = 0; a < 5; a++) fsx_check_near(b5[a], 0, TOL, "a system that is not there has no Schmid tensor"); continue; }
    e.cb.chg_basis_1(b5, m, 1, 5, e.cb.B_basis_host_pointer()); fsx_cover("schmid");
    double b[3], n[3]; for (int i = 0; i < 3; i++) { b[i] = n[i] = 0; for (int j = 0; j < 3; j++) { b[i] += A[v][i][j] * NB[s][0][j]; n[i] += A[v][i][j] * NB[s][1][j]; } }
    double fb[3], fn[3]; for (int i = 0; i < 3; i++) { fb[i] = 0; for (int j = 0; j < 3; j++) fb[i] += F[v][i][j] * b[j]; }
    // normals go with the inverse transpose: F(v) is diagonal apart from one entry
    if (v == 0) { fn[0] = n[0]; fn[1] = n[1] - F[0][0][1] * n[0]; fn[2] = n[2]; } else { double d0 = F[1][0][0], d1 = F[1][1][1], d2 = F[1][2][2], o = F[1][2][0]; fn[2] = n[2] / d2; fn[1] = n[1] / d1; fn[0] = n[0] / d0 - o * n[2] / (d0 * d2); }
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) fsx_check_near(m[3 * i + j], (fb[i] * fn[j] + fb[j] * fn[i]) / 2, 1e-5, "the Schmid tensor is that of the slip direction and plane normal carried to the current configuration"); }
}
#ifdef LSV
// ---- first Piola-Kirchhoff stress of the fluctuation
FSX_ENTRY h_pk1() {
  EVPFFT& e = solver(2, 1, 1); e.sg = MatrixTypeRealDual(3, 3, 2, 1, 1); e.wgtc = MatrixTypeRealDual(2, 1, 1); e.defgradinv = MatrixTypeRealDual(3, 3, 2, 1, 1); e.detF = MatrixTypeRealDual(2, 1, 1); e.sgPK1 = MatrixTypeRealDual(3, 3, 2, 1, 1);
  double S[2][3][3], I[2][3][3], w[2], J[2];
  for (int v = 0; v < 2; v++) { e.wgtc.host(v + 1, 1, 1) = w[v] = sd("weight", 0, 1); e.detF.host(v + 1, 1, 1) = J[v] = sd("jacobian", 0.5, 2);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { e.sg.host(i + 1, j + 1, v + 1, 1, 1) = S[v][i][j] = v == 0 || i == j ? sd("stress") : 2 * i - j; e.defgradinv.host(i + 1, j + 1, v + 1, 1, 1) = I[v][i][j] = v == 0 ? sd("inverse", -2, 2) : i + 0.5 * j; e.sgPK1.host(i + 1, j + 1, v + 1, 1, 1) = 99; } }
  e.Cauchy_to_PK1(); fsx_cover("pk1");
  for (int v = 0; v < 2; v++) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double s = 0; for (int k = 0; k < 3; k++) s += (S[v][i][k] - (S[0][i][k] * w[0] + S[1][i][k] * w[1])) * I[v][j][k] * J[v]; fsx_check_near(e.sgPK1(i + 1, j + 1, v + 1, 1, 1), s, 1e-5, "P = J (s - <s>) F^-T"); }
}
// ---- plastic part: one system slips, the plastic deformation is sheared by it
FSX_ENTRY h_plastic() {
  EVPFFT& e = solver(2, 1, 1); slip(e); int gas = fsx_choose(3, "gas"); if (gas < 2) e.jphase.host(1 + gas, 1, 1) = 2; double A[2][3][3], P[2][3][3], g[2]; int s = fsx_choose(2, "system");
  rotq(sd("q1", -1, 1), 0.5, 0.25, A[0]); rotq(0.5, -0.25, -1, A[1]); e.tdot = 0.25; e.gamdot = MatrixTypeRealDual(3, 2, 1, 1); e.defgradp = MatrixTypeRealDual(3, 3, 2, 1, 1);
  for (int v = 0; v < 2; v++) { g[v] = sd("rate", -0.25, 0.25); for (int r = 0; r < 3; r++) e.gamdot.host(r + 1, v + 1, 1, 1) = r == s ? g[v] : r == 2 ? 5 : 0;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { e.ag.host(i + 1, j + 1, v + 1, 1, 1) = A[v][i][j]; e.defgradp.host(i + 1, j + 1, v + 1, 1, 1) = P[v][i][j] = (i == j) + (j == 2 ? sd("fp", -1, 1) : 0.25 * (i - j)); } }
  e.update_defgradp(); fsx_cover("plastic");
  for (int v = 0; v < 2; v++) { double b[3], n[3]; for (int i = 0; i < 3; i++) { b[i] = n[i] = 0; for (int j = 0; j < 3; j++) { b[i] += A[v][i][j] * NB[s][0][j]; n[i] += A[v][i][j] * NB[s][1][j]; } }
    for (int j = 0; j < 3; j++) { double np = 0; for (int k = 0; k < 3; k++) np += n[k] * P[v][k][j]; for (int i = 0; i < 3; i++) fsx_check_near(e.defgradp(i + 1, j + 1, v + 1, 1, 1), P[v][i][j] + (gas == v ? 0 : b[i] * np * g[v] * 0.25), 1e-5, "slip on one system adds the simple shear of that system"); } }
}
// ---- total deformation: F is carried by the exponential of the increment; the mean velocity gradient is the prescribed one
template <class E> static auto set_avg(E& e, int) -> decltype((void)e.defgradavg) { e.defgradavg = MatrixTypeRealHost(3, 3); }
template <class E> static void set_avg(E&, long) {}
FSX_ENTRY h_defgrad() {
  EVPFFT& e = solver(2, 1, 1); auto T = [] { return MatrixTypeRealDual(3, 3, 2, 1, 1); }; e.defgrad = T(); e.defgradinv = T(); e.velgrad = T(); e.disgrad = T(); e.defgradini = T(); e.detF = MatrixTypeRealDual(2, 1, 1); e.wgtc = MatrixTypeRealDual(2, 1, 1); e.velgradmacroactual = MatrixTypeRealHost(3, 3); set_avg(e, 0); e.defgradinvavgc_inv = MatrixTypeRealHost(3, 3); e.tdot = 0.25;
  static const int SH[3][4] = {{0, 1, 0, 1}, {2, 1, 1, 2}, {0, 1, 2, 0}}; const int* sh = SH[fsx_choose(3, "shears")]; double F[2][3][3], g[2], M[3][3];
  for (int v = 0; v < 2; v++) { g[v] = sd("rate", -1, 1); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { F[v][i][j] = i == j ? 1 + 0.25 * i * v : (i == 0 && j == 2 ? 0.5 - v : 0); e.velgrad.host(i + 1, j + 1, v + 1, 1, 1) = i == sh[2 * v] && j == sh[2 * v + 1] ? g[v] : 0; e.defgradini.host(i + 1, j + 1, v + 1, 1, 1) = i == j; } F[v][1][0] = sd("f", -0.5, 0.5);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { e.defgrad.host(i + 1, j + 1, v + 1, 1, 1) = F[v][i][j]; e.defgradinv.host(i + 1, j + 1, v + 1, 1, 1) = 9; } }
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) e.velgradmacroactual(i + 1, j + 1) = M[i][j] = i == 0 ? sd("macro", -1, 1) : 0.25 * i - 0.5 * j;
  e.update_defgrad(); fsx_cover("defgrad"); double W = 0;
  for (int v = 0; v < 2; v++) { double N[3][3], d; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { N[i][j] = F[v][i][j] + (i == sh[2 * v] ? 0.25 * g[v] * F[v][sh[2 * v + 1]][j] : 0); fsx_check_near(e.defgrad(i + 1, j + 1, v + 1, 1, 1), N[i][j], 1e-5, "the deformation gradient is carried by the exponential of the increment"); }
    d = N[0][0] * (N[1][1] * N[2][2] - N[1][2] * N[2][1]) - N[0][1] * (N[1][0] * N[2][2] - N[1][2] * N[2][0]) + N[0][2] * (N[1][0] * N[2][1] - N[1][1] * N[2][0]);
    fsx_check_near(e.detF(v + 1, 1, 1), d, 1e-5, "the Jacobian is the determinant"); W += e.wgtc(v + 1, 1, 1);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double s = 0; for (int k = 0; k < 3; k++) s += e.defgradinv(i + 1, k + 1, v + 1, 1, 1) * N[k][j]; fsx_check_near(s, i == j, 1e-5, "the inverse deformation gradient is the inverse"); fsx_check_near(e.disgrad(i + 1, j + 1, v + 1, 1, 1), (i == j) - e.defgradinv(i + 1, j + 1, v + 1, 1, 1), 1e-5, "the displacement gradient is I - F^-1"); } }
  fsx_check_near(W, 1, 1e-5, "the current volume fractions add up to one"); fsx_check_near(e.wgtc(1, 1, 1) * e.detF(2, 1, 1), e.wgtc(2, 1, 1) * e.detF(1, 1, 1), 1e-5, "a volume fraction is proportional to the Jacobian");
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double s = 0; for (int v = 1; v <= 2; v++) s += e.wgtc(v, 1, 1) * e.velgrad(i + 1, j + 1, v, 1, 1); fsx_check_near(s, M[i][j], 1e-5, "the mean velocity gradient over the current volume is the macroscopic one"); }
}
#endif
// ---- lattice rotation: the spin of the material less the spin of the slip
FSX_ENTRY h_reorient() {
  EVPFFT& e = solver(2, 1, 1); slip(e); int gas = fsx_choose(3, "gas"); if (gas < 2) e.jphase.host(1 + gas, 1, 1) = 2; double A[2][3][3], L[2][3][3], g[2][2], T[3][3], dt = 0.25;
#ifdef LSV
  e.wgtc = MatrixTypeRealDual(2, 1, 1); e.wgtc.host(1, 1, 1) = e.wgtc.host(2, 1, 1) = 0.5;
#else
  e.dnca = MatrixTypeRealDual(3, 3, 2); e.dbca = MatrixTypeRealDual(3, 3, 2); for (int s = 0; s < 2; s++) for (int i = 0; i < 3; i++) { e.dbca.host(i + 1, s + 1, 1) = NB[s][0][i]; e.dnca.host(i + 1, s + 1, 1) = NB[s][1][i]; }
#endif
  e.velgrad = MatrixTypeRealDual(3, 3, 2, 1, 1); e.gamdot = MatrixTypeRealDual(3, 2, 1, 1); e.tomtot = MatrixTypeRealDual(3, 3); e.tdot = dt;
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) e.tomtot.host(i + 1, j + 1) = T[i][j] = 0; double w = sd("macro spin", -1, 1); e.tomtot.host(1, 2) = T[0][1] = w; e.tomtot.host(2, 1) = T[1][0] = -w;
  rotq(0.5, 0, 0, A[0]); rotq(0, 0.5, -1, A[1]);
  for (int v = 0; v < 2; v++) { for (int r = 0; r < 3; r++) { e.gamdot.host(r + 1, v + 1, 1, 1) = r == 2 ? 5 : (g[v][r] = r == 0 ? sd("rate", -1, 1) : 0.5 - v); } for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { e.ag.host(i + 1, j + 1, v + 1, 1, 1) = A[v][i][j]; e.velgrad.host(i + 1, j + 1, v + 1, 1, 1) = L[v][i][j] = i == 1 || v == 1 ? 0.25 * i - 0.5 * j * v : i == 0 && j == 2 ? sd("l", -1, 1) : 0.125 * j; } }
  e.update_orient(); fsx_cover("reoriented");
  for (int v = 0; v < 2; v++) { double rot[9], a[9], D[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { D[i][j] = 0; a[i + 3 * j] = A[v][i][j]; }
    for (int s = 0; s < 2; s++) { double b[3], n[3]; for (int i = 0; i < 3; i++) { b[i] = n[i] = 0; for (int j = 0; j < 3; j++) { b[i] += A[v][i][j] * NB[s][0][j]; n[i] += A[v][i][j] * NB[s][1][j]; } } for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) D[i][j] += b[i] * n[j] * g[v][s]; }
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) rot[i + 3 * j] = (T[i][j] + (L[v][i][j] - L[v][j][i]) / 2 - (D[i][j] - D[j][i]) / 2) * dt;
    if (gas != v) orient(a, rot); else fsx_cover("gas");
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) fsx_check_near(e.ag(i + 1, j + 1, v + 1, 1, 1), a[i + 3 * j], 1e-5, "the lattice turns by the spin of the material less the spin of the slip"); }
}
#ifdef LSV
// ---- elastic stiffness of the phase, turned with the lattice (no stretch here)
FSX_ENTRY h_stiff() {
  EVPFFT& e = solver(2, 1, 1); int gas = fsx_choose(3, "gas"); if (gas < 2) e.jphase.host(1 + gas, 1, 1) = 2; e.ag = MatrixTypeRealDual(3, 3, 2, 1, 1); e.defgrade = MatrixTypeRealDual(3, 3, 2, 1, 1); e.cg66 = MatrixTypeRealDual(6, 6, 2, 1, 1); e.cc = MatrixTypeRealHost(3, 3, 3, 3, 2); double C[6][6], A[2][3][3]; static const int V[3][3] = {{0, 5, 4}, {5, 1, 3}, {4, 3, 2}};
  for (int a = 0; a < 6; a++) for (int b = a; b < 6; b++) C[a][b] = C[b][a] = sd("modulus", -10, 10);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) { e.cc(i + 1, j + 1, k + 1, l + 1, 1) = C[V[i][j]][V[k][l]]; e.cc(i + 1, j + 1, k + 1, l + 1, 2) = 77; }
  rotq(0, 0.5, 0, A[0]); rotq(1, -0.5, 2, A[1]); for (int v = 0; v < 2; v++) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { e.ag.host(i + 1, j + 1, v + 1, 1, 1) = A[v][i][j]; e.defgrade.host(i + 1, j + 1, v + 1, 1, 1) = i == j; } for (int a = 1; a <= 6; a++) for (int b = 1; b <= 6; b++) e.cg66.host(a, b, v + 1, 1, 1) = 3; }
  e.update_el_stiff();
  for (int v = 0; v < 2; v++) { double m[36], c4[81], x[36]; for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) m[a + 6 * b] = e.cg66(a + 1, b + 1, v + 1, 1, 1);
    if (gas == v) { fsx_cover("gas"); for (int a = 0; a < 36; a++) fsx_check_near(m[a], 3, 0, "a gas voxel is left alone"); continue; }
    fsx_cover("stiffness"); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) { double s = 0; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { double q = 0; for (int c = 0; c < 3; c++) for (int d = 0; d < 3; d++) q += A[v][k][c] * A[v][l][d] * C[V[a][b]][V[c][d]]; s += A[v][i][a] * A[v][j][b] * q; } c4[i + 3 * j + 9 * k + 27 * l] = s; }
    e.cb.chg_basis_4(x, c4, 4, 6, e.cb.B_basis_host_pointer()); for (int a = 0; a < 36; a++) fsx_check_near(m[a], x[a], 1e-4, "the stiffness is that of the phase in the lattice frame"); }
}
#endif
// ---- averages, and the correction where stress is prescribed
FSX_ENTRY h_smacro() {
  EVPFFT& e = solver(2, 1, 1); int ph = fsx_choose(3, "second phase"); if (ph < 2) e.jphase.host(1 + ph, 1, 1) = 2; e.wph1 = 0.5; double w[2] = {0.5, 0.5};
#ifdef LSV
  e.wgtc = MatrixTypeRealDual(2, 1, 1); w[0] = 0.25; w[1] = 0.75; for (int v = 0; v < 2; v++) e.wgtc.host(v + 1, 1, 1) = w[v];
#endif
  e.sg = MatrixTypeRealDual(3, 3, 2, 1, 1); e.scauav = MatrixTypeRealHost(3, 3); e.scauav1 = MatrixTypeRealHost(3, 3); e.sdeviat = MatrixTypeRealHost(3, 3); e.s0 = MatrixTypeRealDual(3, 3, 3, 3); e.scauchy = MatrixTypeRealHost(3, 3); e.idsim = MatrixTypeIntHost(6); e.iscau = MatrixTypeIntHost(6);
#ifdef LSV
  e.dvelgradmacro = MatrixTypeRealHost(3, 3); e.dvelgradmacroacum = MatrixTypeRealHost(3, 3); auto& d = e.dvelgradmacro; auto& acc = e.dvelgradmacroacum;
  #define DD(i, j) d(i, j)
#else
  e.ddisgradmacro = MatrixTypeRealDual(3, 3); e.ddisgradmacroacum = MatrixTypeRealHost(3, 3); auto& d = e.ddisgradmacro; auto& acc = e.ddisgradmacroacum;
  #define DD(i, j) d.host(i, j)
#endif
  double S[2][3][3], T[3][3]; static const int V[6][2] = {{1, 1}, {2, 2}, {3, 3}, {2, 3}, {1, 3}, {1, 2}}; int mask = fsx_choose(3, "stress components");
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { for (int v = 0; v < 2; v++) if (j >= i) S[v][i][j] = S[v][j][i] = sd("stress"); if (j >= i) T[i][j] = T[j][i] = sd("target"); acc(i + 1, j + 1) = 1; DD(i + 1, j + 1) = 0; for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) e.s0.host(i + 1, j + 1, k + 1, l + 1) = 0.25 * i + 0.5 * j * l - 0.125 * k + 1; }
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { for (int v = 0; v < 2; v++) e.sg.host(i + 1, j + 1, v + 1, 1, 1) = S[v][i][j]; e.scauchy(i + 1, j + 1) = T[i][j]; }
  static const int M[3][6] = {{1, 1, 1, 1, 1, 1}, {0, 0, 1, 1, 1, 1}, {1, 0, 0, 1, 0, 1}}; for (int i = 0; i < 6; i++) { e.idsim(i + 1) = M[mask][i]; e.iscau(i + 1) = 1 - M[mask][i]; }
  e.get_smacro(); fsx_cover("average"); double av[3][3], a1[3][3];
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { av[i][j] = S[0][i][j] * w[0] + S[1][i][j] * w[1]; a1[i][j] = 0; for (int v = 0; v < 2; v++) if (ph != v) a1[i][j] += S[v][i][j] * w[v] / 0.5; fsx_check_near(e.scauav(i + 1, j + 1), av[i][j], TOL, "the macroscopic stress is the weighted mean"); fsx_check_near(e.scauav1(i + 1, j + 1), a1[i][j], TOL, "the stress of phase one is its share of the mean"); }
  for (int c = 0; c < 6; c++) { int i = V[c][0], j = V[c][1]; double x = 0; if (!M[mask][c]) { fsx_cover("stress controlled"); for (int k = 0; k < 6; k++) if (!M[mask][k]) x += e.s0(i, j, V[k][0], V[k][1]) * (T[V[k][0] - 1][V[k][1] - 1] - av[V[k][0] - 1][V[k][1] - 1]); }
    fsx_check_near(DD(i, j), x, 1e-5, "components under stress control move by the compliance times the missing stress"); fsx_check_near(acc(i, j), 1 + x, 1e-5, "corrections accumulate"); }
  double q[2] = {0, 0}; for (int p = 0; p < 2; p++) { auto& s = p ? a1 : av; double tr = (s[0][0] + s[1][1] + s[2][2]) / 3; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double x = s[i][j] - (i == j ? tr : 0); q[p] += x * x; } q[p] *= 1.5; }
  fsx_check(e.svm >= 0 && e.svm1 >= 0, "an equivalent stress is not negative"); fsx_check_near(e.svm * e.svm, q[0], 1e-2, "the equivalent stress is the von Mises norm of the mean"); fsx_check_near(e.svm1 * e.svm1, q[1], 1e-2, "the equivalent stress of phase one likewise");
}
