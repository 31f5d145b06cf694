// Multiphysics material models: equations of state, erosion, plasticity, artificial viscosity (apps/multiphysics/src/material_models).
#include "mp_sgh.h"
#include "gamma_law_eos.hpp"
#include "elasticity.hpp"
#include "void_eos.hpp"
#include "no_eos.hpp"
#include "basic_erosion.hpp"
#include "no_erosion.hpp"
#include "decoupled_plasticity.hpp"
#include "mars.hpp"
#include "no_dissipation.hpp"
typedef RaggedRightArrayKokkos<double> Table; typedef DCArrayKokkos<double> D;
static Table table(size_t rows, size_t cols) { CArrayKokkos<size_t> c(rows); for (size_t i = 0; i < rows; i++) c(i) = cols; return Table(c); }
struct Pt { DCArrayKokkos<size_t> buf; Ragged p, c, ev, sh, st, st0; Table g; Pt() : buf(2) { buf(0) = 1; buf(1) = 3; p = Ragged(buf, "p"); c = Ragged(buf, "c"); ev = Ragged(buf, "e"); sh = Ragged(buf, "s"); st = Ragged(buf, 3, 3, "t"); st0 = Ragged(buf, 3, 3, "t"); g = table(2, 6); for (int m = 0; m < 2; m++) { for (int j = 0; j < 6; j++) g(m, j) = 1e6; for (size_t i = 0; i < buf(m); i++) { p(m, i) = 40 + i; c(m, i) = 50 + i; sh(m, i) = 60; } } }
  void others() { for (int m = 0; m < 2; m++) for (size_t i = 0; i < buf(m); i++) if (m != 1 || i != 2) fsx_check(p(m, i) == 40.0 + i && c(m, i) == 50.0 + i, "only the given material point is written"); } };
FSX_ENTRY h_eos() { Pt t; int k = fsx_choose(4, "model"); double den = sd("den", 0.01, 20), sie = sd("sie"), G = 0; t.g(1, 0) = k == 0 ? sd("gamma", 1, 5) : sd("bulk", 0, 100); t.g(1, 1) = k == 0 ? sd("cmin", 0, 2) : (G = sd("shear", 0, 100)); t.g(1, 2) = sd("den0", 0.1, 20); t.g(1, 3) = sd("cmin", 0, 2);
  if (k == 0) { GammaLawGasEOSModel::calc_pressure(t.p, t.st, 2, 1, t.ev, t.c, den, sie, t.g); GammaLawGasEOSModel::calc_sound_speed(t.p, t.st, 2, 1, t.ev, t.c, den, sie, t.sh, t.g); double g = t.g(1, 0), c2 = g * (g - 1) * sie, c = t.c(1, 2), m = t.g(1, 1); fsx_check_near(t.p(1, 2), (g - 1) * den * sie, TOL, "ideal gas pressure"); fsx_check(c >= m - 1e-12, "sound speed is not below its minimum"); if (c2 >= m * m) fsx_check_near(c * c, c2, 1e-7, "ideal gas sound speed"); else fsx_check_near(c, m, TOL, "the minimal sound speed is used below it, also for negative energies"); }
  if (k == 1) { LinearElasticEOS::calc_pressure(t.p, t.st, 2, 1, t.ev, t.c, den, sie, t.g); LinearElasticEOS::calc_sound_speed(t.p, t.st, 2, 1, t.ev, t.c, den, sie, t.sh, t.g); double c = t.c(1, 2), m = t.g(1, 3), B = t.g(1, 0); fsx_check_near(t.p(1, 2) * t.g(1, 2), B * (den - t.g(1, 2)), TOL, "elastic pressure"); fsx_check(c >= m - 1e-12, "sound speed is not below its minimum"); if (B + 4 * G / 3 >= m * m * den) fsx_check_near(c * c * den, B + 4 * G / 3, 1e-7, "longitudinal sound speed"); else fsx_check_near(c, m, TOL, "the minimal sound speed is used below it"); }
  if (k == 2) { VoidEOSModel::calc_pressure(t.p, t.st, 2, 1, t.ev, t.c, den, sie, t.g); VoidEOSModel::calc_sound_speed(t.p, t.st, 2, 1, t.ev, t.c, den, sie, t.sh, t.g); fsx_check(t.p(1, 2) == 0 && t.c(1, 2) > 0 && t.c(1, 2) < 1e-20, "void has no pressure and no sound speed"); }
  if (k == 3) { NoEOSModel::calc_pressure(t.p, t.st, 2, 1, t.ev, t.c, den, sie, t.g); NoEOSModel::calc_sound_speed(t.p, t.st, 2, 1, t.ev, t.c, den, sie, t.sh, t.g); fsx_check(t.p(1, 2) == 42 && t.c(1, 2) == 52, "no equation of state changes nothing"); }
  t.others(); fsx_cover(k == 0 ? "gas" : k == 1 ? "elastic" : k == 2 ? "void" : "none"); }
FSX_ENTRY h_erosion() { Pt t; DRaggedRightArrayKokkos<bool> er(t.buf, "e"); for (int m = 0; m < 2; m++) for (size_t i = 0; i < t.buf(m); i++) er(m, i) = false; bool was = fsx_choose(2, "was eroded"), none = fsx_choose(2, "model"); er(1, 2) = was; double p = sd("p"), den = sd("den", 0, 10), tv = sd("tension"), dv = sd("min den", 0, 5);
  if (none) NoErosionModel::erode(er, t.st, p, den, 1, 1, tv, dv, 2, 1); else BasicErosionModel::erode(er, t.st, p, den, 1, 1, tv, dv, 2, 1); bool w = was || (!none && (p <= tv || den <= dv)); fsx_check(er(1, 2) == w, "a material erodes at its tension or density limit, and for good"); fsx_check(!er(0, 0) && !er(1, 0) && !er(1, 1), "only the given material point is eroded"); fsx_cover(w ? "eroded" : "sound"); }
// ---- hypo-elastic J2 plasticity
struct Plast : Pt { Table sg; D vg; double s0[3][3], s1[3][3], L[3][3], tr[3][3], G, Y, dt, al; int k; Ragged sv; DRaggedRightArrayKokkos<size_t> map;
  Plast(bool rz) : sg(table(2, 2)), vg(2, 3, 3) { G = sd("G", 0.1, 50); Y = sd("Y", 0.1, 10); dt = sd("dt", 0, 1); al = fsx_choose(2, "stage") ? 1.0 : 0.5; }
  void sym(double (&s)[3][3], const char* n, bool rz) { s[0][0] = sd(n); s[1][1] = sd(n); s[2][2] = -s[0][0] - s[1][1]; s[0][1] = s[1][0] = sd(n); s[0][2] = s[2][0] = rz ? 0.0 : sd(n); s[1][2] = s[2][1] = rz ? 0.0 : sd(n); }
  void go(bool rz) { sg(0, 0) = sg(0, 1) = 1e7; sg(1, 0) = G; sg(1, 1) = Y; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { st0(1, 2, i, j) = s0[i][j]; st(1, 2, i, j) = s1[i][j]; vg(0, i, j) = 1e5; vg(1, i, j) = L[i][j]; st(1, 1, i, j) = 12; }
    DCArrayKokkos<size_t> nie; if (rz) HypoPlasticityRZModel::calc_stress(vg, vg, vg, nie, p, st, st0, c, ev, sv, 1, 1, sh, map, g, sg, 1, dt, al, 0, 1, 2, 1, 1, 1); else HypoPlasticityModel::calc_stress(vg, vg, vg, nie, p, st, st0, c, ev, sv, 1, 1, sh, map, g, sg, 1, dt, al, 0, 1, 2, 1, 1, 1);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) fsx_check(st(1, 1, i, j) == 12, "only the given material point is written"); others(); } 
  void trial() { double div = L[0][0] + L[1][1] + L[2][2]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double r = G * (L[i][j] + L[j][i]) - (i == j ? 2 * G * div / 3 : 0.0); for (int q = 0; q < 3; q++) r += 0.5 * (L[i][q] - L[q][i]) * s1[q][j] - s1[i][q] * 0.5 * (L[q][j] - L[j][q]); tr[i][j] = s0[i][j] + al * dt * r; } }
  double norm2(double (&s)[3][3]) { double q = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) q += s[i][j] * s[i][j]; return 1.5 * q; }
  void result(double (&r)[3][3]) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[i][j] = st(1, 2, i, j); } };
// grp: which of the inputs are symbolic (0 old stress, 1 stage stress, 2 velocity gradient, 3 all, below yield)
FSX_ENTRY h_plastic() { Plast t(false); int grp = fsx_choose(fsx_param("groups", 3), "symbolic"); if (grp == 3) t.Y = 1e9; else { t.G = 3; t.dt = 0.25; }
  static const double S0[5] = {1, -0.5, 0.25, 2, -1}, S1[5] = {0.5, 1, -1, 0.75, 0.25}; auto con = [&](double (&s)[3][3], const double* c) { s[0][0] = c[0]; s[1][1] = c[1]; s[2][2] = -c[0] - c[1]; s[0][1] = s[1][0] = c[2]; s[0][2] = s[2][0] = c[3]; s[1][2] = s[2][1] = c[4]; };
  if (grp == 0 || grp == 3) t.sym(t.s0, "s0", false); else con(t.s0, S0); if (grp == 1 || grp == 3) t.sym(t.s1, "s1", false); else con(t.s1, S1); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) t.L[i][j] = grp >= 2 ? sd("L") : 0.5 * i - 0.75 * j + i * j * 0.25; t.go(false); t.trial(); double r[3][3]; t.result(r); 
  bool el = true; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (r[i][j] != t.tr[i][j]) el = false; double T2 = t.norm2(t.tr) + 1e-16, q = sqrt(T2); 
  if (el) { fsx_check(q <= t.Y + 1e-7, "a stress above yield is returned"); fsx_cover("elastic"); return; } fsx_check(q >= t.Y - 1e-7, "below yield the stress follows the Jaumann rate of the strain rate deviator"); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) fsx_check_near(r[i][j] * q, t.tr[i][j] * t.Y, TOL, "above yield the stress is returned radially to the yield surface"); fsx_cover("plastic"); }
// few symbols: the yield limit itself
FSX_ENTRY h_yield() { bool rz = fsx_choose(2, "rz"); Plast t(rz); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) t.s0[i][j] = t.s1[i][j] = t.L[i][j] = 0; int k = fsx_choose(3, "pattern"); double a = sd("a"), b = sd("b"); if (k == 0) { t.s0[0][0] = a; t.s0[1][1] = b; t.s0[2][2] = -a - b; } if (k == 1) { t.s0[0][1] = t.s0[1][0] = a; t.s0[0][0] = b; t.s0[1][1] = -b; } if (k == 2) { t.L[0][1] = a; t.L[0][0] = b; t.L[1][1] = -b; } for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) t.s1[i][j] = t.s0[i][j];
  double in2 = t.norm2(t.s0); t.go(rz); double r[3][3]; t.result(r); double q = t.norm2(r); fsx_check(q <= t.Y * t.Y * (1 + 1e-9) + 1e-9, "the equivalent stress does not exceed the yield strength"); if (k < 2) { if (in2 < t.Y * t.Y - 1e-9) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) fsx_check_near(r[i][j], t.s0[i][j], TOL, "without deformation a stress below yield stays"); fsx_cover("kept"); } else fsx_cover("yield"); } else fsx_cover("strain");
  if (k == 2) { fsx_check_near(r[0][0] + r[1][1] + r[2][2], 0, TOL, "the stress stays deviatoric"); if (!rz && q < t.Y * t.Y - 1e-6) { fsx_check_near(r[0][0], 2 * t.G * b * t.al * t.dt, TOL, "elastic response to stretching"); fsx_check_near(r[0][1], t.G * a * t.al * t.dt, TOL, "elastic response to shearing"); } } }
// ---- artificial viscosity
struct Mars { int dims, nn; swage::Mesh m; Table g; D vg, v; DCArrayKokkos<size_t> buf; Ragged den, ss; DRaggedRightArrayKokkos<bool> er; double f[24], a[24], vol; int model;
  Mars(int model, int dims) : dims(dims), nn(dims == 3 ? 8 : 4), g(table(2, 6)), buf(2), model(model) { swage::fsx_block(m, dims, 2, 1, 1); vg = D(2, 3, 3); v = D(m.num_nodes, dims); buf(0) = 1; buf(1) = 2; den = Ragged(buf, "d"); ss = Ragged(buf, "c"); er = DRaggedRightArrayKokkos<bool>(buf, "e"); }
  void go() { ViewCArrayKokkos<double> F(f, nn, dims), A(a, nn, dims); ViewCArrayKokkos<size_t> id(&m.nodes_in_elem(1, 0), nn); 
#define CALL(N) N::calc_dissipation(id, g, vg, er, v, den, ss, F, A, m.elems_in_elem, m.num_elems_in_elem, vol, 1e-16, 1e-8, 1, 1, 1)
    if (dims == 3) { if (model) CALL(DirMARSDissipationModel); else CALL(MARSDissipationModel); } else { if (model) CALL(DirMARSRZDissipationModel); else CALL(MARSRZDissipationModel); } }
  double& vel(int l, int d) { return v(m.nodes_in_elem(1, l), d); } };
// sym: how many of the element's velocities (from node k on) are symbolic
static void fill(Mars& t, int k, int sym) { static const double V[8][3] = {{1, 0, 2}, {-1, 3, 0.5}, {0, -2, 1}, {2, 1, -1}, {0.5, 0.25, 3}, {-3, 1, 1}, {1.5, -1, -2}, {2.5, 2, 0}}; for (size_t n = 0; n < t.m.num_nodes; n++) for (int d = 0; d < t.dims; d++) t.v(n, d) = V[n % 8][d]; for (int q = 0; q < sym; q++) for (int d = 0; d < t.dims; d++) t.vel((k + q) % t.nn, d) = sd("v", -5, 5);
  for (int e = 0; e < 2; e++) for (int i = 0; i < 9; i++) { t.vg(e, i / 3, i % 3) = 0; if (t.dims == 3 || (i / 3 < 2 && i % 3 < 2) || i == 8) t.vg(e, i / 3, i % 3) = e ? (i % 2 ? sd("L") : i == 0 ? sd("L") : 0.5 - i / 8.) : 0.25 * i - 1; }
  static const double H[8][3] = {{-1, -1, -1}, {1, -1, -1}, {-1, 1, -1}, {1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {-1, 1, 1}, {1, 1, 1}}, Q[4][2] = {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}}; for (int l = 0; l < t.nn; l++) for (int d = 0; d < t.dims; d++) { t.a[l * t.dims + d] = t.dims == 3 ? H[l][d] * (1 + d) : Q[l][d] * (1 + d); t.f[l * t.dims + d] = 0; }
  t.vol = 1; for (int i = 0; i < 6; i++) { t.g(0, i) = 1e4; t.g(1, i) = i < 4 ? 0.5 + 0.25 * i : sd("floor", 0, 1); } t.den(1, 1) = sd("den", 0.1, 10); t.ss(1, 1) = sd("c", 0.1, 10); t.den(1, 0) = t.den(0, 0) = t.ss(0, 0) = t.ss(1, 0) = 1e4; }
static int model_choice(int& dims) { int k = fsx_choose(4, "model"); dims = k < 2 ? 3 : 2; return k % 2; }
FSX_ENTRY h_mars_momentum() { int dims, mo = model_choice(dims); Mars t(mo, dims); fill(t, fsx_param("all", 0) ? fsx_choose(t.nn, "node") : dims == 3 ? 5 : 2, mo ? 0 : 1); if (mo) { int r = fsx_choose(4, "pattern"); for (int l = 0; l < t.nn; l++) for (int d = 0; d < dims; d++) t.vel(l, d) = (l * 5 + r * 3 + d * 7) % 11 * 0.5 - 2; } double div = t.vg(1, 0, 0) + t.vg(1, 1, 1) + t.vg(1, 2, 2); fsx_assume(div != -1e-8); t.go(); for (int d = 0; d < dims; d++) { double s = 0; for (int l = 0; l < t.nn; l++) s += t.f[l * dims + d]; fsx_check_near(s, 0, 1e-7, "the viscous forces of an element sum to zero"); } fsx_cover(dims == 3 ? "3D" : "RZ"); }
// the same flow seen from a moving frame, and in a mirror
FSX_ENTRY h_mars_frame() { int dims, mo = model_choice(dims); Mars t(mo, dims), u(mo, dims); fill(t, 0, 0); for (int i = 0; i < 6; i++) u.g(1, i) = t.g(1, i); for (int i = 0; i < 18; i++) u.vg(i / 9, i / 3 % 3, i % 3) = t.vg(i / 9, i / 3 % 3, i % 3); double div = t.vg(1, 0, 0) + t.vg(1, 1, 1) + t.vg(1, 2, 2); fsx_assume(div != -1e-8); u.vol = t.vol; for (int i = 0; i < 24; i++) { u.a[i] = t.a[i]; u.f[i] = 0; } u.den(1, 1) = t.den(1, 1); u.ss(1, 1) = t.ss(1, 1); double c[3]; int mirror = fsx_choose(dims + 1, "mirror") - 1; for (int d = 0; d < dims; d++) c[d] = mirror < 0 ? (double)(3 * d + 1) : 0.0;
  for (size_t n = 0; n < t.m.num_nodes; n++) for (int d = 0; d < dims; d++) u.v(n, d) = (d == mirror ? -1 : 1) * t.v(n, d) + c[d]; if (mirror >= 0) { for (int l = 0; l < t.nn; l++) u.a[l * dims + mirror] *= -1; for (int e = 0; e < 2; e++) for (int i = 0; i < 9; i++) if ((i / 3 == mirror) != (i % 3 == mirror)) u.vg(e, i / 3, i % 3) = -u.vg(e, i / 3, i % 3); }
  t.go(); u.go(); for (int l = 0; l < t.nn; l++) for (int d = 0; d < dims; d++) fsx_check_near(u.f[l * dims + d], (d == mirror ? -1 : 1) * t.f[l * dims + d], 1e-7, "viscous forces are the same in a moving frame and mirrored in a mirrored flow"); fsx_cover(mirror < 0 ? "moving" : "mirror"); }
// each force drives its node towards the common (Riemann) velocity, and not at all when all move alike
FSX_ENTRY h_mars_dissipate() { int dims, mo = model_choice(dims); Mars t(mo, dims); fill(t, 0, 0); bool uni = fsx_choose(2, "uniform"); double div = t.vg(1, 0, 0) + t.vg(1, 1, 1) + t.vg(1, 2, 2); fsx_assume(div != -1e-8); if (uni) for (int d = 0; d < dims; d++) { double c = sd("v"); for (size_t n = 0; n < t.m.num_nodes; n++) t.v(n, d) = c; } t.go(); double w = 0; for (int l = 0; l < t.nn; l++) for (int d = 0; d < dims; d++) { w += t.f[l * dims + d] * t.vel(l, d); if (uni) fsx_check_near(t.f[l * dims + d], 0, 1e-7, "no viscous force in a uniform flow"); } fsx_check(w <= 1e-6, "viscous forces only take kinetic energy"); fsx_cover(uni ? "uniform" : "dissipated"); }
// axisymmetric plasticity: elastic response from rest, and spin of a stressed point
FSX_ENTRY h_rz_stretch() { Plast t(true); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) t.s0[i][j] = t.s1[i][j] = t.L[i][j] = 0; double q = 0; t.Y = 1e9; for (int i = 0; i < 3; i++) t.L[i][i] = sd("L"); if (fsx_choose(2, "stressed")) { t.s0[0][0] = sd("s"); t.s0[1][1] = sd("s"); t.s0[2][2] = -t.s0[0][0] - t.s0[1][1]; } double div = t.L[0][0] + t.L[1][1] + t.L[2][2]; t.go(true); double r[3][3]; t.result(r); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) fsx_check_near(r[i][j], t.s0[i][j] + (i == j ? 2 * t.G * t.al * t.dt * (t.L[i][i] - div / 3) : 0.0), TOL, "RZ: stretching from an unstressed stage adds twice the shear modulus times the strain deviator"); fsx_cover("stretch"); }
FSX_ENTRY h_rz_shear() { Plast t(true); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) t.s0[i][j] = t.s1[i][j] = t.L[i][j] = 0; t.Y = 1e9; t.L[0][1] = sd("L"); t.L[1][0] = sd("L"); t.go(true); double r[3][3]; t.result(r); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (i == j || i == 2 || j == 2) fsx_check_near(r[i][j], 0, TOL, "RZ: shearing adds shear stress only"); fsx_check_near(r[0][1], r[1][0], TOL, "RZ: the stress is symmetric"); fsx_cover("shear"); fsx_check_near(r[0][1], t.G * t.al * t.dt * (t.L[0][1] + t.L[1][0]), TOL, "RZ: shearing adds twice the shear modulus times the shear rate"); }
FSX_ENTRY h_rz_spin() { Plast t(true); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) t.s0[i][j] = t.L[i][j] = 0; t.Y = 1e9; double w = sd("w"); t.L[0][1] = w; t.L[1][0] = -w; t.s0[0][0] = sd("s"); t.s0[1][1] = sd("s"); t.s0[2][2] = -t.s0[0][0] - t.s0[1][1]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) t.s1[i][j] = t.s0[i][j]; t.go(true); double r[3][3]; t.result(r); fsx_check_near(r[2][2], t.s0[2][2], TOL, "RZ: spin leaves the hoop stress alone"); for (int i = 0; i < 2; i++) fsx_check(r[i][2] == 0 && r[2][i] == 0, "RZ: no shear out of the plane"); fsx_cover("spin"); fsx_check_near(r[0][1], t.al * t.dt * w * (t.s0[1][1] - t.s0[0][0]), TOL, "RZ: the stress turns with the material"); }
