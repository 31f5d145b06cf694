// stand-in material models that record every argument they are given in their result
#pragma once
static double f_p(double den, double sie, double g) { return 3 * den + 5 * sie + g; }
static void s_pres(const Ragged& p, const Ragged& s, const size_t i, const size_t m, const Ragged& ev, const Ragged& c, const double den, const double sie, const RaggedRightArrayKokkos<double>& g) { p(m, i) = f_p(den, sie, g(m, 0)); }
static void s_sspd(const Ragged& p, const Ragged& s, const size_t i, const size_t m, const Ragged& ev, const Ragged& c, const double den, const double sie, const Ragged& sh, const RaggedRightArrayKokkos<double>& g) { c(m, i) = p(m, i) + 7 * den + sie + sh(m, i); }
static void s_stress(const DCArrayKokkos<double>& vg, const DCArrayKokkos<double>& x, const DCArrayKokkos<double>& v, const DCArrayKokkos<size_t>& nie, const Ragged& p, const Ragged& s, const Ragged& s0, const Ragged& c, const Ragged& ev, const Ragged& sv, const double den, const double sie, const Ragged& sh, const DRaggedRightArrayKokkos<size_t>& map, const RaggedRightArrayKokkos<double>& eg, const RaggedRightArrayKokkos<double>& sg, const double vol, const double dt, const double al, const double time, const size_t cyc, const size_t i, const size_t m, const size_t gauss, const size_t elem) {
  fsx_check(map(m, i) == elem && gauss == elem, "the strength model is given the element of its material point"); for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) s(m, i, a, b) = s0(m, i, a, b) + al * dt * (vg(gauss, a, b) + sg(m, 0)) + 0.5 * p(m, i) + den - sie + vol + c(m, i) + time + cyc; }
static void s_erode(const DRaggedRightArrayKokkos<bool>& er, const Ragged& s, const double p, const double den, const double sie, const double c, const double tv, const double dv, const size_t i, const size_t m) { if (p <= tv || den <= dv) er(m, i) = true; }
