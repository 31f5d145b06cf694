// Y05: reading a node's text as a typed value.
#include "yaml2.h"
static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
// independent reader of [blanks][sign]digits; returns false when there is no number
static bool rd(const std::string& s, long lo, long hi, long& v) {
  size_t i = 0; while (i < s.size() && sp(s[i])) i++;
  bool neg = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
  if (i >= s.size() || s[i] < '0' || s[i] > '9') return false;
  long a = 0; while (i < s.size() && s[i] >= '0' && s[i] <= '9') { a = a * 10 + (s[i++] - '0'); if (a > 1000000000000000L) a = 1000000000000000L; }
  if (neg) a = -a; v = a < lo ? lo : a > hi ? hi : a; return a >= lo && a <= hi; }
template <class L> static void h_int() {
  size_t n = fsx_choose(fsx_param("n", 4) + 1, "len"); std::string s = fsx_string_any("c", n); typename L::Node x; x = s;
  long v = 0; bool ok = rd(s, -2147483647L - 1, 2147483647L, v); fsx_cover(ok ? "number" : "text");
  int a = x.template As<int>(), d = x.template As<int>(77);
  fsx_check(a == (ok ? v : 0), "As<int> reads the decimal number at the start of the text, 0 when there is none");
  fsx_check(d == (ok ? v : 77), "As<int> falls back on the default exactly when the text does not start with a number");
  long l = x.template As<long>(5); fsx_check(l == (ok ? v : 5), "As<long> agrees with As<int>");
  fsx_check(x.template As<std::string>() == s && x.template As<std::string>("dd") == (n ? s : "dd"), "As<string> is the text itself");
  fsx_obs("a", a); fsx_obs("d", d);
}
template <class L> static void h_wide() {   // numbers around the limits of int
  static const char* pre[] = {"21474836", "-21474836", "0000000000", "+1", " 42949672", "99999999999", "-99999999999"};
  std::string s = pre[fsx_choose(7, "prefix")]; size_t n = fsx_choose(fsx_param("n", 3) + 1, "len"); s += fsx_string("c", n, "0123456789 .e-"); typename L::Node x; x = s;
  long v = 0; bool ok = rd(s, -2147483647L - 1, 2147483647L, v); fsx_cover(ok ? "fits" : "overflow");
  fsx_check(x.template As<int>() == v, "As<int> is the value, saturated at the limits of int"); fsx_check(x.template As<int>(77) == (ok ? v : 77), "a number that does not fit gives the default");
  long w = 0; rd(s, -1000000000000000L, 1000000000000000L, w); fsx_check(x.template As<long>() == w, "As<long> holds values beyond int"); fsx_obs("v", v);
}
template <class L> static void h_bool() {
  size_t n = fsx_choose(fsx_param("n", 5) + 1, "len"); std::string s = fsx_string_any("c", n); typename L::Node x; x = s;
  auto is = [&](const char* w) { size_t k = 0; while (w[k]) k++; if (k != s.size()) return false; bool r = true; for (size_t i = 0; i < k; i++) r &= s[i] == w[i] || (w[i] >= 'a' && s[i] == w[i] - 32); return r; };
  bool e = is("true") || is("yes") || is("1"); if (e) fsx_cover("true"); else fsx_cover("false");
  fsx_check(x.template As<bool>() == e, "As<bool> is true exactly for true, yes and 1 in any case");
  fsx_check(x.template As<bool>(true) == (n ? e : true) && x.template As<bool>(false) == e, "the default applies to empty text only"); fsx_obs("e", e);
}
template <class L> static void h_real() {
  size_t n = fsx_choose(fsx_param("n", 3), "len") + 1; std::string s = fsx_string("c", n, fsx_param("wide", 0) ? "0579.e-" : "015.e-"); for (auto& c : s) c = (char)fsx_concretize((unsigned char)c); typename L::Node x; x = s;
  // independent reader for short decimals: digits[.digits][e[-]digits], exact powers of ten
  size_t i = 0; bool neg = false; if (s[i] == '-') { neg = true; i++; } long m = 0; int frac = 0; bool dig = false;
  while (i < n && s[i] >= '0' && s[i] <= '9') { m = m * 10 + (s[i++] - '0'); dig = true; }
  if (i < n && s[i] == '.') { i++; while (i < n && s[i] >= '0' && s[i] <= '9') { m = m * 10 + (s[i++] - '0'); frac++; dig = true; } }
  int ex = 0; bool bad = !dig; if (dig && i < n && s[i] == 'e') { i++; bool en = false; if (i < n && s[i] == '-') { en = true; i++; } bool ed = false; while (i < n && s[i] >= '0' && s[i] <= '9') { ex = ex * 10 + (s[i++] - '0'); ed = true; } if (!ed) bad = true; if (en) ex = -ex; }
  fsx_assume(ex <= 20 && ex >= -20); ex -= frac; double v = (double)m; for (int k = ex; k > 0; k--) v *= 10; double q = 1; for (int k = ex; k < 0; k++) q *= 10; v /= q; if (neg) v = -v; if (bad) v = 0; fsx_cover(bad ? "text" : "number");
  double a = x.template As<double>(), d = x.template As<double>(2.5);
  if (!bad) { fsx_check(a == v && d == v, "As<double> is the correctly rounded value of a short decimal"); fsx_check(x.template As<float>() == (float)v, "As<float> likewise"); }
  else { fsx_check(a == 0, "text that is no number reads as 0"); fsx_check(d == 2.5, "text that is no number gives the default"); }
  fsx_obs_d("a", a);
}
template <class L> static void h_kind() {   // containers and empty nodes have no text
  typename L::Node x; int k = fsx_choose(3, "kind"); if (k == 1) x["a"] = "1"; if (k == 2) x.PushBack() = "1"; int dv = fsx_int("default", 32, -2147483647L - 1, 2147483647L);
  fsx_check(x.template As<std::string>() == "" && x.template As<int>() == 0 && !x.template As<bool>() && x.template As<double>() == 0, "a node without text reads as a zero value");
  fsx_check(x.template As<int>(dv) == dv && x.template As<bool>(true) && x.template As<std::string>("d") == "d", "a node without text gives the default"); fsx_obs("k", k);
}
FSX_BOTH(h_int) FSX_BOTH(h_wide) FSX_BOTH(h_bool) FSX_BOTH(h_real) FSX_BOTH(h_kind)
