#include "poly.h"
#include "solver.h"
#include <limits>
#include <gmpxx.h>
#include <map>
#include <memory>
#include <chrono>
unsigned long g_polyCalls = 0; double g_polySecs = 0;
typedef std::basic_string<char32_t> Mono;            // sorted atom ids, repeated by degree
typedef std::map<Mono, mpq_class> Poly;
typedef std::vector<std::pair<uint32_t, uint32_t>> Den;   // (interned monic polynomial, exponent)
struct Rat { Poly n; Den d; };
struct Big {}; static size_t g_work, g_lim;
static std::unordered_map<uint32_t, std::pair<PolyKind, E>> g_rel; static std::unordered_map<uint32_t, std::pair<double, double>> g_range;
static std::vector<Poly> g_facs; static std::map<Poly, uint32_t> g_facIx;
static std::unordered_map<uint32_t, Poly> g_sq;      // reducible atom -> polynomial equal to its square
static std::unordered_map<uint32_t, E> g_atomE;
static std::unordered_map<E, std::shared_ptr<Rat>> g_memo;
void polyRelate(E v, PolyKind k, E a) { g_rel[v->c] = {k, a}; }
void polyRange(E v, double lo, double hi) { g_range[v->c] = {lo, hi}; }
static void add(Poly& p, const Mono& m, const mpq_class& c) { if (++g_work > g_lim) throw Big{}; auto it = p.emplace(m, c); if (!it.second) { it.first->second += c; if (it.first->second == 0) p.erase(it.first); } else if (c == 0) p.erase(it.first); }
static Poly pmul(const Poly& a, const Poly& b);
static void addReduced(Poly& r, const Mono& m, const mpq_class& c) {
  for (size_t i = 0; i + 1 < m.size(); i++) if (m[i] == m[i + 1]) { auto it = g_sq.find(m[i]); if (it != g_sq.end()) { Mono rest = m.substr(0, i) + m.substr(i + 2); Poly t; t[rest] = c; Poly q = pmul(t, it->second); for (auto& x : q) add(r, x.first, x.second); return; } while (i + 1 < m.size() && m[i] == m[i + 1]) i++; }
  add(r, m, c); }
static Mono mmul(const Mono& a, const Mono& b) { Mono r; r.reserve(a.size() + b.size()); std::merge(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r)); return r; }
static Poly pmul(const Poly& a, const Poly& b) { if (a.size() * b.size() > 400000) throw Big{}; Poly r; for (auto& x : a) for (auto& y : b) { g_work++; addReduced(r, mmul(x.first, y.first), x.second * y.second); } return r; }
static void padd(Poly& a, const Poly& b, int s) { for (auto& x : b) add(a, x.first, s > 0 ? x.second : mpq_class(-x.second)); }
static bool isConst(const Poly& p) { return p.empty() || (p.size() == 1 && p.begin()->first.empty()); }
// exact division of p by q (no reducible atoms involved in a way that matters: result is checked by multiplication)
static bool mdiv(const Mono& a, const Mono& b, Mono& r) { r.clear(); size_t j = 0; for (size_t i = 0; i < a.size(); i++) { if (j < b.size() && a[i] == b[j]) j++; else { if (j < b.size() && a[i] > b[j]) return false; r.push_back(a[i]); } } return j == b.size(); }
// degree-lexicographic leading monomial: a monomial order compatible with multiplication
static bool dl(const Mono& a, const Mono& b) { if (a.size() != b.size()) return a.size() < b.size(); return b < a; }
static Poly::const_iterator lead(const Poly& p) { auto l = p.begin(); for (auto i = p.begin(); i != p.end(); ++i) if (dl(l->first, i->first)) l = i; return l; }
static bool pdiv(const Poly& p, const Poly& q, Poly& out) {
  if (p.size() < q.size() || q.empty() || p.size() > 3000) return false; out.clear(); Poly r = p; auto lq = lead(q); Mono t; size_t steps = 0;
  while (!r.empty()) { auto lr = lead(r); if (!mdiv(lr->first, lq->first, t) || ++steps > 600) return false; mpq_class c = lr->second / lq->second; out[t] = c; Poly s; for (auto& x : q) { Mono mm = mmul(t, x.first); s[mm] = -c * x.second; if (++g_work > g_lim) throw Big{}; } for (auto& x : s) add(r, x.first, x.second); }
  return true; }
static uint32_t factor(const Poly& p) { auto it = g_facIx.find(p); if (it != g_facIx.end()) return it->second; uint32_t i = g_facs.size(); g_facs.push_back(p); g_facIx[p] = i; return i; }
static void addDen(Den& d, uint32_t f, uint32_t e) { for (auto& x : d) if (x.first == f) { x.second += e; return; } d.push_back({f, e}); std::sort(d.begin(), d.end()); }
static void cancel(Rat& r) { if (r.n.empty()) { r.d.clear(); return; } for (size_t i = 0; i < r.d.size();) { Poly q; if (pdiv(r.n, g_facs[r.d[i].first], q)) { r.n = q; if (--r.d[i].second == 0) r.d.erase(r.d.begin() + i); } else i++; } }
static Poly facPow(uint32_t f, uint32_t e) { Poly r; r[Mono()] = 1; for (uint32_t i = 0; i < e; i++) r = pmul(r, g_facs[f]); return r; }
static Rat radd(const Rat& a, const Rat& b, int s) {
  Rat r; if (a.d == b.d) { r = a; padd(r.n, b.n, s); if (!r.d.empty()) cancel(r); return r; }
  Poly na = a.n, nb = b.n; size_t i = 0, j = 0;
  while (i < a.d.size() || j < b.d.size()) {
    if (j == b.d.size() || (i < a.d.size() && a.d[i].first < b.d[j].first)) { r.d.push_back(a.d[i]); nb = pmul(nb, facPow(a.d[i].first, a.d[i].second)); i++; }
    else if (i == a.d.size() || b.d[j].first < a.d[i].first) { r.d.push_back(b.d[j]); na = pmul(na, facPow(b.d[j].first, b.d[j].second)); j++; }
    else { uint32_t ea = a.d[i].second, eb = b.d[j].second, m = std::max(ea, eb); if (ea < m) na = pmul(na, facPow(a.d[i].first, m - ea)); if (eb < m) nb = pmul(nb, facPow(a.d[i].first, m - eb)); r.d.push_back({a.d[i].first, m}); i++; j++; } }
  r.n = na; padd(r.n, nb, s); cancel(r); return r; }
static Rat rmul(const Rat& a, const Rat& b) { Rat r; r.n = pmul(a.n, b.n); r.d = a.d; for (auto& x : b.d) addDen(r.d, x.first, x.second); if (!r.d.empty()) cancel(r); return r; }
static Rat rinv(const Rat& a) { Rat r; if (a.n.empty()) throw Big{}; r.n[Mono()] = 1; for (auto& x : a.d) r.n = pmul(r.n, facPow(x.first, x.second)); 
  Poly m = a.n; 
  if (isConst(m)) { mpq_class c = m.begin()->second; for (auto& x : r.n) x.second /= c; return r; }
  // common monomial factors become factors of their own
  Mono g = m.begin()->first; for (auto& x : m) { Mono t; std::set_intersection(g.begin(), g.end(), x.first.begin(), x.first.end(), std::back_inserter(t)); g = t; }
  if (!g.empty()) { Poly q; for (auto& x : m) { Mono t; mdiv(x.first, g, t); q[t] = x.second; } m = q; for (auto c : g) { Poly v; v[Mono(1, c)] = 1; addDen(r.d, factor(v), 1); } }
  // known factors
  for (uint32_t f = 0; f < g_facs.size() && f < 64 && !isConst(m); f++) { Poly q; if (g_facs[f].size() > 1 || true) while (!isConst(m) && pdiv(m, g_facs[f], q)) { m = q; addDen(r.d, f, 1); } }
  mpq_class c = lead(m)->second; if (c != 1) { for (auto& x : m) x.second /= c; for (auto& x : r.n) x.second /= c; }
  if (!isConst(m)) addDen(r.d, factor(m), 1);
  cancel(r); return r; }
static std::shared_ptr<Rat> nf(E e);
static std::shared_ptr<Rat> atom(uint32_t id, E e) { auto r = std::make_shared<Rat>(); r->n[Mono(1, (char32_t)id)] = 1; g_atomE[id] = e; return r; }
static std::shared_ptr<Rat> nf(E e) {
  auto it = g_memo.find(e); if (it != g_memo.end()) return it->second;
  std::shared_ptr<Rat> r;
  switch (e->op) {
    case R_CONST: r = std::make_shared<Rat>(); { mpq_class q(rconstStr(e->c)); if (q != 0) r->n[Mono()] = q; } break;
    case R_ADD: r = std::make_shared<Rat>(radd(*nf(e->k[0]), *nf(e->k[1]), 1)); break;
    case R_SUB: r = std::make_shared<Rat>(radd(*nf(e->k[0]), *nf(e->k[1]), -1)); break;
    case R_NEG: r = std::make_shared<Rat>(*nf(e->k[0])); for (auto& x : r->n) x.second = -x.second; break;
    case R_MUL: r = std::make_shared<Rat>(rmul(*nf(e->k[0]), *nf(e->k[1]))); break;
    case R_DIV: r = std::make_shared<Rat>(rmul(*nf(e->k[0]), rinv(*nf(e->k[1])))); break;
    case R_VAR: case O_VAR: { uint32_t v = e->c; auto q = g_rel.find(v);
      if (q == g_rel.end()) { r = atom(v, e); break; }
      if (q->second.first == PK_ALIAS) { r = nf(q->second.second); break; }
      if (q->second.first == PK_SIN) { if (!g_sq.count(v)) { Rat c = *nf(q->second.second); Poly p; p[Mono()] = 1; padd(p, pmul(c.n, c.n), -1); if (!c.d.empty()) { r = atom(v, e); break; } g_sq[v] = p; } r = atom(v, e); break; }
      Rat x = *nf(q->second.second); Poly den; den[Mono()] = 1; for (auto& f : x.d) den = pmul(den, facPow(f.first, f.second));
      if (!g_sq.count(v)) g_sq[v] = pmul(x.n, den); r = std::make_shared<Rat>(); r->n[Mono(1, (char32_t)v)] = 1; g_atomE[v] = e; r->d = x.d; break; }
    default: r = atom(0x40000000u + e->id, e); break;
  }
  if (g_memo.size() > 40000) g_memo.clear();
  g_memo[e] = r; return r; }
struct Guard { std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now(); Guard(size_t l) { g_work = 0; g_lim = l; g_polyCalls++; } ~Guard() { g_polySecs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); } };
bool polyIsZero(E e) { Guard g(3000000); try { return nf(e)->n.empty(); } catch (Big&) { return false; } }
// intervals: plain doubles widened by a relative margin far above rounding error
struct Iv { double lo, hi; };
static double INF = std::numeric_limits<double>::infinity();
static Iv wid(Iv a) { a.lo -= std::fabs(a.lo) * 1e-13; a.hi += std::fabs(a.hi) * 1e-13; if (a.lo != a.lo) a.lo = -INF; if (a.hi != a.hi) a.hi = INF; return a; }
static Iv ivmul(Iv a, Iv b) { auto m = [](double x, double y) { return x == 0 || y == 0 ? 0.0 : x * y; }; double p[4] = {m(a.lo, b.lo), m(a.lo, b.hi), m(a.hi, b.lo), m(a.hi, b.hi)}; return wid({*std::min_element(p, p + 4), *std::max_element(p, p + 4)}); }
static Iv ivpow(Iv a, unsigned k) { double l = std::pow(a.lo, k), h = std::pow(a.hi, k); if (k % 2) return wid({l, h}); if (a.lo <= 0 && a.hi >= 0) return wid({0, std::max(l, h)}); return wid({std::min(l, h), std::max(l, h)}); }
static Iv atomIv(uint32_t id) { if (id < 0x40000000u) { auto r = g_rel.find(id); bool sq = r != g_rel.end() && r->second.first == PK_SQRT; auto it = g_range.find(id); if (it != g_range.end()) return {it->second.first, it->second.second}; if (sq) return {-INF, INF}; if (r != g_rel.end() && r->second.first == PK_SIN) return {-1, 1}; return {-INF, INF}; }
  E e = g_atomE[id]; if (e && e->op == R_FN && rfnName(e->c) == "exp") return {0, INF}; return {-INF, INF}; }
static Iv polyIv(const Poly& p) { Iv s{0, 0}; for (auto& x : p) { double c = x.second.get_d(); Iv t{c, c}; t = wid(t); const Mono& m = x.first; for (size_t i = 0; i < m.size();) { size_t j = i; while (j < m.size() && m[j] == m[i]) j++; t = ivmul(t, ivpow(atomIv(m[i]), j - i)); i = j; } s.lo += t.lo; s.hi += t.hi; if (s.lo != s.lo) s.lo = -INF; if (s.hi != s.hi) s.hi = INF; s = wid(s); } return s; }
static int sgn(Iv v) { if (v.lo > 0) return 1; if (v.hi < 0) return -1; if (v.lo >= 0) return 2; if (v.hi <= 0) return -2; return 9; }
int polySign(E e) { Guard g(60000); try { auto r = nf(e); if (r->n.empty()) return 0; int s = sgn(polyIv(r->n)); if (s == 9) return 9; for (auto& f : r->d) { if (f.second % 2 == 0) continue; int t = sgn(polyIv(g_facs[f.first])); if (t == 9) return 9; if (t < 0) s = -s; } return s; } catch (Big&) { return 9; } }
bool polyWithin(E e, double tol) { Guard g(3000000); try { auto r = nf(e); if (r->n.empty()) return true; Iv n = polyIv(r->n); double m = std::max(std::fabs(n.lo), std::fabs(n.hi)); for (auto& f : r->d) { Iv d = polyIv(g_facs[f.first]); double l = d.lo > 0 ? d.lo : d.hi < 0 ? -d.hi : 0; if (l <= 0) return false; for (uint32_t i = 0; i < f.second; i++) m /= l; } if (getenv("LLSYM_POLY")) { for (auto& x : r->n) { fprintf(stderr, "   %g *", x.second.get_d()); for (auto c : x.first) fprintf(stderr, " %u[%g,%g]", (unsigned)c, atomIv(c).lo, atomIv(c).hi); fprintf(stderr, "\n"); } } if (getenv("LLSYM_POLY")) fprintf(stderr, "within: terms %zu bound %g tol %g work %zu\n", r->n.size(), m, tol, g_work); return m * (1 + 1e-9) <= tol; } catch (Big&) { if (getenv("LLSYM_POLY")) fprintf(stderr, "within: too big\n"); return false; } }
static E toE(const Poly& p) { E s = nullptr; for (auto& x : p) { E t = mkRConstQ(x.second.get_str()); for (auto c : x.first) t = mkRBin(R_MUL, t, g_atomE[(uint32_t)c]); s = s ? mkRBin(R_ADD, s, t) : t; } return s ? s : mkRConstQ("0"); }
E polySimplify(E e) { if (e->sort != S_REAL || e->size < 12) return e; Guard g(60000); try { auto r = nf(e); if (r->n.size() > 12) return e; for (auto& f : r->d) if (g_facs[f.first].size() > 12) return e;
    // square-root atoms were rescaled: only rebuild when none occurs
    for (auto& x : r->n) for (auto c : x.first) { auto q = g_rel.find((uint32_t)c); if (q != g_rel.end() && q->second.first == PK_SQRT) { Rat t = *nf(q->second.second); if (!t.d.empty()) return e; } }
    for (auto& f : r->d) for (auto& x : g_facs[f.first]) for (auto c : x.first) { auto q = g_rel.find((uint32_t)c); if (q != g_rel.end() && q->second.first == PK_SQRT && !nf(q->second.second)->d.empty()) return e; }
    E n = toE(r->n); for (auto& f : r->d) { E d = toE(g_facs[f.first]); for (uint32_t i = 0; i < f.second; i++) n = mkRBin(R_DIV, n, d); } return n->size < e->size ? n : e; } catch (Big&) { return e; } }

static bool rebuildable(const Rat& r) {
  if (r.n.size() > 12) return false; for (auto& f : r.d) if (g_facs[f.first].size() > 12) return false;
  auto bad = [](const Poly& p) { for (auto& x : p) for (auto c : x.first) { auto q = g_rel.find((uint32_t)c); if (q != g_rel.end() && q->second.first == PK_SQRT && !nf(q->second.second)->d.empty()) return true; } return false; };
  if (bad(r.n)) return false; for (auto& f : r.d) if (bad(g_facs[f.first])) return false; return true; }
E polyCanon(E e) { if (e->sort != S_REAL || e->op == R_CONST || e->op == R_VAR) return e; Guard g(60000); try { auto r = nf(e); if (!rebuildable(*r)) return e; E n = toE(r->n); for (auto& f : r->d) { E d = toE(g_facs[f.first]); for (uint32_t i = 0; i < f.second; i++) n = mkRBin(R_DIV, n, d); } return n; } catch (Big&) { return e; } }
// a term whose square is e, when e is a constant square times even powers
E polyRoot(E e) { if (e->sort != S_REAL) return 0; Guard g(60000); try { auto r = nf(e); if (r->n.size() != 1 || !r->d.empty() || !rebuildable(*r)) return 0; auto& m = *r->n.begin(); if (m.first.empty() || m.second < 0 || !mpz_perfect_square_p(m.second.get_num_mpz_t()) || !mpz_perfect_square_p(m.second.get_den_mpz_t()) || m.first.size() % 2) return 0;
    Poly q; Mono h; for (size_t i = 0; i < m.first.size(); i += 2) { if (m.first[i] != m.first[i + 1]) return 0; h.push_back(m.first[i]); } mpz_class a, b; mpz_sqrt(a.get_mpz_t(), m.second.get_num_mpz_t()); mpz_sqrt(b.get_mpz_t(), m.second.get_den_mpz_t()); q[h] = mpq_class(a, b); return toE(q); } catch (Big&) { return 0; } }
