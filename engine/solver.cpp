#include "solver.h"
#include <z3.h>
#include <chrono>
#include <unistd.h>
static Z3_context C; static unsigned g_to = 30000;
SolverStats g_ss;
static Z3_solver g_inc;  // incremental solver for pure bit-vector queries
static Z3_ast P(Z3_ast a) { Z3_inc_ref(C, a); return a; }   // pins temporaries (the context is reference counted)
static Z3_sort bvs(unsigned w) { static Z3_sort t[65]; if (w > 64) return (Z3_sort)P((Z3_ast)Z3_mk_bv_sort(C, w)); if (!t[w]) t[w] = (Z3_sort)P((Z3_ast)Z3_mk_bv_sort(C, w)); return t[w]; }
static bool g_err = false; static std::string g_errs;
static void onerr(Z3_context c, Z3_error_code e) { g_err = true; g_errs = Z3_get_error_msg(c, e); }
void solverInit(unsigned timeoutMs) {
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
  C = Z3_mk_context_rc(cfg); Z3_set_error_handler(C, onerr); g_to = timeoutMs;
  g_inc = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, g_inc);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), g_to);
  Z3_solver_set_params(C, g_inc, p); Z3_params_dec_ref(C, p);
}
static Z3_ast Z(E e);
static Z3_ast keep(E e, Z3_ast a) { Z3_inc_ref(C, a); const_cast<Expr*>(e)->z3 = a; return a; }
static Z3_ast bv1(Z3_ast b) { static Z3_ast one = P(Z3_mk_unsigned_int64(C, 1, bvs(1))), zero = P(Z3_mk_unsigned_int64(C, 0, bvs(1))); return P(Z3_mk_ite(C, b, one, zero)); }
static Z3_sort realSort() { static Z3_sort s = (Z3_sort)P((Z3_ast)Z3_mk_real_sort(C)); return s; }
static Z3_sort dblSort() { static Z3_sort s = (Z3_sort)P((Z3_ast)Z3_mk_fpa_sort_double(C)); return s; }
static Z3_ast asBV(E e) { Z3_ast a = Z(e); return e->w == 1 && e->sort == S_BV ? bv1(a) : a; }
static Z3_ast RM() { static Z3_ast r = P(Z3_mk_fpa_rne(C)); return r; }
static std::map<std::string, Z3_func_decl> g_ufs;
static Z3_ast Z(E e) {   // width-1 BV exprs translate to Bool
  if (e->z3) return (Z3_ast)e->z3;
  bool b1 = e->sort == S_BV && e->w == 1;
  Z3_ast r = 0;
  auto K = [&](int i) { return Z(e->k[i]); };
  auto KB = [&](int i) { return asBV(e->k[i]); };
  switch (e->op) {
    case O_CONST: r = b1 ? (e->c ? Z3_mk_true(C) : Z3_mk_false(C)) : Z3_mk_unsigned_int64(C, e->c, bvs(e->w)); break;
    case O_VAR: case R_VAR: {
      std::string n = "v" + std::to_string(e->c);
      Z3_sort s = e->sort == S_REAL ? realSort() : b1 ? Z3_mk_bool_sort(C) : bvs(e->w);
      r = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), s); break; }
    case O_ADD: if (b1) { r = Z3_mk_xor(C, K(0), K(1)); break; } r = Z3_mk_bvadd(C, K(0), K(1)); break;
    case O_SUB: if (b1) { r = Z3_mk_xor(C, K(0), K(1)); break; } r = Z3_mk_bvsub(C, K(0), K(1)); break;
    case O_MUL: if (b1) { Z3_ast t[] = {K(0), K(1)}; r = Z3_mk_and(C, 2, t); break; } r = Z3_mk_bvmul(C, K(0), K(1)); break;
    case O_UDIV: r = Z3_mk_bvudiv(C, KB(0), KB(1)); break;
    case O_SDIV: r = Z3_mk_bvsdiv(C, KB(0), KB(1)); break;
    case O_UREM: r = Z3_mk_bvurem(C, KB(0), KB(1)); break;
    case O_SREM: r = Z3_mk_bvsrem(C, KB(0), KB(1)); break;
    case O_AND: { Z3_ast t[] = {K(0), K(1)}; r = b1 ? Z3_mk_and(C, 2, t) : Z3_mk_bvand(C, t[0], t[1]); break; }
    case O_OR: { Z3_ast t[] = {K(0), K(1)}; r = b1 ? Z3_mk_or(C, 2, t) : Z3_mk_bvor(C, t[0], t[1]); break; }
    case O_XOR: r = b1 ? Z3_mk_xor(C, K(0), K(1)) : Z3_mk_bvxor(C, K(0), K(1)); break;
    case O_SHL: r = Z3_mk_bvshl(C, KB(0), KB(1)); break;
    case O_LSHR: r = Z3_mk_bvlshr(C, KB(0), KB(1)); break;
    case O_ASHR: r = Z3_mk_bvashr(C, KB(0), KB(1)); break;
    case O_EQ: r = Z3_mk_eq(C, K(0), K(1)); break;
    case O_ULT: r = Z3_mk_bvult(C, KB(0), KB(1)); break;
    case O_ULE: r = Z3_mk_bvule(C, KB(0), KB(1)); break;
    case O_SLT: r = Z3_mk_bvslt(C, KB(0), KB(1)); break;
    case O_SLE: r = Z3_mk_bvsle(C, KB(0), KB(1)); break;
    case O_ITE: case R_ITE: case F_ITE: r = Z3_mk_ite(C, K(0), K(1), K(2)); break;
    case O_CONCAT: r = Z3_mk_concat(C, KB(0), KB(1)); break;
    case O_EXTRACT: r = Z3_mk_extract(C, e->c + e->w - 1, e->c, KB(0)); break;
    case O_ZEXT: r = Z3_mk_zero_ext(C, e->w - e->k[0]->w, KB(0)); break;
    case O_SEXT: r = Z3_mk_sign_ext(C, e->w - e->k[0]->w, KB(0)); break;
    case R_CONST: r = Z3_mk_numeral(C, rconstStr(e->c).c_str(), realSort()); break;
    case R_ADD: { Z3_ast t[] = {K(0), K(1)}; r = Z3_mk_add(C, 2, t); break; }
    case R_SUB: { Z3_ast t[] = {K(0), K(1)}; r = Z3_mk_sub(C, 2, t); break; }
    case R_MUL: { Z3_ast t[] = {K(0), K(1)}; r = Z3_mk_mul(C, 2, t); break; }
    case R_DIV: r = Z3_mk_div(C, K(0), K(1)); break;
    case R_NEG: r = Z3_mk_unary_minus(C, K(0)); break;
    case R_EQ: r = Z3_mk_eq(C, K(0), K(1)); break;
    case R_LT: r = Z3_mk_lt(C, K(0), K(1)); break;
    case R_LE: r = Z3_mk_le(C, K(0), K(1)); break;
    case R_FN: { int n = e->k[1] ? 2 : 1; std::string nm = rfnName(e->c); auto& d = g_ufs[nm];
      if (!d) { Z3_sort rs = realSort(); Z3_sort dom[] = {rs, rs}; d = Z3_mk_func_decl(C, Z3_mk_string_symbol(C, nm.c_str()), n, dom, rs); Z3_inc_ref(C, (Z3_ast)d); }
      Z3_ast t[2]; t[0] = K(0); if (n == 2) t[1] = K(1); r = Z3_mk_app(C, d, n, t); break; }
    case R_BYTE: throw std::string("unsupported: bit-level access to a real-valued double reached the solver");
    case F_FROMBITS: r = Z3_mk_fpa_to_fp_bv(C, K(0), dblSort()); break;
    case F_TOBITS: r = Z3_mk_fpa_to_ieee_bv(C, K(0)); break;
    case F_ADD: r = Z3_mk_fpa_add(C, RM(), K(0), K(1)); break;
    case F_SUB: r = Z3_mk_fpa_sub(C, RM(), K(0), K(1)); break;
    case F_MUL: r = Z3_mk_fpa_mul(C, RM(), K(0), K(1)); break;
    case F_DIV: r = Z3_mk_fpa_div(C, RM(), K(0), K(1)); break;
    case F_NEG: r = Z3_mk_fpa_neg(C, K(0)); break;
    case F_ABS: r = Z3_mk_fpa_abs(C, K(0)); break;
    case F_SQRT: r = Z3_mk_fpa_sqrt(C, RM(), K(0)); break;
    case F_FMA: r = Z3_mk_fpa_fma(C, RM(), K(0), K(1), K(2)); break;
    case F_EQ: r = Z3_mk_fpa_eq(C, K(0), K(1)); break;
    case F_LT: r = Z3_mk_fpa_lt(C, K(0), K(1)); break;
    case F_LE: r = Z3_mk_fpa_leq(C, K(0), K(1)); break;
    case F_UNO: { Z3_ast t[] = {P(Z3_mk_fpa_is_nan(C, K(0))), P(Z3_mk_fpa_is_nan(C, K(1)))}; r = Z3_mk_or(C, 2, t); break; }
    case F_RND: { Z3_ast m = e->c == 0 ? P(Z3_mk_fpa_rtn(C)) : e->c == 1 ? P(Z3_mk_fpa_rtp(C)) : e->c == 2 ? P(Z3_mk_fpa_rtz(C)) : e->c == 3 ? P(Z3_mk_fpa_rne(C)) : P(Z3_mk_fpa_rna(C)); r = Z3_mk_fpa_round_to_integral(C, m, K(0)); break; }
    case F_TOSI: r = Z3_mk_fpa_to_sbv(C, P(Z3_mk_fpa_rtz(C)), K(0), e->w); break;
    case F_TOUI: r = Z3_mk_fpa_to_ubv(C, P(Z3_mk_fpa_rtz(C)), K(0), e->w); break;
    case F_FROMSI: r = Z3_mk_fpa_to_fp_signed(C, RM(), KB(0), dblSort()); break;
    case F_FROMUI: r = Z3_mk_fpa_to_fp_unsigned(C, RM(), KB(0), dblSort()); break;
    default: fprintf(stderr, "solver: op %d\n", e->op); abort();
  }
  if (b1 && !g_err) switch (e->op) { case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: case O_SHL: case O_LSHR: case O_ASHR: case O_EXTRACT: { P(r); static Z3_ast one = P(Z3_mk_unsigned_int64(C, 1, bvs(1))); r = Z3_mk_eq(C, r, one); break; } default: break; }
  if (g_err) { fprintf(stderr, "z3 error: %s in %s\n", g_errs.c_str(), exprStr(e).c_str()); abort(); }
  return keep(e, r);
}

struct CK { std::vector<uint32_t> ids; bool operator==(const CK& o) const { return ids == o.ids; } };
struct CKH { size_t operator()(const CK& k) const { size_t h = 7; for (auto x : k.ids) h = (h ^ x) * 0x9E3779B97F4A7C15ull, h ^= h >> 31; return h; } };
struct CV { Res r; std::vector<std::pair<uint32_t, uint64_t>> m; };
static std::unordered_map<CK, CV, CKH> g_cache;

// Model search for a real query the solver did not settle at once: some inputs are set to chosen values of their ranges, the
// solver decides the rest. A solver that answered "satisfiable" is returned (its model is one of the query), or none.
static Z3_solver guided(const std::vector<E>& cs, const std::vector<uint32_t>& vars) {
  struct In { uint32_t v; double lo, hi; }; std::vector<In> in; static uint64_t rng = 88172645463325252ull; auto rnd = [&](unsigned n) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return (unsigned)(rng >> 11) % n; };
  for (uint32_t v : vars) { if (g_vars[v].sort != S_REAL || g_vars[v].name.compare(0, 2, "in")) continue; size_t c = g_vars[v].name.find(':'); if (c == std::string::npos) continue; char* q; double lo = strtod(g_vars[v].name.c_str() + c + 1, &q), hi = strtod(q + 1, 0); if (!(lo > -100)) lo = std::min(-100.0, hi - 100); if (!(hi < 100)) hi = std::max(100.0, lo + 100); in.push_back({v, lo, hi}); }
  if (in.size() < 2) return 0;
  static const int pct[] = {100, 100, 100, 100, 90, 90, 80, 80, 60, 60, 40, 40};
  for (int p : pct) { Z3_solver s = Z3_mk_solver(C); Z3_solver_inc_ref(C, s); Z3_params ps = Z3_mk_params(C); Z3_params_inc_ref(C, ps); Z3_params_set_uint(C, ps, Z3_mk_string_symbol(C, "timeout"), 500); Z3_solver_set_params(C, s, ps); Z3_params_dec_ref(C, ps);
    for (auto& i : in) if ((int)rnd(100) < p) { double x = i.lo + (i.hi - i.lo) * (1 + rnd(15)) / 16; x = i.hi - i.lo > 1 ? std::round(x * 4) / 4 : x; E e = mkVar(g_vars[i.v].name, 64, S_REAL); Z3_solver_assert(C, s, Z(mkRBin(R_EQ, e, mkRConst(x)))); }
    for (E e : cs) if (e->op != O_CONST) Z3_solver_assert(C, s, Z(e));
    g_ss.queries++; if (Z3_solver_check(C, s) == Z3_L_TRUE) return s; Z3_solver_dec_ref(C, s); }
  return 0;
}

Res solverCheck(const std::vector<E>& cs, std::vector<uint64_t>* model, RealModel* rm) {
  bool real = false, fp = false;
  CK key; key.ids.reserve(cs.size());
  std::vector<uint32_t> vars;
  for (E e : cs) { if (e->op == O_CONST) { if (!e->c) return UNSAT; continue; } key.ids.push_back(e->id); real |= e->hasReal; fp |= e->hasFP; }
  if (key.ids.empty()) { return SAT; }
  std::sort(key.ids.begin(), key.ids.end()); key.ids.erase(std::unique(key.ids.begin(), key.ids.end()), key.ids.end());
  if (!(real && rm)) {
    auto it = g_cache.find(key);
    if (it != g_cache.end()) {
      g_ss.cacheHits++;
      if (it->second.r == SAT && model) for (auto& p : it->second.m) { if (model->size() <= p.first) model->resize(p.first + 1, 0); (*model)[p.first] = p.second; }
      return it->second.r;
    }
  }
  auto t0 = std::chrono::steady_clock::now();
  static long qcount = 0; 
  Z3_solver s; bool inc = !real && !fp;
  if (inc) { s = g_inc; Z3_solver_push(C, s); }
  else {
    if (fp && !real) { Z3_tactic t = Z3_mk_tactic(C, "qffp"); Z3_tactic_inc_ref(C, t); s = Z3_mk_solver_from_tactic(C, t); Z3_solver_inc_ref(C, s); Z3_tactic_dec_ref(C, t); }
    else { s = Z3_mk_solver(C); Z3_solver_inc_ref(C, s); }
    Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), g_to);
    Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
  }
  for (E e : cs) { if (e->op == O_CONST) continue; Z3_solver_assert(C, s, Z(e));
    for (uint32_t v : *e->vars) vars.push_back(v); }
  std::sort(vars.begin(), vars.end()); vars.erase(std::unique(vars.begin(), vars.end()), vars.end());
  qcount++;
  auto limit = [&](Z3_solver q, unsigned ms) { Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms); Z3_solver_set_params(C, q, p); Z3_params_dec_ref(C, p); };
  Z3_lbool lb = Z3_L_UNDEF; const unsigned first = 2000;
  if (real && !fp && g_to > first) { limit(s, first); lb = Z3_solver_check(C, s); if (lb == Z3_L_UNDEF) { Z3_solver g = guided(cs, vars); if (g) { Z3_solver_dec_ref(C, s); s = g; lb = Z3_L_TRUE; } else { limit(s, g_to); lb = Z3_solver_check(C, s); } } }
  else lb = Z3_solver_check(C, s);
  Res r = lb == Z3_L_TRUE ? SAT : lb == Z3_L_FALSE ? UNSAT : UNKNOWN;
  if (g_err) { fprintf(stderr, "z3 error: %s\n", g_errs.c_str()); abort(); }
  CV cv; cv.r = r;
  if (r == SAT) {
    Z3_model m = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, m);
    for (uint32_t v : vars) {
      E ve = mkVar(g_vars[v].name, g_vars[v].w, g_vars[v].sort, g_vars[v].uninit); Z3_ast out;
      Z3_model_eval(C, m, Z(ve), true, &out);
      if (g_vars[v].sort == S_REAL) {
        if (rm) {
          std::string q; double d = 0;
          Z3_inc_ref(C, out);
          if (Z3_is_algebraic_number(C, out)) { Z3_ast lo = Z3_get_algebraic_number_lower(C, out, 20); Z3_inc_ref(C, lo); q = Z3_get_numeral_string(C, lo); d = Z3_get_numeral_double(C, lo); }
          else if (Z3_is_numeral_ast(C, out)) { q = Z3_get_numeral_string(C, out); d = Z3_get_numeral_double(C, out); }
          Z3_dec_ref(C, out);
          rm->q[v] = q; rm->d[v] = d;
        }
      } else {
        uint64_t x = 0;
        if (g_vars[v].w == 1) x = Z3_get_bool_value(C, out) == Z3_L_TRUE; else Z3_get_numeral_uint64(C, out, (uint64_t*)&x);
        cv.m.push_back({v, x});
      }
    }
    Z3_model_dec_ref(C, m);
    if (model) for (auto& p : cv.m) { if (model->size() <= p.first) model->resize(p.first + 1, 0); (*model)[p.first] = p.second; }
  }
  if (inc) Z3_solver_pop(C, s, 1); else Z3_solver_dec_ref(C, s);
  if (inc && qcount % 4000 == 0) { // fresh solver: keeps learned-clause and term memory bounded
    Z3_solver_dec_ref(C, g_inc); g_inc = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, g_inc);
    Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), g_to); Z3_solver_set_params(C, g_inc, p); Z3_params_dec_ref(C, p);
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.queries++; g_ss.secs += dt; if (dt > g_ss.maxq) g_ss.maxq = dt;
  (r == SAT ? g_ss.sat : r == UNSAT ? g_ss.unsat : g_ss.unknown)++;
  static const char* dbg = getenv("LLSYM_SLOWQ");
  if (dbg && dt > atof(dbg)) { fprintf(stderr, "[slow query %.2fs res=%d]\n", dt, r); for (E e : cs) fprintf(stderr, "   %s\n", exprStr(e, getenv("LLSYM_DEPTH") ? atoi(getenv("LLSYM_DEPTH")) : 8).c_str()); }
  if (r != UNKNOWN && !(real && r == SAT)) g_cache.emplace(std::move(key), std::move(cv));
  return r;
}

bool realIsZero(E e) {
  if (e->op == R_CONST) return rconstStr(e->c) == "0";
  Z3_ast a = Z(e);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
  Z3_params_set_bool(C, p, Z3_mk_string_symbol(C, "som"), true);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "som_blowup"), 100000);
  Z3_params_set_bool(C, p, Z3_mk_string_symbol(C, "flat"), true);
  Z3_params_set_bool(C, p, Z3_mk_string_symbol(C, "hoist_mul"), false);
  auto t0 = std::chrono::steady_clock::now();
  Z3_ast r = Z3_simplify_ex(C, a, p); Z3_inc_ref(C, r); Z3_params_dec_ref(C, p);
  bool z = Z3_is_numeral_ast(C, r) && std::string(Z3_get_numeral_string(C, r)) == "0";
  Z3_dec_ref(C, r);
  g_ss.queries++; g_ss.secs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (z) g_ss.unsat++;
  return z;
}
