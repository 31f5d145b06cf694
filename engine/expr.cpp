#include "expr.h"
#include <gmpxx.h>

std::vector<VarInfo> g_vars;
static std::unordered_map<std::string, E> g_varmap;
static uint32_t g_nextId = 1;

// ---- var set interning
struct VSHash { size_t operator()(const std::vector<uint32_t>& v) const { size_t h = v.size(); for (auto x : v) h = h * 1000003u ^ x; return h; } };
static std::unordered_set<std::vector<uint32_t>, VSHash> g_vs;
static const std::vector<uint32_t>* internVS(std::vector<uint32_t>&& v) { return &*g_vs.insert(std::move(v)).first; }
static const std::vector<uint32_t>* unionVS(const std::vector<uint32_t>* a, const std::vector<uint32_t>* b) {
  if (a == b || b->empty()) return a;
  if (a->empty()) return b;
  std::vector<uint32_t> r; r.reserve(a->size() + b->size());
  std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
  if (r.size() == a->size()) return a;
  if (r.size() == b->size()) return b;
  return internVS(std::move(r));
}

struct EHash { size_t operator()(const Expr* e) const {
  size_t h = e->op * 31 + e->w; h = h * 1000003u ^ e->sort; h = h * 1000003u ^ e->c;
  for (int i = 0; i < 3; i++) h = h * 0x9E3779B97F4A7C15ull ^ (e->k[i] ? e->k[i]->id : 0);
  return h ^ (h >> 29); } };
struct EEq { bool operator()(const Expr* a, const Expr* b) const {
  return a->op == b->op && a->w == b->w && a->sort == b->sort && a->c == b->c && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2]; } };
static std::unordered_set<const Expr*, EHash, EEq> g_tab;
static std::vector<Expr*> g_arena; static size_t g_arenaPos = 4096;

static E intern(Op op, unsigned w, Sort s, E a, E b, E c, uint64_t cc) {
  Expr t; memset(&t, 0, sizeof t);
  t.op = op; t.w = w; t.sort = s; t.k[0] = a; t.k[1] = b; t.k[2] = c; t.c = cc;
  auto it = g_tab.find(&t);
  if (it != g_tab.end()) return *it;
  if (g_arenaPos >= 4096) { g_arena.push_back((Expr*)malloc(sizeof(Expr) * 4096)); g_arenaPos = 0; }
  Expr* e = g_arena.back() + g_arenaPos++;
  *e = t; e->id = g_nextId++;
  static const std::vector<uint32_t>* empty = internVS({});
  e->vars = empty; e->uninit = false; e->hasReal = (s == S_REAL); e->hasFP = (s == S_F64);
  uint64_t sz = 1;
  for (E k : {a, b, c}) if (k) { e->vars = unionVS(e->vars, k->vars); e->uninit |= k->uninit; e->hasReal |= k->hasReal; e->hasFP |= k->hasFP; sz += k->size; }
  if (op == O_VAR || op == R_VAR) { e->vars = internVS({(uint32_t)cc}); e->uninit = g_vars[cc].uninit; }
  e->size = sz > 1000000000 ? 1000000000 : (uint32_t)sz;
  g_tab.insert(e);
  return e;
}

E mkConst(uint64_t v, unsigned w) { return intern(O_CONST, w, S_BV, 0, 0, 0, v & maskw(w)); }
E mkVar(const std::string& key, unsigned w, Sort s, bool uninit) {
  std::string k = key + "|" + std::to_string(w) + (s == S_REAL ? "r" : "b");
  auto it = g_varmap.find(k); if (it != g_varmap.end()) return it->second;
  g_vars.push_back({key, (uint8_t)w, s, uninit});
  E e = intern(s == S_REAL ? R_VAR : O_VAR, w, s, 0, 0, 0, g_vars.size() - 1);
  g_varmap[k] = e; return e;
}

static bool isC(E e) { return e->op == O_CONST; }
static uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w, bool& ok) {
  ok = true; int64_t sa = sextw(a, w), sb = sextw(b, w);
  switch (op) {
    case O_ADD: return a + b; case O_SUB: return a - b; case O_MUL: return a * b;
    case O_UDIV: return b ? a / b : maskw(w);
    case O_UREM: return b ? a % b : a;
    case O_SDIV: if (!sb) return sa < 0 ? 1 : maskw(w); if (sb == -1) return 0 - a; return (uint64_t)(sa / sb);
    case O_SREM: if (!sb) return a; if (sb == -1) return 0; return (uint64_t)(sa % sb);
    case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
    case O_SHL: return b >= w ? 0 : a << b; case O_LSHR: return b >= w ? 0 : (a & maskw(w)) >> b;
    case O_ASHR: return b >= w ? (sa < 0 ? ~0ull : 0) : (uint64_t)(sa >> b);
    case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b; case O_SLT: return sa < sb; case O_SLE: return sa <= sb;
    default: ok = false; return 0;
  }
}
static bool isCmp(Op op) { return op >= O_EQ && op <= O_SLE; }
static bool isBoolOp(E e) { return e->w == 1 && e->sort == S_BV; }

E mkNot(E a) {
  if (isC(a)) return mkConst(!a->c, 1);
  if (a->op == O_XOR && isC(a->k[1]) && a->k[1]->c == 1) return a->k[0];
  if (a->op == O_ULT) return mkBin(O_ULE, a->k[1], a->k[0]);
  if (a->op == O_ULE) return mkBin(O_ULT, a->k[1], a->k[0]);
  if (a->op == O_SLT) return mkBin(O_SLE, a->k[1], a->k[0]);
  if (a->op == O_SLE) return mkBin(O_SLT, a->k[1], a->k[0]);
  if (a->op == R_LT) return intern(R_LE, 1, S_BV, a->k[1], a->k[0], 0, 0);
  if (a->op == R_LE) return intern(R_LT, 1, S_BV, a->k[1], a->k[0], 0, 0);
  return intern(O_XOR, 1, S_BV, a, mkConst(1, 1), 0, 0);
}

static bool iteOfConsts(E e, int depth = 6) {
  if (isC(e)) return true;
  if (e->op != O_ITE || depth == 0) return false;
  return iteOfConsts(e->k[1], depth - 1) && iteOfConsts(e->k[2], depth - 1);
}

// number of low bits that can be non-zero
static unsigned sigBits(E a, int d = 0) {
  unsigned w = a->w; auto bl = [](uint64_t c) { return c ? 64u - __builtin_clzll(c) : 0u; };
  if (d > 8) return w;
  switch (a->op) {
    case O_CONST: return bl(a->c);
    case O_ZEXT: return sigBits(a->k[0], d + 1);
    case O_AND: { unsigned x = sigBits(a->k[0], d + 1), y = sigBits(a->k[1], d + 1); return x < y ? x : y; }
    case O_LSHR: if (a->k[1]->op == O_CONST) { unsigned x = sigBits(a->k[0], d + 1); return x > a->k[1]->c ? x - (unsigned)a->k[1]->c : 0; } return w;
    case O_UDIV: return sigBits(a->k[0], d + 1);
    case O_UREM: if (a->k[1]->op == O_CONST && a->k[1]->c) return bl(a->k[1]->c - 1); return w;
    case O_ITE: { unsigned x = sigBits(a->k[1], d + 1), y = sigBits(a->k[2], d + 1); return x > y ? x : y; }
    case O_MUL: { unsigned x = sigBits(a->k[0], d + 1) + sigBits(a->k[1], d + 1); return x < w ? x : w; }
    case O_ADD: { unsigned x = sigBits(a->k[0], d + 1), y = sigBits(a->k[1], d + 1), z = (x > y ? x : y) + 1; return z < w ? z : w; }
    default: return w;
  }
}
E mkBin(Op op, E a, E b) {
  unsigned w = a->w;
  if (a->w != b->w || a->sort != S_BV || b->sort != S_BV) { fprintf(stderr, "mkBin width/sort mismatch op %d w %d %d sorts %d %d\n", op, a->w, b->w, a->sort, b->sort); abort(); }
  unsigned rw = isCmp(op) ? 1 : w;
  if (isC(a) && isC(b)) { bool ok; uint64_t v = foldBin(op, a->c, b->c, w, ok); return mkConst(v, rw); }
  // canonical: constant to the right for commutative ops
  if ((op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  uint64_t m = maskw(w);
  switch (op) {
    case O_ADD:
      if (isC(b)) { if (b->c == 0) return a; if (a->op == O_ADD && isC(a->k[1])) return mkBin(O_ADD, a->k[0], mkConst(a->k[1]->c + b->c, w));
        if (a->op == O_ITE && iteOfConsts(a)) return mkIte(a->k[0], mkBin(O_ADD, a->k[1], b), mkBin(O_ADD, a->k[2], b)); }
      break;
    case O_SUB:
      if (a == b) return mkConst(0, w);
      if (isC(b)) return mkBin(O_ADD, a, mkConst(0 - b->c, w));
      if (isC(a) && a->c == 0 && b->op == O_SUB && isC(b->k[0]) && b->k[0]->c == 0) return b->k[1];
      if (a->op == O_ADD && isC(a->k[1]) ) { E t = mkBin(O_SUB, a->k[0], b); if (isC(t)) return mkConst(t->c + a->k[1]->c, w); }
      break;
    case O_MUL: if (isC(b)) { if (b->c == 0) return b; if (b->c == 1) return a; if (w >= 16) { unsigned n = sigBits(a) + sigBits(b); n = n <= 8 ? 8 : n <= 16 ? 16 : n <= 32 ? 32 : 64; if (n < w) return mkZext(mkBin(O_MUL, mkExtract(a, 0, n), mkConst(b->c, n)), w); } } break;
    case O_UDIV: case O_UREM: if (w >= 16 && isC(b) && b->c && (b->c & (b->c - 1))) { unsigned n = sigBits(a), bn = sigBits(b); if (bn > n) return op == O_UDIV ? mkConst(0, w) : a; n = n <= 8 ? 8 : n <= 16 ? 16 : n <= 32 ? 32 : 64; if (n < w) return mkZext(mkBin(op, mkExtract(a, 0, n), mkConst(b->c, n)), w); }
      if (op == O_UREM) { if (isC(b) && b->c && !(b->c & (b->c - 1))) return mkBin(O_AND, a, mkConst(b->c - 1, w)); break; }
      if (isC(b)) { if (b->c == 1) return a; if (b->c && !(b->c & (b->c - 1))) { int s = __builtin_ctzll(b->c); return mkBin(O_LSHR, a, mkConst(s, w)); } } break;
    case O_AND:
      if (a == b) return a;
      if (isC(b)) { if (b->c == 0) return b; if (b->c == m) return a;
        // mask of low bits
        if (!(b->c & (b->c + 1))) { int n = __builtin_popcountll(b->c); if (a->op == O_ZEXT && a->k[0]->w <= n) return a; if (n == 8 || n == 16 || n == 32) return mkZext(mkExtract(a, 0, n), w); }
        if (a->op == O_AND && isC(a->k[1])) return mkBin(O_AND, a->k[0], mkConst(a->k[1]->c & b->c, w));
        if (a->op == O_ITE && iteOfConsts(a)) return mkIte(a->k[0], mkBin(O_AND, a->k[1], b), mkBin(O_AND, a->k[2], b)); }
      break;
    case O_OR: if (a == b) return a; if (isC(b)) { if (b->c == 0) return a; if (b->c == m) return b; }
      break;
    case O_XOR: if (a == b) return mkConst(0, w); if (isC(b)) { if (b->c == 0) return a; if (w == 1) return mkNot(a);
        if (a->op == O_XOR && isC(a->k[1])) return mkBin(O_XOR, a->k[0], mkConst(a->k[1]->c ^ b->c, w)); }
      break;
    case O_SHL: case O_LSHR: case O_ASHR:
      if (isC(b)) { if (b->c == 0) return a;
        if (op != O_ASHR && b->c >= w) return mkConst(0, w);
        if (op == O_LSHR && b->c < w) return mkZext(mkExtract(a, b->c, w - b->c), w);
        if (op == O_SHL && b->c < w) return mkConcat(mkExtract(a, 0, w - b->c), mkConst(0, b->c)); }
      if (isC(a) && a->c == 0) return a;
      break;
    case O_EQ:
      if (a == b) return mkConst(1, 1);
      if (isC(b)) {
        if (w == 1) return b->c ? a : mkNot(a);
        if (a->op == O_ZEXT) { unsigned iw = a->k[0]->w; if (b->c & ~maskw(iw)) return mkConst(0, 1); return mkBin(O_EQ, a->k[0], mkConst(b->c, iw)); }
        if (a->op == O_SEXT) { unsigned iw = a->k[0]->w; if ((uint64_t)sextw(b->c, iw) % 1 == 0 && ((uint64_t)sextw(b->c & maskw(iw), iw) & m) != b->c) return mkConst(0, 1); return mkBin(O_EQ, a->k[0], mkConst(b->c, iw)); }
        if (a->op == O_ADD && isC(a->k[1])) return mkBin(O_EQ, a->k[0], mkConst(b->c - a->k[1]->c, w));
        if (a->op == O_XOR && isC(a->k[1])) return mkBin(O_EQ, a->k[0], mkConst(b->c ^ a->k[1]->c, w));
        if (a->op == O_CONCAT) { unsigned lw = a->k[1]->w; return mkBin(O_AND, mkBin(O_EQ, a->k[0], mkConst(b->c >> lw, a->k[0]->w)), mkBin(O_EQ, a->k[1], mkConst(b->c, lw))); }
        if (a->op == O_ITE && (isC(a->k[1]) || isC(a->k[2]) )) {
          return mkIte(a->k[0], mkBin(O_EQ, a->k[1], b), mkBin(O_EQ, a->k[2], b)); }
      }
      break;
    case O_ULT: case O_ULE: case O_SLT: case O_SLE:
      if (a == b) return mkConst(op == O_ULE || op == O_SLE, 1);
      if (op == O_ULT && isC(b) && b->c == 0) return mkConst(0, 1);
      if (op == O_ULT && isC(b) && b->c == 1) return mkBin(O_EQ, a, mkConst(0, w));
      if (op == O_ULE && isC(a) && a->c == 0) return mkConst(1, 1);
      if (op == O_ULT && isC(a) && a->c == m) return mkConst(0, 1);
      if (op == O_ULE && isC(b) && b->c == m) return mkConst(1, 1);
      if (op == O_ULE && isC(b) && b->c == 0) return mkBin(O_EQ, a, b);
      if (op == O_ULT && isC(a) && a->c == 0) return mkNot(mkBin(O_EQ, b, a));
      if ((op == O_SLT || op == O_SLE) && w > 8) { unsigned x = sigBits(a), y = sigBits(b); // both non-negative, or one against a constant
        if (x < w && y < w) return mkBin(op == O_SLT ? O_ULT : O_ULE, a, b);
        if (x < w && isC(b)) return mkConst(0, 1); if (y < w && isC(a)) return mkConst(1, 1); }
      if ((op == O_SLT || op == O_SLE) && w > 8 && isC(b) && b->c == 0 && a->op == O_SUB && isC(a->k[0]) && a->k[0]->c == 0 && sigBits(a->k[1]) < w) return op == O_SLT ? mkNot(mkBin(O_EQ, a->k[1], b)) : mkConst(1, 1);   // -x against 0
      if ((op == O_SLT || op == O_SLE) && w > 8 && isC(a) && a->c == 0 && b->op == O_SUB && isC(b->k[0]) && b->k[0]->c == 0 && sigBits(b->k[1]) < w) return op == O_SLE ? mkBin(O_EQ, b->k[1], a) : mkConst(0, 1);
      if ((op == O_ULT || op == O_ULE) && w > 8) { unsigned x = sigBits(a), y = sigBits(b); if (isC(b) && x < 64 && b->c > maskw(x)) return mkConst(1, 1); if (isC(a) && y < 64 && a->c > maskw(y)) return mkConst(0, 1); }
      // zext both / const
      if (a->op == O_ZEXT && isC(b)) { unsigned iw = a->k[0]->w;
        bool sg = (op == O_SLT || op == O_SLE);
        if (!sg || !((b->c >> (w - 1)) & 1)) { if (b->c > maskw(iw)) return mkConst(1, 1); return mkBin(sg ? (op == O_SLT ? O_ULT : O_ULE) : op, a->k[0], mkConst(b->c, iw)); }
        else return mkConst(0, 1); }
      if (b->op == O_ZEXT && isC(a)) { unsigned iw = b->k[0]->w;
        bool sg = (op == O_SLT || op == O_SLE);
        if (!sg || !((a->c >> (w - 1)) & 1)) { if (a->c > maskw(iw)) return mkConst(0, 1); return mkBin(sg ? (op == O_SLT ? O_ULT : O_ULE) : op, mkConst(a->c, iw), b->k[0]); }
        else return mkConst(1, 1); }
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(op == O_SLT ? O_ULT : op == O_SLE ? O_ULE : op, a->k[0], b->k[0]);
      if (a->op == O_SEXT && isC(b) && (op == O_SLT || op == O_SLE)) { unsigned iw = a->k[0]->w; int64_t v = sextw(b->c, w); int64_t mx = (int64_t)(maskw(iw) >> 1), mn = -mx - 1;
        if (v > mx) return mkConst(1, 1); if (v < mn) return mkConst(0, 1); return mkBin(op, a->k[0], mkConst((uint64_t)v, iw)); }
      if (b->op == O_SEXT && isC(a) && (op == O_SLT || op == O_SLE)) { unsigned iw = b->k[0]->w; int64_t v = sextw(a->c, w); int64_t mx = (int64_t)(maskw(iw) >> 1), mn = -mx - 1;
        if (v > mx) return mkConst(0, 1); if (v < mn) return mkConst(1, 1); return mkBin(op, mkConst((uint64_t)v, iw), b->k[0]); }
      if (a->op == O_ITE && isC(b) && iteOfConsts(a)) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
      if (b->op == O_ITE && isC(a) && iteOfConsts(b)) return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
      break;
    default: break;
  }
  if (rw == 1 && (op == O_AND || op == O_OR)) {
    if (a == mkNot(b)) return mkConst(op == O_OR, 1);
  }
  return intern(op, rw, S_BV, a, b, 0, 0);
}

E mkIte(E c, E a, E b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (a->sort != b->sort) { fprintf(stderr, "mkIte sort mismatch\n"); abort(); }
  if (c->op == O_XOR && c->w == 1 && isC(c->k[1])) { return mkIte(c->k[0], b, a); }
  if (a->sort == S_BV && a->w == 1) {
    if (isC(a) && isC(b)) return a->c ? c : mkNot(c);
    if (isC(a)) return a->c ? mkBin(O_OR, c, b) : mkBin(O_AND, mkNot(c), b);
    if (isC(b)) return b->c ? mkBin(O_OR, mkNot(c), a) : mkBin(O_AND, c, a);
  }
  if (a->op == O_ITE && a->k[0] == c) a = a->k[1];
  if (b->op == O_ITE && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  return intern(a->sort == S_REAL ? R_ITE : a->sort == S_F64 ? F_ITE : O_ITE, a->w, a->sort, c, a, b, 0);
}
E mkExtract(E a, unsigned off, unsigned w) {
  if (a->sort == S_REAL) { if (off % 8 || w != 8) { fprintf(stderr, "bit extract of a real\n"); throw std::string("unsupported: bit-level access to a real-valued double"); } return intern(R_BYTE, 8, S_BV, a, 0, 0, off / 8); }
  if (a->sort == S_F64) a = mkF(F_TOBITS, a);
  if (off == 0 && w == a->w) return a;
  if (isC(a)) return mkConst(a->c >> off, w);
  switch (a->op) {
    case O_EXTRACT: return mkExtract(a->k[0], off + a->c, w);
    case O_CONCAT: { unsigned lw = a->k[1]->w; if (off + w <= lw) return mkExtract(a->k[1], off, w); if (off >= lw) return mkExtract(a->k[0], off - lw, w);
      return mkConcat(mkExtract(a->k[0], 0, off + w - lw), mkExtract(a->k[1], off, lw - off)); }
    case O_ZEXT: { unsigned iw = a->k[0]->w; if (off >= iw) return mkConst(0, w); if (off + w <= iw) return mkExtract(a->k[0], off, w); return mkZext(mkExtract(a->k[0], off, iw - off), w); }
    case O_SEXT: { unsigned iw = a->k[0]->w; if (off + w <= iw) return mkExtract(a->k[0], off, w); if (off == 0) return mkSext(a->k[0], w); break; }
    case O_AND: case O_OR: case O_XOR: return mkBin(a->op, mkExtract(a->k[0], off, w), mkExtract(a->k[1], off, w));
    case O_ADD: case O_SUB: case O_MUL: if (off == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w)); break;
    case O_ITE: if (iteOfConsts(a) || a->size < 50) return mkIte(a->k[0], mkExtract(a->k[1], off, w), mkExtract(a->k[2], off, w)); break;
    default: break;
  }
  return intern(O_EXTRACT, w, S_BV, a, 0, 0, off);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
  if (isC(hi) && hi->c == 0) return mkZext(lo, w);
  if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w) return mkExtract(hi->k[0], lo->c, w);
  if (hi->op == O_EXTRACT && hi->k[0] == lo && hi->c == lo->w) return mkExtract(lo, 0, w);
  if (lo->op == O_CONCAT) { // (hi . (a . b)) -> ((hi . a) . b) when hi.a merges
    E t = lo->k[0];
    if ((isC(hi) && isC(t)) || (hi->op == O_EXTRACT && t->op == O_EXTRACT && hi->k[0] == t->k[0] && hi->c == t->c + t->w)) return mkConcat(mkConcat(hi, t), lo->k[1]);
  }
  if (hi->op == O_EXTRACT && hi->c == lo->w && (hi->k[0]->op == O_ADD || hi->k[0]->op == O_SUB || hi->k[0]->op == O_MUL) && mkExtract(hi->k[0], 0, lo->w) == lo) return mkExtract(hi->k[0], 0, w);
  return intern(O_CONCAT, w, S_BV, hi, lo, 0, 0);
}
E mkZext(E a, unsigned w) {
  if (w == a->w) return a; if (w < a->w) return mkExtract(a, 0, w);
  if (isC(a)) return mkConst(a->c, w);
  if (a->op == O_ZEXT) return mkZext(a->k[0], w);
  if (a->op == O_ITE && iteOfConsts(a)) return mkIte(a->k[0], mkZext(a->k[1], w), mkZext(a->k[2], w));
  return intern(O_ZEXT, w, S_BV, a, 0, 0, 0);
}
E mkSext(E a, unsigned w) {
  if (w == a->w) return a; if (w < a->w) return mkExtract(a, 0, w);
  if (isC(a)) return mkConst((uint64_t)sextw(a->c, a->w), w);
  if (a->op == O_ZEXT) return mkZext(a->k[0], w);
  if (a->op == O_SEXT) return mkSext(a->k[0], w);
  if (a->op == O_SUB && isC(a->k[0]) && a->k[0]->c == 0 && sigBits(a->k[1]) < a->w) return mkBin(O_SUB, mkConst(0, w), mkZext(a->k[1], w));
  if (a->op == O_ITE && iteOfConsts(a)) return mkIte(a->k[0], mkSext(a->k[1], w), mkSext(a->k[2], w));
  return intern(O_SEXT, w, S_BV, a, 0, 0, 0);
}

// ---------- reals
static std::vector<std::string> g_rc; static std::unordered_map<std::string, uint64_t> g_rcmap; static std::vector<double> g_rcd;
const std::string& rconstStr(uint64_t i) { return g_rc[i]; }
double rconstDouble(uint64_t i) { return g_rcd[i]; }
E mkRConstQ(const std::string& q0) {
  mpq_class v(q0); v.canonicalize(); std::string q = v.get_str();
  auto it = g_rcmap.find(q); uint64_t idx;
  if (it != g_rcmap.end()) idx = it->second; else { idx = g_rc.size(); g_rc.push_back(q); g_rcd.push_back(v.get_d()); g_rcmap[q] = idx; }
  return intern(R_CONST, 64, S_REAL, 0, 0, 0, idx);
}
E mkRConst(double d) {
  // A double that is the closest double (within 4 ulp) of a fraction with a denominator <= 4096 is read as that fraction.
  if (d == 0) return mkRConstQ("0");
  if (!(d == d) || std::isinf(d)) throw std::string("unsupported: NaN/inf constant meets a real-valued term");
  double ad = std::fabs(d);
  if (ad < 1e9 && ad > 1e-6) {
    // continued fraction
    double x = ad; long h0 = 0, h1 = 1, k0 = 1, k1 = 0;
    for (int it = 0; it < 20; it++) {
      double fl = std::floor(x); if (fl > 4e9) break; long a = (long)fl; long h = a * h1 + h0, k = a * k1 + k0;
      if (k > 4096 || k <= 0 || h < 0) break;
      h0 = h1; h1 = h; k0 = k1; k1 = k;
      double r = (double)h / (double)k;
      if (std::fabs(r - ad) <= 4 * (std::nextafter(ad, 1e300) - ad)) { return mkRConstQ((d < 0 ? "-" : "") + std::to_string(h) + "/" + std::to_string(k)); }
      double fr = x - fl; if (fr < 1e-12) break; x = 1 / fr;
    }
  }
  mpq_class q(d); return mkRConstQ(q.get_str());
}
static bool isRC(E e) { return e->op == R_CONST; }
static bool isR0(E e) { return isRC(e) && rconstStr(e->c) == "0"; }
static bool isR1(E e) { return isRC(e) && rconstStr(e->c) == "1"; }
E mkRNeg(E a) { if (isRC(a)) { mpq_class v(rconstStr(a->c)); v = -v; return mkRConstQ(v.get_str()); } if (a->op == R_NEG) return a->k[0]; return intern(R_NEG, 64, S_REAL, a, 0, 0, 0); }
E mkRBin(Op op, E a, E b) {
  if (isRC(a) && isRC(b)) {
    mpq_class x(rconstStr(a->c)), y(rconstStr(b->c));
    switch (op) {
      case R_ADD: return mkRConstQ(mpq_class(x + y).get_str()); case R_SUB: return mkRConstQ(mpq_class(x - y).get_str()); case R_MUL: return mkRConstQ(mpq_class(x * y).get_str());
      case R_DIV: if (y != 0) return mkRConstQ(mpq_class(x / y).get_str()); break;
      case R_EQ: return mkConst(x == y, 1); case R_LT: return mkConst(x < y, 1); case R_LE: return mkConst(x <= y, 1); default: break;
    }
  }
  switch (op) {
    case R_ADD: if (isR0(a)) return b; if (isR0(b)) return a; if (a->id > b->id) std::swap(a, b); break;
    case R_SUB: if (isR0(b)) return a; if (isR0(a)) return mkRNeg(b); if (a == b) return mkRConstQ("0"); break;
    case R_MUL: if (isR0(a)) return a; if (isR0(b)) return b; if (isR1(a)) return b; if (isR1(b)) return a; if (a->id > b->id) std::swap(a, b); break;
    case R_DIV: if (isR1(b)) return a; if (isR0(a)) return a; break;
    case R_EQ: if (a == b) return mkConst(1, 1); if (a->id > b->id) std::swap(a, b); return intern(op, 1, S_BV, a, b, 0, 0);
    case R_LT: if (a == b) return mkConst(0, 1); return intern(op, 1, S_BV, a, b, 0, 0);
    case R_LE: if (a == b) return mkConst(1, 1); return intern(op, 1, S_BV, a, b, 0, 0);
    default: break;
  }
  return intern(op, 64, S_REAL, a, b, 0, 0);
}
static std::vector<std::string> g_fn;
E mkRFn(const std::string& name, E a, E b) {
  uint64_t i; for (i = 0; i < g_fn.size(); i++) if (g_fn[i] == name) break; if (i == g_fn.size()) g_fn.push_back(name);
  return intern(R_FN, 64, S_REAL, a, b, 0, i);
}
const std::string& rfnName(uint64_t i) { return g_fn[i]; }

// ---------- IEEE doubles
static double b2d(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static uint64_t d2b(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
static uint64_t rnd(double x, uint64_t mode) { switch (mode) { case 0: return d2b(std::floor(x)); case 1: return d2b(std::ceil(x)); case 2: return d2b(std::trunc(x)); case 3: return d2b(std::nearbyint(x)); default: return d2b(std::round(x)); } }
E mkF(Op op, E a, E b, E c, uint64_t cc, unsigned w) {
  if (op == F_FROMBITS && a->op == F_TOBITS) return a->k[0];
  if (op == F_TOBITS) { if (a->op == F_FROMBITS) return a->k[0]; return intern(op, 64, S_BV, a, 0, 0, 0); }
  switch (op) {
    case F_EQ: case F_LT: case F_LE: case F_UNO:
      { auto cst = [](E e, double& d) { if (e->op == F_FROMBITS && isC(e->k[0])) { d = b2d(e->k[0]->c); return true; } return false; };
        double x, y; if (cst(a, x) && cst(b, y)) return mkConst(op == F_EQ ? x == y : op == F_LT ? x < y : op == F_LE ? x <= y : (x != x || y != y), 1);
        return intern(op, 1, S_BV, a, b, 0, 0); }
    case F_TOSI: case F_TOUI: return intern(op, w, S_BV, a, 0, 0, cc);
    default: return intern(op, 64, S_F64, a, b, c, cc);
  }
}

static uint64_t ev(E e, const std::vector<uint64_t>& m, std::unordered_map<E, uint64_t>* memo) {
  if (e->op == O_CONST) return e->c;
  if (e->op == O_VAR) return e->c < m.size() ? m[e->c] : 0;
  if (memo) { auto it = memo->find(e); if (it != memo->end()) return it->second; }
  uint64_t r = 0; bool ok;
  switch (e->op) {
    case O_ITE: case F_ITE: r = ev(e->k[0], m, memo) ? ev(e->k[1], m, memo) : ev(e->k[2], m, memo); break;
    case O_CONCAT: r = (ev(e->k[0], m, memo) << e->k[1]->w) | ev(e->k[1], m, memo); break;
    case O_EXTRACT: r = (ev(e->k[0], m, memo) >> e->c) & maskw(e->w); break;
    case O_ZEXT: r = ev(e->k[0], m, memo); break;
    case O_SEXT: r = (uint64_t)sextw(ev(e->k[0], m, memo), e->k[0]->w) & maskw(e->w); break;
    case F_FROMBITS: case F_TOBITS: r = ev(e->k[0], m, memo); break;
    case F_ADD: r = d2b(b2d(ev(e->k[0], m, memo)) + b2d(ev(e->k[1], m, memo))); break;
    case F_SUB: r = d2b(b2d(ev(e->k[0], m, memo)) - b2d(ev(e->k[1], m, memo))); break;
    case F_MUL: r = d2b(b2d(ev(e->k[0], m, memo)) * b2d(ev(e->k[1], m, memo))); break;
    case F_DIV: r = d2b(b2d(ev(e->k[0], m, memo)) / b2d(ev(e->k[1], m, memo))); break;
    case F_NEG: r = ev(e->k[0], m, memo) ^ (1ull << 63); break;
    case F_ABS: r = ev(e->k[0], m, memo) & ~(1ull << 63); break;
    case F_SQRT: r = d2b(std::sqrt(b2d(ev(e->k[0], m, memo)))); break;
    case F_FMA: r = d2b(std::fma(b2d(ev(e->k[0], m, memo)), b2d(ev(e->k[1], m, memo)), b2d(ev(e->k[2], m, memo)))); break;
    case F_EQ: r = b2d(ev(e->k[0], m, memo)) == b2d(ev(e->k[1], m, memo)); break;
    case F_LT: r = b2d(ev(e->k[0], m, memo)) < b2d(ev(e->k[1], m, memo)); break;
    case F_LE: r = b2d(ev(e->k[0], m, memo)) <= b2d(ev(e->k[1], m, memo)); break;
    case F_UNO: { double x = b2d(ev(e->k[0], m, memo)), y = b2d(ev(e->k[1], m, memo)); r = (x != x || y != y); break; }
    case F_RND: r = rnd(b2d(ev(e->k[0], m, memo)), e->c); break;
    case F_TOSI: r = (uint64_t)(int64_t)b2d(ev(e->k[0], m, memo)) & maskw(e->w); break;
    case F_TOUI: r = (uint64_t)b2d(ev(e->k[0], m, memo)) & maskw(e->w); break;
    case F_FROMSI: r = d2b((double)sextw(ev(e->k[0], m, memo), e->k[0]->w)); break;
    case F_FROMUI: r = d2b((double)ev(e->k[0], m, memo)); break;
    default: {
      uint64_t a = ev(e->k[0], m, memo), b = ev(e->k[1], m, memo);
      r = foldBin(e->op, a, b, e->k[0]->w, ok) & maskw(e->w);
      if (!ok) { fprintf(stderr, "evalExpr: op %d\n", e->op); abort(); }
    }
  }
  if (memo) (*memo)[e] = r;
  return r;
}
uint64_t evalExpr(E e, const std::vector<uint64_t>& model) {
  if (e->size < 64) return ev(e, model, nullptr);
  std::unordered_map<E, uint64_t> memo; return ev(e, model, &memo);
}
std::string exprStr(E e, int d) {
  static const char* nm[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext",
   "rconst","rvar","radd","rsub","rmul","rdiv","rneg","req","rlt","rle","rite","rbyte","rfn","ffrombits","ftobits","fadd","fsub","fmul","fdiv","fneg","fabs","fsqrt","ffma","feq","flt","fle","funo","frnd","ftosi","ftoui","ffromsi","ffromui","fite","ftr","fext"};
  if (e->op == O_CONST) return std::to_string(e->c) + ":" + std::to_string(e->w);
  if (e->op == O_VAR || e->op == R_VAR) return g_vars[e->c].name;
  if (e->op == R_CONST) return rconstStr(e->c);
  if (d == 0) return "...";
  std::string s = std::string("(") + nm[e->op];
  if (e->op == O_EXTRACT) s += "@" + std::to_string(e->c) + "w" + std::to_string(e->w);
  for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + exprStr(e->k[i], d - 1);
  return s + ")";
}
