// Hash-consed symbolic expressions: bit-vectors (<=64 bits), exact reals, IEEE doubles.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <cstdio>
#include <cstdlib>

enum Op : uint8_t {
  O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR,
  O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT,
  R_CONST, R_VAR, R_ADD, R_SUB, R_MUL, R_DIV, R_NEG, R_EQ, R_LT, R_LE, R_ITE, R_BYTE, R_FN,
  F_FROMBITS, F_TOBITS, F_ADD, F_SUB, F_MUL, F_DIV, F_NEG, F_ABS, F_SQRT, F_FMA, F_EQ, F_LT, F_LE, F_UNO,
  F_RND, F_TOSI, F_TOUI, F_FROMSI, F_FROMUI, F_ITE, F_TRUNC32, F_EXT64,
};
enum Sort : uint8_t { S_BV, S_REAL, S_F64 };

struct Expr {
  Op op; uint8_t w; Sort sort; bool uninit; bool hasReal; bool hasFP;
  uint32_t id;
  const Expr* k[3];
  uint64_t c;                 // const value / var id / extract offset / rounding mode / R_CONST index
  const std::vector<uint32_t>* vars;
  void* z3;                   // cached Z3_ast
  uint32_t size;              // approximate DAG size (saturating)
};
typedef const Expr* E;

struct VarInfo { std::string name; uint8_t w; Sort sort; bool uninit; };
extern std::vector<VarInfo> g_vars;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sextw(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }

E mkConst(uint64_t v, unsigned w);
E mkVar(const std::string& key, unsigned w, Sort s, bool uninit = false);
E mkBin(Op op, E a, E b);
E mkIte(E c, E a, E b);
E mkExtract(E a, unsigned off, unsigned w);
E mkConcat(E hi, E lo);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
E mkNot(E a);  // width-1
// reals
E mkRConst(double d);
E mkRConstQ(const std::string& q);
E mkRBin(Op op, E a, E b);
E mkRNeg(E a);
E mkRFn(const std::string& name, E a, E b);
// fp
E mkF(Op op, E a, E b = nullptr, E c = nullptr, uint64_t cc = 0, unsigned w = 64);
const std::string& rconstStr(uint64_t idx);
double rconstDouble(uint64_t idx);
uint64_t evalExpr(E e, const std::vector<uint64_t>& model);  // BV and FP64 sorts only (no reals)
std::string exprStr(E e, int depth = 6);
