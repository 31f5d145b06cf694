// llsym: bounded symbolic execution of LLVM-18 bitcode (C++ incl. exceptions, RTTI, heap), Z3 back end.
// Usage: llsym FILE.bc --entry NAME [--real|--ieee] [--param k=v]... [--out DIR] [--procs N] [--time SEC]
#include "expr.h"
#include "solver.h"
#include "poly.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <functional>
#include <set>
#include <map>
#include <chrono>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <signal.h>
using namespace llvm;
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;

// ------------------------------------------------------------------ options
static bool optReal = true; static std::string optEntry, optOut = "."; static int optProcs = 1; static double optTime = 600;
static u64 optMaxSteps = 20000000; static std::map<std::string, long> optParam; static int optMaxViol = 8; static unsigned optTests = 40; static unsigned optQTimeout = 60000;
static bool optTrace = false; static std::string optRepo = "/repo/";
static std::vector<u64> optInputs;
static std::chrono::steady_clock::time_point T0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

struct Val { u64 v; E e; };
static inline Val CV_(u64 v) { return Val{v, nullptr}; }

// ------------------------------------------------------------------ memory
enum Kind : u8 { K_GLOBAL, K_STACK, K_MALLOC, K_NEW, K_NEWARR, K_FUNC, K_EXTERN, K_FREED, K_DEADSTACK, K_EXC };
struct Obj { int rc; u32 size; Kind kind; bool ro; u8* d; E* sym; u8* un; /* un[i]!=0: byte uninitialised */ u32 tag; };
static Obj* newObj(u32 size, Kind k, bool init) {
  Obj* o = new Obj; o->rc = 1; o->size = size; o->kind = k; o->ro = false; o->d = (u8*)calloc(1, size ? size : 1); o->sym = nullptr; o->un = nullptr; o->tag = 0;
  if (!init && size) { o->un = (u8*)malloc(size); memset(o->un, 1, size); }
  return o;
}
static void unref(Obj* o) { if (o && --o->rc == 0) { free(o->d); free(o->sym); free(o->un); delete o; } }
static Obj* cloneObj(Obj* o) {
  Obj* n = new Obj(*o); n->rc = 1; n->d = (u8*)malloc(o->size ? o->size : 1); memcpy(n->d, o->d, o->size);
  if (o->sym) { n->sym = (E*)malloc(sizeof(E) * o->size); memcpy(n->sym, o->sym, sizeof(E) * o->size); }
  if (o->un) { n->un = (u8*)malloc(o->size); memcpy(n->un, o->un, o->size); }
  return n;
}
static const u64 OFF0 = 0x40000000ull;
struct Chunk { int rc; Obj* o[64]; };
struct Mem {
  std::vector<Chunk*> ch; u32 next = 1;
  Mem() {}
  Mem(const Mem& m) : ch(m.ch), next(m.next) { for (auto c : ch) c->rc++; }
  Mem& operator=(const Mem&) = delete;
  ~Mem() { for (auto c : ch) drop(c); }
  static void drop(Chunk* c) { if (--c->rc == 0) { for (auto o : c->o) unref(o); delete c; } }
  Chunk* wch(u32 i) { Chunk* c = ch[i]; if (c->rc > 1) { Chunk* n = new Chunk; n->rc = 1; for (int k = 0; k < 64; k++) { n->o[k] = c->o[k]; if (c->o[k]) c->o[k]->rc++; } c->rc--; ch[i] = n; c = n; } return c; }
  u32 add(Obj* o) { u32 id = next++; while (ch.size() <= id / 64) { Chunk* c = new Chunk; c->rc = 1; memset(c->o, 0, sizeof c->o); ch.push_back(c); } wch(id / 64)->o[id % 64] = o; return id; }
  Obj* get(u32 id) const { return id / 64 < ch.size() ? ch[id / 64]->o[id % 64] : nullptr; }
  Obj* wr(u32 id) { Chunk* c = wch(id / 64); Obj*& o = c->o[id % 64]; if (o->rc > 1) { Obj* n = cloneObj(o); o->rc--; o = n; } return o; }
  void set(u32 id, Obj* o) { Chunk* c = wch(id / 64); unref(c->o[id % 64]); c->o[id % 64] = o; }
};
static inline u64 addrOf(u32 id) { return ((u64)id << 32) | OFF0; }

// ------------------------------------------------------------------ predecoded program
struct Leaf { u8 w; u8 fp; u32 off; };  // fp: 0 int/ptr, 1 double, 2 float
struct PFunc;
struct PInst {
  unsigned op; unsigned sub = 0; int dst = -1; unsigned nd = 0; unsigned w = 0, w2 = 0; u8 fp = 0;
  std::vector<int> ops; std::vector<Leaf> leaves; std::vector<u64> cs; std::vector<int> tgt; // tgt: edge indices
  PFunc* callee = nullptr; Intrinsic::ID iid = 0; const Instruction* I = nullptr; bool hit = false; void* bi = nullptr; u64 extra = 0;
  std::vector<int> argLeaves; std::vector<u64> byval;
};
struct Edge { int target; /*inst idx*/ std::vector<std::pair<int, int>> copies; int block; };
struct PFunc {
  std::string name; Function* F = nullptr; bool decoded = false; u32 id = 0; bool repo = false; std::string file; bool called = false;
  std::vector<PInst> ins; std::vector<Edge> edges; std::vector<Val> consts; unsigned nregs = 0; std::vector<unsigned> argW;
  std::vector<int> lpOf; // not used
  u64 calls = 0;
};
static Module* M; static const DataLayout* DL;
static std::unordered_map<const Function*, PFunc*> g_pf; static std::unordered_map<u32, PFunc*> g_funcById; static std::unordered_map<const GlobalValue*, u32> g_gid;
static std::unordered_map<u32, std::string> g_idName;
static std::vector<PFunc*> g_allf;

struct Frame { PFunc* f; std::vector<Val> r; int pc; std::vector<u32> allocas; };
struct ExcInfo { u64 ti; u64 dtor; int handlers; };
struct InputRec { std::string name; E e; u8 kind; /*0 int 1 real 2 f64*/ };
struct ObsRec { std::string tag; E e; u64 v; u8 kind; };
struct State {
  std::vector<Frame> st; Mem mem; std::vector<E> cons; std::vector<u64> model; std::vector<InputRec> in; std::vector<ObsRec> obs;
  std::map<u64, ExcInfo> exc; std::vector<u64> caught; int uncaught = 0; u64 steps = 0; u32 auxn = 0; u32 forks = 0; u32 inPos = 0; std::set<u32> covers; u64 heapLive = 0;
  std::unordered_map<std::string, Val> kv; bool inconsistentReal = false;
};
static State* S; static std::vector<State*> g_work;
struct PathEnd { std::string why; };
struct Inconclusive { std::string why; };

// ------------------------------------------------------------------ stats / shared
struct Shared { volatile int tokens; volatile int nviol; volatile int stop; volatile long paths; volatile int procs; volatile u64 vk[128]; };
static Shared* SH;
static u64 st_paths = 0, st_forks = 0, st_steps = 0, st_checks = 0, st_assumeDead = 0, st_checkQueries = 0, st_polyZero = 0; static std::map<std::string, u64> st_ends, st_covers; static std::map<std::string, u64> st_checkMsgs;
struct Viol { std::string kind, msg, loc, stack, inputs; };
static std::vector<Viol> g_viol; static std::set<std::string> g_violKeys; static std::vector<std::string> g_tests; static std::set<std::string> g_incon;
static u64 rngs = 88172645463325252ull; static u64 rnd64() { rngs ^= rngs << 13; rngs ^= rngs >> 7; rngs ^= rngs << 17; return rngs; }

// ------------------------------------------------------------------ debug locations
static std::string instLoc(const Instruction* I) {
  if (!I) return "?";
  if (const DILocation* L = I->getDebugLoc()) { std::string d = L->getDirectory().str(), f = L->getFilename().str(); if (!f.empty() && f[0] != '/') f = d + "/" + f; return f + ":" + std::to_string(L->getLine()); }
  return "?";
}
static std::string repoLoc() { // innermost /repo location of the current stack
  for (int i = (int)S->st.size() - 1; i >= 0; i--) {
    auto& fr = S->st[i]; const Instruction* I = fr.f->ins[fr.pc].I;
    if (!I) continue;
    const DILocation* L = I->getDebugLoc();
    while (L) { std::string f = L->getFilename().str(); if (!f.empty() && f[0] != '/') f = L->getDirectory().str() + "/" + f; if (f.find(optRepo) == 0) return f + ":" + std::to_string(L->getLine()); L = L->getInlinedAt(); }
  }
  return S->st.empty() ? "?" : instLoc(S->st.back().f->ins[S->st.back().pc].I);
}
static std::string stackStr() {
  std::string s; int n = 0;
  for (int i = (int)S->st.size() - 1; i >= 0 && n < 14; i--, n++) s += demangle(S->st[i].f->name) + " @ " + instLoc(S->st[i].f->ins[S->st[i].pc].I) + "\n";
  return s;
}
static std::string jesc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }

static double b2d(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static u64 d2b(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static float b2f(u64 b) { u32 x = b; float d; memcpy(&d, &x, 4); return d; }
static u64 f2b(float d) { u32 b; memcpy(&b, &d, 4); return b; }

// ------------------------------------------------------------------ solver front
static void sliceFor(const std::vector<u32>& vs0, std::vector<E>& out, bool& real) {
  static std::vector<u8> inset; static std::vector<u32> touched;
  if (inset.size() < g_vars.size() + 8) inset.resize(g_vars.size() + 1024, 0);
  touched.clear();
  for (u32 v : vs0) { inset[v] = 1; touched.push_back(v); }
  size_t n = S->cons.size(); static std::vector<u8> used; used.assign(n, 0); bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < n; i++) if (!used[i]) { E c = S->cons[i]; bool hit = false; for (u32 v : *c->vars) if (inset[v]) { hit = true; break; }
      if (hit) { used[i] = 1; out.push_back(c); real |= c->hasReal; for (u32 v : *c->vars) if (!inset[v]) { inset[v] = 1; touched.push_back(v); ch = true; } } } }
  for (u32 v : touched) inset[v] = 0;
}
static void pushCons(State* s, E c) {
  if (c->op == O_CONST) return;
  if (c->op == O_AND && c->w == 1) { pushCons(s, c->k[0]); pushCons(s, c->k[1]); return; }
  for (E x : s->cons) if (x == c) return;
  s->cons.push_back(c);
}
static Res query(const std::vector<E>& cs, std::vector<u64>* m, RealModel* rm) {
  Res r = solverCheck(cs, m, rm);
  if (r == UNKNOWN) throw Inconclusive{"solver returned unknown at " + repoLoc()};
  return r;
}
static E substUninit(E e, std::unordered_map<E, E>& memo) {
  if (!e->uninit) return e; auto it = memo.find(e); if (it != memo.end()) return it->second;
  E r;
  if (e->op == O_VAR || e->op == R_VAR) { r = mkVar(g_vars[e->c].name + "'", e->w, e->sort, false); }
  else {
    E k[3] = {0, 0, 0}; for (int i = 0; i < 3; i++) if (e->k[i]) k[i] = substUninit(e->k[i], memo);
    switch (e->op) {
      case O_ITE: case R_ITE: case F_ITE: r = mkIte(k[0], k[1], k[2]); break; case O_CONCAT: r = mkConcat(k[0], k[1]); break; case O_EXTRACT: r = mkExtract(k[0], e->c, e->w); break;
      case O_ZEXT: r = mkZext(k[0], e->w); break; case O_SEXT: r = mkSext(k[0], e->w); break;
      case R_NEG: r = mkRNeg(k[0]); break; case R_ADD: case R_SUB: case R_MUL: case R_DIV: case R_EQ: case R_LT: case R_LE: r = mkRBin(e->op, k[0], k[1]); break;
      case R_BYTE: r = mkExtract(k[0], e->c * 8, 8); break; case R_FN: r = mkRFn(rfnName(e->c), k[0], k[1]); break;
      default: if (e->op >= F_FROMBITS) r = mkF(e->op, k[0], k[1], k[2], e->c, e->w); else r = mkBin(e->op, k[0], k[1]);
    }
  }
  return memo[e] = r;
}
static E rebuild(E e, const E* k) {
  switch (e->op) {
    case O_ITE: case R_ITE: case F_ITE: return mkIte(k[0], k[1], k[2]); case O_CONCAT: return mkConcat(k[0], k[1]); case O_EXTRACT: return mkExtract(k[0], e->c, e->w);
    case O_ZEXT: return mkZext(k[0], e->w); case O_SEXT: return mkSext(k[0], e->w);
    case R_NEG: return mkRNeg(k[0]); case R_ADD: case R_SUB: case R_MUL: case R_DIV: case R_EQ: case R_LT: case R_LE: return mkRBin(e->op, k[0], k[1]);
    case R_BYTE: return mkExtract(k[0], e->c * 8, 8); case R_FN: return mkRFn(rfnName(e->c), k[0], k[1]);
    default: if (e->op >= F_FROMBITS) return mkF(e->op, k[0], k[1], k[2], e->c, e->w); return mkBin(e->op, k[0], k[1]);
  } }
// selections of reals (from fmin, fmax, fabs, ?:) inside a large term: one whose condition contains no further selection
static void findItes(E e, std::unordered_map<E, bool>& has, std::vector<E>& out) {
  auto it = has.find(e); if (it != has.end()) return; bool h = e->op == R_ITE; has[e] = false; if (!e->hasReal) return;
  for (int i = 0; i < 3; i++) if (e->k[i]) { findItes(e->k[i], has, out); h |= has[e->k[i]]; }
  if (e->op == R_ITE && !has[e->k[0]]) out.push_back(e); has[e] = h; }
static E replaceCond(E e, E c, bool v, std::unordered_map<E, E>& memo) {
  if (!e->hasReal) return e; auto it = memo.find(e); if (it != memo.end()) return it->second; E r = e;
  if (e->op == R_ITE && e->k[0] == c) r = replaceCond(e->k[v ? 1 : 2], c, v, memo);
  else if (e->k[0]) { E k[3] = {0, 0, 0}; bool ch = false; for (int i = 0; i < 3; i++) if (e->k[i]) { k[i] = replaceCond(e->k[i], c, v, memo); ch |= k[i] != e->k[i]; } if (ch) r = rebuild(e, k); }
  return memo[e] = r; }
static bool decide(E c, const char* what = "a branch");
static E splitItes(E e, size_t minSize = 150, size_t maxItes = 10) {
  while (e->hasReal && e->size > minSize) { std::unordered_map<E, bool> has; std::vector<E> out; findItes(e, has, out); if (out.empty() || out.size() > maxItes) return e; E c = out[0]->k[0]; bool v = decide(c, "a selection"); std::unordered_map<E, E> memo; e = replaceCond(e, c, v, memo); }
  return e; }
[[noreturn]] static void violation(const std::string& kind, const std::string& msg, E extra = nullptr, RealModel* rmIn = nullptr);
static void recordViolation(const std::string& kind, const std::string& msg, E extra, RealModel* rmIn = nullptr, std::vector<u64>* mIn = nullptr);

static void uninitCheck(E c, const char* what) {
  if (!c->uninit) return;
  std::unordered_map<E, E> memo; E c2 = substUninit(c, memo);
  E diff = c->sort == S_REAL ? mkNot(mkRBin(R_EQ, c, c2)) : c->sort == S_BV ? mkNot(mkBin(O_EQ, c, c2)) : mkNot(mkF(F_EQ, c, c2));
  if (diff->op == O_CONST && !diff->c) return;
  std::vector<E> q; bool real = false; std::vector<u32> vs(*diff->vars); sliceFor(vs, q, real); q.push_back(diff);
  std::vector<u64> m = S->model; RealModel rm;
  if (query(q, &m, &rm) == SAT) { recordViolation("uninitialised", std::string("use of an uninitialised value in ") + what, nullptr, &rm, &m); throw PathEnd{"violation"}; }
}

static State* cloneState() { State* n = new State(*S); st_forks++; n->forks++; S->forks++; return n; }

// Decides a condition; forks the state when both outcomes are feasible.
// decides a comparison of reals from its normal form and the variables' ranges alone: 1 true, 0 false, -1 not determined
static int quickReal(E c) {
  bool neg = false; if (c->op != R_EQ && c->op != R_LT && c->op != R_LE) { c = mkNot(c); neg = true; if (c->op != R_EQ && c->op != R_LT && c->op != R_LE) return -1; }
  if (c->size > 4000000 || c->k[0]->sort != S_REAL) return -1;
  int s = polySign(mkRBin(R_SUB, c->k[1], c->k[0])), r = -1;   // b - a
  switch (c->op) { case R_EQ: r = s == 0 ? 1 : s == 1 || s == -1 ? 0 : -1; break; case R_LT: r = s == 1 ? 1 : s == 0 || s == -1 || s == -2 ? 0 : -1; break; default: r = s == 0 || s == 1 || s == 2 ? 1 : s == -1 ? 0 : -1; }
  return r < 0 ? r : neg ? !r : r; }
// a comparison of reals as "D > 0" or "D >= 0"
static bool asBound(E c, E& D, bool& strict) {
  bool neg = false; if (c->op != R_LT && c->op != R_LE) { c = mkNot(c); neg = true; if (c->op != R_LT && c->op != R_LE) return false; }
  strict = (c->op == R_LT) != neg; E a = c->k[neg ? 1 : 0], b = c->k[neg ? 0 : 1]; D = mkRBin(R_SUB, b, a); return true; }
// follows c from one earlier constraint, comparing normal forms over the variables' ranges?
static bool impliedByOne(E c, const std::vector<E>& cs) {
  E D; bool st; if (!asBound(c, D, st) || c->size < 40 || c->size > 4000000) return false; int n = 0;
  for (int i = (int)cs.size() - 1; i >= 0 && n < 16; i--) { E K = cs[i], Dk; bool ks; if (!K->hasReal || K->size < 20 || K->size > 4000000) continue; bool eq = K->op == R_EQ; if (eq) { if (K->k[0]->sort != S_REAL) continue; Dk = mkRBin(R_SUB, K->k[1], K->k[0]); ks = false; } else if (!asBound(K, Dk, ks)) continue;
    bool share = false; for (u32 v : *c->vars) if (std::binary_search(K->vars->begin(), K->vars->end(), v)) { share = true; break; } if (!share) continue; n++;
    int s = polySign(mkRBin(R_SUB, D, Dk)); if (s == 1 || ((s == 0 || s == 2) && (!st || ks))) return true;
    if (eq) { s = polySign(mkRBin(R_ADD, D, Dk)); if (s == 1 || ((s == 0 || s == 2) && !st)) return true; } }
  return false; }
static long g_tidy = 0;   // sums and products larger than this are put in normal form (fsx_tidy)
static bool decide(E c, const char* what) {
  if (c->op == O_CONST) return c->c;
  if (c->hasReal && c->size > 150) { c = splitItes(c); if (c->op == O_CONST) return c->c; }
  if (c->uninit) uninitCheck(c, what);
  std::vector<E> sl; bool real = c->hasReal; sliceFor(*c->vars, sl, real);
  E nc = mkNot(c);
  for (E x : sl) { if (x == c) return true; if (x == nc) return false; }
  if (real) { int q = quickReal(c); if (q >= 0) return q; if (c->hasReal) { if (impliedByOne(c, sl)) return true; if (impliedByOne(nc, sl)) return false; } }
  if (!real) {
    bool side = evalExpr(c, S->model) & 1;
    sl.push_back(side ? nc : c);
    std::vector<u64> m2 = S->model;
    if (query(sl, &m2, nullptr) == UNSAT) return side;
    State* n = cloneState(); n->model.swap(m2); pushCons(n, side ? nc : c); g_work.push_back(n);
    pushCons(S, side ? c : nc); return side;
  }
  std::vector<u64> m1 = S->model, m2 = S->model;
  sl.push_back(c); Res a = query(sl, &m1, nullptr); sl.pop_back();
  if (a == UNSAT) return false;
  sl.push_back(nc); Res b = query(sl, &m2, nullptr);
  if (b == UNSAT) return true;
  State* n = cloneState(); n->model = m2; pushCons(n, nc); g_work.push_back(n);
  S->model = m1; pushCons(S, c); return true;
}
static E fixReal(E e);
static u64 concretize(E e, const char* what = "a size or address") {
  if (e->op == O_CONST) return e->c;
  if (e->sort == S_REAL) throw Inconclusive{"bit-level use of a real-valued double at " + repoLoc()};
  if (e->uninit) uninitCheck(e, what);
  if (e->hasReal) { e = fixReal(e); if (e->op == O_CONST) return e->c; }
  while (true) { u64 v = evalExpr(e, S->model) & maskw(e->w); E c = mkBin(O_EQ, e, mkConst(v, e->w)); if (decide(c, what)) return v; }
}
static void assume(E c) { // add constraint; end the path when infeasible
  if (c->op == O_CONST) { if (!c->c) { st_assumeDead++; throw PathEnd{"assume"}; } return; }
  std::vector<E> sl; bool real = c->hasReal; sliceFor(*c->vars, sl, real);
  for (E x : sl) if (x == c) return;
  if (!real && (evalExpr(c, S->model) & 1)) { pushCons(S, c); return; }
  sl.push_back(c); std::vector<u64> m = S->model;
  if (query(sl, &m, nullptr) == UNSAT) { st_assumeDead++; throw PathEnd{"assume"}; }
  S->model.swap(m); pushCons(S, c);
}

// full model of all constraints (+extra); returns SAT/UNSAT
static Res fullModel(E extra, std::vector<u64>& m, RealModel& rm) {
  std::vector<E> cs = S->cons; if (extra) cs.push_back(extra);
  bool real = false; for (E c : cs) real |= c->hasReal;
  if (!real && !extra) { m = S->model; return SAT; }
  // solve independent parts separately
  m = S->model; std::vector<u8> done(cs.size(), 0);
  for (size_t i = 0; i < cs.size(); i++) if (!done[i]) {
    std::vector<E> q{cs[i]}; done[i] = 1; std::set<u32> vs(cs[i]->vars->begin(), cs[i]->vars->end()); bool ch = true;
    while (ch) { ch = false; for (size_t j = 0; j < cs.size(); j++) if (!done[j]) { bool h = false; for (u32 v : *cs[j]->vars) if (vs.count(v)) { h = true; break; } if (h) { done[j] = 1; q.push_back(cs[j]); vs.insert(cs[j]->vars->begin(), cs[j]->vars->end()); ch = true; } } }
    Res r = solverCheck(q, &m, &rm); if (r != SAT) return r;
  }
  return SAT;
}
static std::string inputsStr(const std::vector<u64>& m, const RealModel& rm) {
  std::string s;
  for (auto& i : S->in) {
    char b[64];
    if (i.kind == 1) { double d = 0; auto it = rm.d.find(i.e->c); if (it != rm.d.end()) d = it->second; snprintf(b, 64, "d %016llx ", (unsigned long long)d2b(d)); s += b; s += i.name + " = " + std::to_string(d) + "\n"; }
    else if (i.kind == 2) { u64 v = evalExpr(i.e, m); snprintf(b, 64, "d %016llx ", (unsigned long long)v); s += b; snprintf(b, 64, " = %.17g\n", b2d(v)); s += i.name + b; }
    else { u64 v = i.e->c < m.size() ? m[i.e->c] : 0; snprintf(b, 64, "i %llu ", (unsigned long long)(v & maskw(i.e->w))); s += b; s += i.name; if (i.e->w == 8 && v >= 32 && v < 127) { s += " '"; s += (char)v; s += "'"; } s += "\n"; }
  }
  return s;
}
static void recordViolation(const std::string& kind, const std::string& msg, E extra, RealModel* rmIn, std::vector<u64>* mIn) {
  std::string loc = repoLoc(); std::string key = kind + "|" + msg + "|" + (kind == "assert" ? "" : loc);
  if (!g_violKeys.insert(key).second) return;
  u64 kh = std::hash<std::string>()(key) | 1; for (int i = 0; i < SH->nviol && i < 128; i++) if (SH->vk[i] == kh) return;
  Viol v; v.kind = kind; v.msg = msg; v.loc = loc; v.stack = stackStr();
  std::vector<u64> m; RealModel rm; Res r = fullModel(extra, m, rm);
  if (r == UNKNOWN && rmIn) { rm = *rmIn; if (mIn) m = *mIn; r = SAT; }
  if (r != SAT) { if (r == UNKNOWN) { g_incon.insert("no model for a violation: " + msg); return; } g_violKeys.erase(key); return; }
  v.inputs = inputsStr(m, rm);
  for (auto& o : S->kv) { (void)o; }
  g_viol.push_back(v); { int k = __sync_fetch_and_add(&SH->nviol, 1); if (k < 128) SH->vk[k] = kh; }
  if (optTrace) fprintf(stderr, "VIOL %s: %s at %s\n%s%s\n", kind.c_str(), msg.c_str(), loc.c_str(), v.stack.c_str(), v.inputs.c_str());
  if (SH->nviol >= optMaxViol) SH->stop = 1;
}
[[noreturn]] static void violation(const std::string& kind, const std::string& msg, E extra, RealModel* rm) { recordViolation(kind, msg, extra, rm); throw PathEnd{"violation"}; }

// ------------------------------------------------------------------ memory access
static void checkObj(Obj* o, u32 id, const char* rw) {
  (void)id;
  if (!o) violation("memory", std::string("invalid pointer in a ") + rw);
  if (o->kind == K_FREED) violation("memory", std::string("use after free in a ") + rw);
  if (o->kind == K_DEADSTACK) violation("memory", std::string("use of a dead stack object in a ") + rw);
}
static u32 g_tzbits(E e) { // known trailing zero bits
  if (e->op == O_CONST) return e->c ? __builtin_ctzll(e->c) : 63;
  if (e->op == O_CONCAT) { E lo = e->k[1]; if (lo->op == O_CONST && lo->c == 0) return lo->w + g_tzbits(e->k[0]); return g_tzbits(lo) ; }
  if (e->op == O_ADD || e->op == O_SUB || e->op == O_ITE) { int i = e->op == O_ITE; return std::min(g_tzbits(e->k[i]), g_tzbits(e->k[i + 1])); }
  if (e->op == O_MUL) return std::min(63u, g_tzbits(e->k[0]) + g_tzbits(e->k[1]));
  return 0;
}
// replaces the integer selections that hang on a comparison of reals by the branch taken on this path
static E fixReal(E e) {
  if (!e->hasReal || e->sort == S_REAL) return e;
  if (e->op == O_ITE && e->k[0]->hasReal) return fixReal(decide(e->k[0]) ? e->k[1] : e->k[2]);
  if (e->op == R_EQ || e->op == R_LT || e->op == R_LE || (e->w == 1 && e->sort == S_BV)) return mkConst(decide(e), 1);
  E k[3] = {0, 0, 0}; for (int i = 0; i < 3; i++) if (e->k[i]) k[i] = fixReal(e->k[i]);
  switch (e->op) {
    case O_ITE: return mkIte(k[0], k[1], k[2]); case O_CONCAT: return mkConcat(k[0], k[1]); case O_EXTRACT: return mkExtract(k[0], e->c, e->w);
    case O_ZEXT: return mkZext(k[0], e->w); case O_SEXT: return mkSext(k[0], e->w); default: if (e->op < R_CONST && k[0] && k[1]) return mkBin(e->op, k[0], k[1]); throw Inconclusive{"bit-level use of a real-valued double at " + repoLoc()}; }
}
// resolves an address to (object, concrete offset) or (object, symbolic offset)
struct Ref { u32 id; u64 off; E offE; };
static Ref resolve(Val a, u64 n, const char* rw) {
  if (!a.e) {
    u64 ad = a.v; u32 id = ad >> 32; u64 off = (ad & 0xffffffffull) - OFF0;
    if (ad < 0x100000000ull) violation("memory", ad < 4096 ? std::string("null pointer dereference in a ") + rw : std::string("wild pointer in a ") + rw);
    Obj* o = S->mem.get(id); checkObj(o, id, rw);
    if (o->kind == K_FUNC) violation("memory", "data access to a function");
    if (off > o->size || n > o->size - off) violation("memory", std::string("out-of-bounds ") + rw);
    return {id, off, nullptr};
  }
  E e = a.e;
  if (e->sort == S_REAL) throw Inconclusive{"a real-valued double used as an address"};
  if (e->uninit) uninitCheck(e, "an address");
  e = fixReal(e); if (e->op == O_CONST) return resolve(CV_(e->c), n, rw);
  // ite chains of constants: fork on the condition
  while (e->op == O_ITE) e = decide(e->k[0]) ? e->k[1] : e->k[2];
  if (e->op == O_CONST) return resolve(CV_(e->c), n, rw);
  u64 a0 = evalExpr(e, S->model); u32 id = a0 >> 32; Obj* o = S->mem.get(id);
  if (a0 < 0x100000000ull || !o || o->kind == K_FREED || o->kind == K_DEADSTACK || o->kind == K_FUNC || n > o->size) violation("memory", std::string("out-of-bounds or invalid pointer in a ") + rw, mkBin(O_EQ, e, mkConst(a0, 64)));
  E off = mkBin(O_SUB, e, mkConst(addrOf(id), 64));
  u64 o0 = a0 - addrOf(id);
  if (o0 > o->size - n) violation("memory", std::string("out-of-bounds ") + rw, mkBin(O_EQ, e, mkConst(a0, 64)));
  if (!decide(mkBin(O_ULE, off, mkConst(o->size - n, 64)))) { // unreachable for the current model side
    throw Inconclusive{"resolve"};
  }
  if (off->op == O_CONST) return {id, off->c, nullptr};
  return {id, 0, off};
}
static E byteAt(Obj* o, u32 id, u64 i) {
  if (o->sym && o->sym[i]) return o->sym[i];
  if (o->un && o->un[i]) return mkVar("u_" + std::to_string(id) + "_" + std::to_string(i), 8, S_BV, true);
  return mkConst(o->d[i], 8);
}
static Val loadAt(Obj* o, u32 id, u64 off, unsigned w, u8 fp) { // w bits
  unsigned n = (w + 7) / 8; bool conc = true;
  if (o->sym) for (unsigned i = 0; i < n && conc; i++) if (o->sym[off + i]) conc = false;
  if (conc && o->un) for (unsigned i = 0; i < n && conc; i++) if (o->un[off + i]) conc = false;
  if (conc) { u64 v = 0; memcpy(&v, o->d + off, n); return CV_(v & maskw(w)); }
  // real-valued?
  E b0 = o->sym ? o->sym[off] : nullptr;
  if (b0 && b0->op == R_BYTE) {
    bool all = n == 8; E r = b0->k[0];
    for (unsigned i = 0; i < n && all; i++) { E b = o->sym[off + i]; if (!b || b->op != R_BYTE || b->k[0] != r || b->c != i) all = false; }
    if (all) return {0, r};
    if (n == 1) return {0, b0};
    throw Inconclusive{"partial access to a real-valued double at " + repoLoc()};
  }
  E v = byteAt(o, id, off);
  for (unsigned i = 1; i < n; i++) { E b = byteAt(o, id, off + i); if (b->op == R_BYTE) throw Inconclusive{"partial access to a real-valued double at " + repoLoc()}; v = mkConcat(b, v); }
  if (w < n * 8) v = mkExtract(v, 0, w);
  if (fp == 1) {
    if (v->op == O_CONST) return CV_(v->c);
    if (optReal) { if (v->uninit) return {0, mkVar("ur_" + std::to_string(id) + "_" + std::to_string(off), 64, S_REAL, true)}; throw Inconclusive{"symbolic integer bits read as a real-valued double at " + repoLoc()}; }
    return {0, mkF(F_FROMBITS, v)};
  }
  if (fp == 2 && v->op != O_CONST) throw Inconclusive{"symbolic float at " + repoLoc()};
  if (v->op == O_CONST) return CV_(v->c);
  return {0, v};
}
static void storeAt(Obj* o, u64 off, Val v, unsigned w) {
  unsigned n = (w + 7) / 8;
  if (!v.e) { u64 x = v.v; memcpy(o->d + off, &x, n); if (o->sym) for (unsigned i = 0; i < n; i++) o->sym[off + i] = nullptr; }
  else {
    E e = v.e; if (e->sort == S_BV && e->w < n * 8) e = mkZext(e, n * 8);
    if (!o->sym) o->sym = (E*)calloc(o->size, sizeof(E));
    for (unsigned i = 0; i < n; i++) { E b = (n == 1 && e->sort == S_BV) ? e : mkExtract(e, 8 * i, 8); if (b->op == O_CONST) { o->d[off + i] = b->c; o->sym[off + i] = nullptr; } else o->sym[off + i] = b; }
  }
  if (o->un) memset(o->un + off, 0, n);
}
static Val loadMem(Val a, unsigned w, u8 fp) {
  unsigned n = (w + 7) / 8; Ref r = resolve(a, n, "read"); Obj* o = S->mem.get(r.id);
  if (!r.offE) return loadAt(o, r.id, r.off, w, fp);
  u32 tz = g_tzbits(r.offE); u64 step = tz >= 12 ? 4096 : (1ull << tz); u64 cnt = (o->size - n) / step + 1;
  if (cnt > 300) { u64 c = concretize(r.offE); return loadAt(o, r.id, c, w, fp); }
  E res = nullptr; bool real = false;
  std::vector<Val> vals; for (u64 k = 0; k < cnt; k++) { Val v = loadAt(o, r.id, k * step, w, fp); if (v.e && v.e->sort == S_REAL) real = true; vals.push_back(v); }
  bool same = true; for (auto& v : vals) if (v.e != vals[0].e || v.v != vals[0].v) same = false;
  if (same) return vals[0];
  for (int k = (int)cnt - 1; k >= 0; k--) {
    Val v = vals[k]; E ve = v.e ? v.e : (fp == 1 ? (optReal ? mkRConst(b2d(v.v)) : mkF(F_FROMBITS, mkConst(v.v, 64))) : mkConst(v.v, w)); (void)real;
    res = res ? mkIte(mkBin(O_EQ, r.offE, mkConst(k * step, 64)), ve, res) : ve;
  }
  return {0, res};
}
static bool isBad(const Val& v);
static void storeMem(Val a, Val v, unsigned w) {
  if (isBad(v)) violation("math", g_vars[v.e->c].name.substr(4));
  unsigned n = (w + 7) / 8; Ref r = resolve(a, n, "write"); if (r.offE) r.off = concretize(r.offE);
  Obj* o = S->mem.get(r.id); if (o->ro) violation("memory", "write to constant memory");
  o = S->mem.wr(r.id); storeAt(o, r.off, v, w);
}
static u64 allocObj(u64 size, Kind k, bool init) {
  if (size > 0x10000000ull) throw Inconclusive{"allocation of " + std::to_string(size) + " bytes at " + repoLoc()};
  u32 id = S->mem.add(newObj(size, k, init)); if (k == K_MALLOC || k == K_NEW || k == K_NEWARR) S->heapLive++; return addrOf(id);
}
static void freeObj(Val p, Kind k, const char* how) {
  u64 a = p.e ? concretize(p.e) : p.v; if (!a) return;
  u32 id = a >> 32; Obj* o = S->mem.get(id);
  if (!o || a < 0x100000000ull) violation("memory", std::string("invalid pointer passed to ") + how);
  if (o->kind == K_FREED) violation("memory", std::string("double free (") + how + ")");
  if (o->kind != k) violation("memory", std::string("mismatched or invalid ") + how);
  if (a != addrOf(id)) violation("memory", std::string("interior pointer passed to ") + how);
  S->mem.set(id, newObj(0, K_FREED, true)); S->heapLive--;
}

// ------------------------------------------------------------------ decoding
static void leavesOf(Type* t, u32 off, std::vector<Leaf>& out) {
  if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 64) { for (unsigned k = 0; k < w; k += 64) out.push_back({(u8)std::min(64u, w - k), 0, off + k / 8}); } else out.push_back({(u8)w, 0, off}); }
  else if (t->isPointerTy()) out.push_back({64, 0, off});
  else if (t->isDoubleTy()) out.push_back({64, 1, off});
  else if (t->isFloatTy()) out.push_back({32, 2, off});
  else if (t->isX86_FP80Ty()) out.push_back({64, 1, off});
  else if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) leavesOf(st->getElementType(i), off + sl->getElementOffset(i), out); }
  else if (auto* at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) leavesOf(at->getElementType(), off + i * es, out); }
  else if (auto* vt = dyn_cast<FixedVectorType>(t)) { u64 es = DL->getTypeAllocSize(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); i++) leavesOf(vt->getElementType(), off + i * es, out); }
  else if (t->isVoidTy() || t->isMetadataTy() || t->isLabelTy() || t->isTokenTy()) {}
  else { std::string s; raw_string_ostream os(s); t->print(os); throw Inconclusive{"type " + os.str()}; }
}
static std::vector<Leaf> leaves(Type* t) { std::vector<Leaf> l; leavesOf(t, 0, l); return l; }
static u32 leafIndex(Type* t, ArrayRef<unsigned> idx) {
  u32 n = 0; for (unsigned i : idx) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) n += leaves(st->getElementType(k)).size(); t = st->getElementType(i); } else if (auto* at = dyn_cast<ArrayType>(t)) { n += i * leaves(at->getElementType()).size(); t = at->getElementType(); } }
  return n;
}
static u32 globalId(const GlobalValue* g);
static void constVals(const Constant* c, std::vector<Val>& out) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) { unsigned w = ci->getBitWidth(); if (w <= 64) out.push_back(CV_(ci->getZExtValue())); else for (unsigned k = 0; k < w; k += 64) out.push_back(CV_(ci->getValue().extractBitsAsZExtValue(std::min(64u, w - k), k))); return; }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { if (t->isDoubleTy()) out.push_back(CV_(cf->getValueAPF().bitcastToAPInt().getZExtValue())); else if (t->isFloatTy()) out.push_back(CV_(cf->getValueAPF().bitcastToAPInt().getZExtValue())); else { APFloat v = cf->getValueAPF(); bool li; v.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); out.push_back(CV_(v.bitcastToAPInt().getZExtValue())); } return; }
  if (isa<ConstantPointerNull>(c)) { out.push_back(CV_(0)); return; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (size_t i = 0, n = leaves(t).size(); i < n; i++) out.push_back(CV_(0)); return; }
  if (auto* ga = dyn_cast<GlobalAlias>(c)) { constVals(ga->getAliasee(), out); return; }
  if (auto* gv = dyn_cast<GlobalValue>(c)) { out.push_back(CV_(addrOf(globalId(gv)))); return; }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) constVals(ca->getOperand(i), out); return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constVals(cd->getElementAsConstant(i), out); return; }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); auto* g = cast<GEPOperator>(ce); if (!g->accumulateConstantOffset(*DL, off)) break; std::vector<Val> b; constVals(ce->getOperand(0), b); out.push_back(CV_(b[0].v + off.getSExtValue())); return; }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: constVals(ce->getOperand(0), out); return;
      case Instruction::Trunc: { std::vector<Val> b; constVals(ce->getOperand(0), b); out.push_back(CV_(b[0].v & maskw(t->getIntegerBitWidth()))); return; }
      case Instruction::Sub: case Instruction::Add: { std::vector<Val> a, b; constVals(ce->getOperand(0), a); constVals(ce->getOperand(1), b); out.push_back(CV_(ce->getOpcode() == Instruction::Sub ? a[0].v - b[0].v : a[0].v + b[0].v)); return; }
      case Instruction::ICmp: { std::vector<Val> a, b; constVals(ce->getOperand(0), a); constVals(ce->getOperand(1), b); bool eq = a[0].v == b[0].v; out.push_back(CV_(ce->getPredicate() == CmpInst::ICMP_EQ ? eq : !eq)); return; }
      default: break;
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os); throw Inconclusive{"constant " + os.str()};
}
static State* g_init;
static void writeConst(Obj* o, u64 off, const Constant* c) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto* cs = dyn_cast<ConstantDataSequential>(c)) { if (cs->getElementType()->isIntegerTy() || cs->getElementType()->isDoubleTy()) { StringRef r = cs->getRawDataValues(); memcpy(o->d + off, r.data(), r.size()); return; } }
  std::vector<Val> v; constVals(c, v); auto l = leaves(c->getType());
  for (size_t i = 0; i < l.size(); i++) memcpy(o->d + off + l[i].off, &v[i].v, (l[i].w + 7) / 8);
}
static PFunc* pf(const Function* F) {
  auto it = g_pf.find(F); if (it != g_pf.end()) return it->second;
  PFunc* p = new PFunc; p->F = const_cast<Function*>(F); p->name = F->getName().str(); g_pf[F] = p; g_allf.push_back(p);
  if (auto* sp = F->getSubprogram()) { std::string f = sp->getFilename().str(); if (!f.empty() && f[0] != '/') f = sp->getDirectory().str() + "/" + f; p->file = f; p->repo = f.find(optRepo) == 0; }
  return p;
}
static u32 globalId(const GlobalValue* g) {
  if (auto* ga = dyn_cast<GlobalAlias>(g)) { if (auto* b = dyn_cast<GlobalValue>(ga->getAliasee()->stripPointerCasts())) return globalId(b); }
  auto it = g_gid.find(g); if (it != g_gid.end()) return it->second;
  throw Inconclusive{"global without an address: " + g->getName().str()};
}
static void initGlobals() {
  Mem& m = g_init->mem;
  for (auto& F : *M) { Obj* o = newObj(0, K_FUNC, true); u32 id = m.add(o); g_gid[&F] = id; PFunc* p = pf(&F); p->id = id; g_funcById[id] = p; g_idName[id] = F.getName().str(); }
  for (auto& G : M->globals()) {
    u64 sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()) : 0; bool ext = G.isDeclaration();
    Obj* o = newObj(ext ? std::max<u64>(sz, 256) : sz, ext ? K_EXTERN : K_GLOBAL, true); u32 id = m.add(o); g_gid[&G] = id; g_idName[id] = G.getName().str();
  }
  for (auto& G : M->globals()) if (!G.isDeclaration() && G.hasInitializer()) { Obj* o = m.get(g_gid[&G]); writeConst(o, 0, G.getInitializer()); o->ro = G.isConstant(); }
}

typedef bool (*Builtin)(PInst&, std::vector<Val>&, Val& ret); // returns true when it finished normally (advance), false when control was transferred
static std::unordered_map<std::string, Builtin> g_bi;

static void decode(PFunc* p) {
  if (p->decoded) return; p->decoded = true; Function* F = p->F; 
  std::unordered_map<const Value*, int> slot; std::unordered_map<const Value*, int> cslot; std::unordered_map<const BasicBlock*, int> bstart;
  unsigned nr = 0;
  for (auto& A : F->args()) { slot[&A] = nr; auto l = leaves(A.getType()); for (auto& x : l) p->argW.push_back(x.w); nr += l.size(); }
  for (auto& B : *F) for (auto& I : B) { auto n = leaves(I.getType()).size(); if (n) { slot[&I] = nr; nr += n; } }
  p->nregs = nr;
  auto opnd = [&](const Value* v) -> int {
    auto it = slot.find(v); if (it != slot.end()) return it->second;
    auto ic = cslot.find(v); if (ic != cslot.end()) return ic->second;
    if (auto* c = dyn_cast<Constant>(v)) { std::vector<Val> vs; constVals(c, vs); int s = -1 - (int)p->consts.size(); for (auto& x : vs) p->consts.push_back(x); cslot[v] = s; return s; }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) return 0;
    throw Inconclusive{"operand"};
  };
  // constants with several leaves occupy consecutive pool entries: index -1-k-j
  int idx = 0;
  for (auto& B : *F) { bool first = true; for (auto& I : B) { if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue; if (first) { bstart[&B] = idx; first = false; } idx++; } }
  auto edge = [&](const BasicBlock* from, const BasicBlock* to) -> int {
    Edge e; e.target = bstart[to]; e.block = 0;
    for (auto& I : *to) { auto* ph = dyn_cast<PHINode>(&I); if (!ph) break; Value* in = ph->getIncomingValueForBlock(from); auto n = leaves(ph->getType()).size();
      if (isa<UndefValue>(in) ) { int s = opnd(in); for (size_t k = 0; k < n; k++) e.copies.push_back({slot[ph] + (int)k, s - (int)k}); continue; }
      int s = opnd(in); for (size_t k = 0; k < n; k++) e.copies.push_back({slot[ph] + (int)k, s >= 0 ? s + (int)k : s - (int)k}); }
    p->edges.push_back(e); return p->edges.size() - 1;
  };
  for (auto& B : *F) for (auto& I : B) {
    if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
    p->ins.emplace_back(); PInst& q = p->ins.back(); q.op = I.getOpcode(); q.I = &I;
    auto l = leaves(I.getType()); q.nd = l.size(); if (q.nd) { q.dst = slot[&I]; q.w = l[0].w; q.fp = l[0].fp; }
    switch (I.getOpcode()) {
      case Instruction::GetElementPtr: {
        auto* g = cast<GetElementPtrInst>(&I); if (g->getType()->isVectorTy()) throw Inconclusive{"vector gep"};
        q.ops.push_back(opnd(g->getPointerOperand())); u64 c = 0;
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
          Value* ix = it.getOperand();
          if (StructType* st = it.getStructTypeOrNull()) c += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else { u64 sc = DL->getTypeAllocSize(it.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(ix)) c += ci->getSExtValue() * sc; else { q.ops.push_back(opnd(ix)); q.cs.push_back(sc); q.cs.push_back(ix->getType()->getIntegerBitWidth()); } }
        }
        q.extra = c; break; }
      case Instruction::Load: q.ops.push_back(opnd(I.getOperand(0))); q.leaves = l; break;
      case Instruction::Store: q.ops.push_back(opnd(I.getOperand(0))); q.ops.push_back(opnd(I.getOperand(1))); q.leaves = leaves(I.getOperand(0)->getType()); break;
      case Instruction::Alloca: { auto* a = cast<AllocaInst>(&I); q.extra = DL->getTypeAllocSize(a->getAllocatedType()); q.ops.push_back(opnd(a->getArraySize())); break; }
      case Instruction::Br: { auto* b = cast<BranchInst>(&I); if (b->isConditional()) q.ops.push_back(opnd(b->getCondition())); for (unsigned i = 0; i < b->getNumSuccessors(); i++) q.tgt.push_back(edge(&B, b->getSuccessor(i))); break; }
      case Instruction::Switch: { auto* s = cast<SwitchInst>(&I); q.ops.push_back(opnd(s->getCondition())); q.w2 = s->getCondition()->getType()->getIntegerBitWidth(); q.tgt.push_back(edge(&B, s->getDefaultDest())); for (auto& c : s->cases()) { q.cs.push_back(c.getCaseValue()->getZExtValue()); q.tgt.push_back(edge(&B, c.getCaseSuccessor())); } break; }
      case Instruction::Ret: { auto* r = cast<ReturnInst>(&I); if (r->getReturnValue()) { q.ops.push_back(opnd(r->getReturnValue())); q.nd = leaves(r->getReturnValue()->getType()).size(); } else q.nd = 0; break; }
      case Instruction::Call: case Instruction::Invoke: {
        auto* cb = cast<CallBase>(&I); Function* cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts()); if (!cf) if (auto* al = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) cf = dyn_cast<Function>(al->getAliasee()->stripPointerCasts());
        if (cf) { q.callee = pf(cf); q.iid = cf->getIntrinsicID(); if (cf->isDeclaration() && !q.iid) { auto it = g_bi.find(cf->getName().str()); if (it != g_bi.end()) q.bi = (void*)it->second; } else if (!q.iid) { auto it = g_bi.find("!" + cf->getName().str()); if (it != g_bi.end()) q.bi = (void*)it->second; } }
        else if (isa<InlineAsm>(cb->getCalledOperand())) q.sub = 1;
        for (unsigned i = 0; i < cb->arg_size(); i++) { Value* a = cb->getArgOperand(i); if (isa<MetadataAsValue>(a)) continue; q.ops.push_back(opnd(a)); q.argLeaves.push_back(leaves(a->getType()).size()); q.byval.push_back(cb->isByValArgument(i) ? (u64)DL->getTypeAllocSize(cb->getParamByValType(i)) : 0); }
        if (!cf) q.ops.push_back(opnd(cb->getCalledOperand()));
        if (q.ops.size() && q.argLeaves.size()) q.w2 = leaves(cb->getArgOperand(0)->getType()).empty() ? 0 : leaves(cb->getArgOperand(0)->getType())[0].w;
        if (auto* iv = dyn_cast<InvokeInst>(&I)) { q.tgt.push_back(edge(&B, iv->getNormalDest())); q.tgt.push_back(edge(&B, iv->getUnwindDest())); }
        break; }
      case Instruction::LandingPad: { auto* lp = cast<LandingPadInst>(&I); q.sub = lp->isCleanup(); for (unsigned i = 0; i < lp->getNumClauses(); i++) { if (lp->isCatch(i)) { std::vector<Val> v; constVals(lp->getClause(i), v); q.cs.push_back(v[0].v); } else q.cs.push_back(~0ull); } break; }
      case Instruction::ExtractValue: { auto* ev = cast<ExtractValueInst>(&I); int s = opnd(ev->getAggregateOperand()); u32 k = leafIndex(ev->getAggregateOperand()->getType(), ev->getIndices()); q.ops.push_back(s >= 0 ? s + (int)k : s - (int)k); break; }
      case Instruction::InsertValue: { auto* iv = cast<InsertValueInst>(&I); q.ops.push_back(opnd(iv->getAggregateOperand())); q.ops.push_back(opnd(iv->getInsertedValueOperand())); q.extra = leafIndex(iv->getType(), iv->getIndices()); q.w2 = leaves(iv->getInsertedValueOperand()->getType()).size(); break; }
      case Instruction::ExtractElement: case Instruction::InsertElement: { for (auto& o : I.operands()) q.ops.push_back(opnd(o)); q.w2 = leaves(I.getOperand(0)->getType()).size(); break; }
      case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(&I); q.ops.push_back(opnd(sv->getOperand(0))); q.ops.push_back(opnd(sv->getOperand(1))); q.w2 = leaves(sv->getOperand(0)->getType()).size(); for (int x : sv->getShuffleMask()) q.cs.push_back(x); break; }
      default:
        for (auto& o : I.operands()) q.ops.push_back(opnd(o));
        if (I.getNumOperands()) { auto ol = leaves(I.getOperand(0)->getType()); q.w2 = ol.empty() ? 0 : ol[0].w; if (auto* c = dyn_cast<CmpInst>(&I)) { q.sub = c->getPredicate(); q.fp = ol[0].fp; } if (I.isCast()) q.sub = ol.empty() ? 0 : ol[0].fp; }
        if (auto* ai = dyn_cast<AtomicRMWInst>(&I)) { q.sub = ai->getOperation(); }
        if (isa<AtomicCmpXchgInst>(&I)) { q.w2 = leaves(I.getOperand(1)->getType())[0].w; }
        if (isa<SelectInst>(&I)) { if (I.getType()->isPointerTy()) q.w2 = 77; q.leaves = l; q.extra = I.getOperand(0)->getType()->isVectorTy(); }
        break;
    }
    (void)q;
  }
}

// ------------------------------------------------------------------ execution helpers
static inline Val rd(Frame& f, int s) { return s >= 0 ? f.r[s] : f.f->consts[-1 - s]; }
static inline Val rdk(Frame& f, int s, int k) { return s >= 0 ? f.r[s + k] : f.f->consts[-1 - s + k]; }
static E toE(Val v, unsigned w) { if (!v.e) return mkConst(v.v, w); if (v.e->sort == S_REAL) throw Inconclusive{"bit-level operation on a real-valued double at " + repoLoc()}; if (v.e->sort == S_F64) return mkF(F_TOBITS, v.e); return v.e; }
static bool isBad(const Val& v) { return v.e && v.e->op == R_VAR && g_vars[v.e->c].name.compare(0, 4, "bad!") == 0; }
static E toR(Val v) { if (isBad(v)) violation("math", g_vars[v.e->c].name.substr(4)); if (!v.e) { double d = b2d(v.v); if (d != d || std::isinf(d)) throw Inconclusive{"NaN/inf constant meets a real-valued term at " + repoLoc()}; return mkRConst(d); } if (v.e->sort != S_REAL) throw Inconclusive{"integer bits used as a real at " + repoLoc()}; return v.e; }
static E toF(Val v) { if (!v.e) return mkF(F_FROMBITS, mkConst(v.v, 64)); if (v.e->sort == S_BV) return mkF(F_FROMBITS, v.e); return v.e; }
static Val fromE(E e) { if (e->op == O_CONST) return CV_(e->c); if (e->op == R_CONST) return CV_(d2b(rconstDouble(e->c))); return {0, e}; }
static E anyE(Val v, unsigned w, u8 fp) { if (v.e) return v.e; if (fp == 1) return optReal ? mkRConst(b2d(v.v)) : mkF(F_FROMBITS, mkConst(v.v, 64)); return mkConst(v.v, w); }

static void jump(Frame& f, int ei) {
  Edge& e = f.f->edges[ei];
  if (e.copies.size() == 1) { f.r[e.copies[0].first] = rd(f, e.copies[0].second); }
  else if (!e.copies.empty()) { static std::vector<Val> tmp; tmp.clear(); for (auto& c : e.copies) tmp.push_back(rd(f, c.second)); for (size_t i = 0; i < tmp.size(); i++) f.r[e.copies[i].first] = tmp[i]; }
  f.pc = e.target;
}
static void popFrame() { Frame& f = S->st.back(); for (u32 id : f.allocas) S->mem.set(id, newObj(0, K_DEADSTACK, true)); S->st.pop_back(); }
static void finishCall(Frame& f, PInst& q, const Val* ret, unsigned n) {
  for (unsigned i = 0; i < n && i < q.nd; i++) f.r[q.dst + i] = ret[i];
  if (q.op == Instruction::Invoke) jump(f, q.tgt[0]); else f.pc++;
}
static void pushCall(PFunc* p, const std::vector<Val>& args) {
  decode(p); if (S->st.size() > 2000) violation("hang", "unbounded recursion");
  S->st.emplace_back(); Frame& f = S->st.back(); f.f = p; f.r.resize(p->nregs); for (size_t i = 0; i < args.size() && i < p->nregs; i++) f.r[i] = args[i]; f.pc = 0; p->called = true; p->calls++;
}

// ------------------------------------------------------------------ C++ runtime: RTTI and exceptions
static u64 ldc(u64 a, unsigned w = 64) { Val v = loadMem(CV_(a), w, 0); return v.e ? concretize(v.e) : v.v; }
static std::string tiKind(u64 ti) { u64 vp = ldc(ti); return g_idName[vp >> 32]; }
// is `base` an accessible base of `derived` (type_info addresses)? adj: offset added to the object pointer
static bool findBase(u64 derived, u64 base, u64 obj, int64_t& adj, int depth = 0) {
  if (derived == base) { adj = 0; return true; }
  if (depth > 20) return false;
  std::string k = tiKind(derived);
  if (k.find("__si_class_type_info") != std::string::npos) return findBase(ldc(derived + 16), base, obj, adj, depth + 1);
  if (k.find("__vmi_class_type_info") != std::string::npos) {
    u64 cnt = ldc(derived + 20, 32);
    for (u64 i = 0; i < cnt; i++) {
      u64 b = ldc(derived + 24 + 16 * i); int64_t of = (int64_t)ldc(derived + 32 + 16 * i); int64_t o = of >> 8;
      if (of & 1) { if (!obj) continue; u64 vp = ldc(obj); o = (int64_t)ldc(vp + o); }
      int64_t a2; if (findBase(b, base, obj ? obj + o : 0, a2, depth + 1)) { adj = o + a2; return true; }
    }
  }
  return false;
}
static std::string tiName(u64 ti) { return demangle(g_idName[ti >> 32]); }
static void unwindTo(u64 excObj) {
  ExcInfo& ei = S->exc[excObj];
  // search phase
  auto match = [&](PInst& lp, u64& sel, u64& adjPtr) -> int { // 0 none 1 cleanup 2 handler
    for (u64 c : lp.cs) {
      if (c == ~0ull) return 0;
      if (c == 0) { sel = 1; adjPtr = excObj; return 2; }
      int64_t adj; if (findBase(ei.ti, c, excObj, adj)) { sel = c >> 32; adjPtr = excObj + adj; return 2; }
      // pointer catch of pointer throw etc. are not modelled
    }
    return lp.sub ? 1 : 0;
  };
  bool found = false;
  for (int i = (int)S->st.size() - 1; i >= 0 && !found; i--) {
    Frame& f = S->st[i]; PInst& q = f.f->ins[f.pc];
    if (q.op != Instruction::Invoke) continue;
    Edge& e = f.f->edges[q.tgt[1]]; PInst& lp = f.f->ins[e.target]; u64 s, a; if (lp.op == Instruction::LandingPad && match(lp, s, a) == 2) found = true;
  }
  if (!found) violation("uncaught", "uncaught exception of type " + tiName(ei.ti));
  while (true) {
    Frame& f = S->st.back(); PInst& q = f.f->ins[f.pc];
    if (q.op == Instruction::Invoke) {
      int ti = q.tgt[1]; Edge& e = f.f->edges[ti]; PInst& lp = f.f->ins[e.target]; u64 sel = 0, adj = excObj; int m = match(lp, sel, adj);
      if (m) { jump(f, ti); lp.hit = true; f.r[lp.dst] = CV_(excObj); f.r[lp.dst + 1] = CV_(m == 2 ? sel : 0); if (m == 2) S->kv["adj" + std::to_string(excObj)] = CV_(adj); f.pc++; return; }
    }
    popFrame();
  }
}

// ------------------------------------------------------------------ builtins
#define BI(n) g_bi[n] = [](PInst& q, std::vector<Val>& a, Val& ret) -> bool
static u64 conc(Val v) { return v.e ? concretize(v.e) : v.v; }
static std::string cstr(u64 p, size_t mx = 4096) { std::string s; while (s.size() < mx) { Val v = loadMem(CV_(p + s.size()), 8, 0); u64 c = v.e ? concretize(v.e) : v.v; if (!c) break; s += (char)c; } return s; }
static bool copyBytes(u64 d, u64 s, u64 n, bool move) {
  if (!n) return true;
  Ref rs = resolve(CV_(s), n, "memcpy read"), rdst = resolve(CV_(d), n, "memcpy write"); (void)move;
  Obj* so = S->mem.get(rs.id); if (S->mem.get(rdst.id)->ro) violation("memory", "write to constant memory");
  so->rc++; Obj* dobj; // protect source while cloning
  { S->mem.wch(rdst.id / 64); so->rc--; dobj = S->mem.wr(rdst.id); so = S->mem.get(rs.id); }
  memmove(dobj->d + rdst.off, so->d + rs.off, n);
  if (so->sym) { if (!dobj->sym) { dobj->sym = (E*)calloc(dobj->size, sizeof(E)); if (so == dobj) {} } memmove(dobj->sym + rdst.off, so->sym + rs.off, n * sizeof(E)); }
  else if (dobj->sym) memset(dobj->sym + rdst.off, 0, n * sizeof(E));
  if (so->un) { // propagate uninitialised bytes as their defining variables so identity is kept
    if (!dobj->un) { dobj->un = (u8*)calloc(1, dobj->size); }
    memmove(dobj->un + rdst.off, so->un + rs.off, n);
  } else if (dobj->un) memset(dobj->un + rdst.off, 0, n);
  return true;
}
static Val memcmpV(u64 p, u64 q, u64 n, bool eqOnly) {
  if (!n) return CV_(0);
  Ref a = resolve(CV_(p), n, "memcmp read"), b = resolve(CV_(q), n, "memcmp read"); Obj *oa = S->mem.get(a.id), *ob = S->mem.get(b.id);
  E res = mkConst(0, 32);
  for (int64_t i = (int64_t)n - 1; i >= 0; i--) {
    E x = byteAt(oa, a.id, a.off + i), y = byteAt(ob, b.id, b.off + i); E eq = mkBin(O_EQ, x, y);
    E ne = eqOnly ? mkConst(1, 32) : mkIte(mkBin(O_ULT, x, y), mkConst(0xffffffff, 32), mkConst(1, 32));
    res = mkIte(eq, res, ne);
  }
  return fromE(res);
}
// forks on the integer part of a real value
static double realTrunc(E x) {
  while (true) {
    std::vector<E> sl; bool real = true; sliceFor(*x->vars, sl, real); std::vector<u64> m = S->model; RealModel rm; E probe = mkVar("probe", 64, S_REAL); sl.push_back(mkRBin(R_EQ, probe, x)); if (query(sl, &m, &rm) != SAT) throw Inconclusive{"fptosi"};
    double d = rm.d[probe->c]; double t = std::trunc(d); if (std::fabs(t) > 1e6) throw Inconclusive{"fptosi of an unbounded real at " + repoLoc()};
    E c; if (t > 0) c = mkBin(O_AND, mkRBin(R_LE, mkRConst(t), x), mkRBin(R_LT, x, mkRConst(t + 1))); else if (t < 0) c = mkBin(O_AND, mkRBin(R_LT, mkRConst(t - 1), x), mkRBin(R_LE, x, mkRConst(t))); else c = mkBin(O_AND, mkRBin(R_LT, mkRConst(-1), x), mkRBin(R_LT, x, mkRConst(1)));
    if (decide(c)) return t; }
}
// a sum of squares and nonnegative constants, seen from its shape: no feasibility query is needed for its square root
static bool sumOfSquares(E x, int d = 0) {
  if (x->op == R_CONST) return rconstDouble(x->c) >= 0;
  if (d > 40) return false;
  if (x->op == R_MUL) return x->k[0] == x->k[1] || (sumOfSquares(x->k[0], d + 1) && sumOfSquares(x->k[1], d + 1));
  if (x->op == R_ADD) return sumOfSquares(x->k[0], d + 1) && sumOfSquares(x->k[1], d + 1);
  return false;
}
static E realSqrt(E x) {
  if (x->op == R_CONST) return mkRConst(std::sqrt(rconstDouble(x->c)));
  if (E q = polyRoot(x)) { int g = polySign(q); return g >= 0 && g <= 2 ? q : g < 0 ? mkRNeg(q) : mkIte(mkRBin(R_LT, q, mkRConstQ("0")), mkRNeg(q), q); }
  if (!sumOfSquares(x) && decide(mkRBin(R_LT, x, mkRConstQ("0")))) return mkVar("bad!square root of a negative number (NaN) at " + repoLoc(), 64, S_REAL);   // alarm where the value is used
  E r = mkVar("sqrt_" + std::to_string(x->id), 64, S_REAL); pushCons(S, mkRBin(R_LE, mkRConstQ("0"), r)); polyRelate(r, PK_SQRT, x); polyRange(r, 0, INFINITY); pushCons(S, mkRBin(R_EQ, mkRBin(R_MUL, r, r), x)); return r;
}
static E realTrig(bool sine, E x) {
  E s = mkVar("sin_" + std::to_string(x->id), 64, S_REAL), c = mkVar("cos_" + std::to_string(x->id), 64, S_REAL);
  if (x->op == R_VAR && (g_vars[x->c].name.rfind("acos_", 0) == 0)) { E y = mkVar("acosarg_" + g_vars[x->c].name.substr(5), 64, S_REAL); (void)y; }
  polyRelate(s, PK_SIN, c); polyRange(s, -1, 1); polyRange(c, -1, 1);
  pushCons(S, mkRBin(R_EQ, mkRBin(R_ADD, mkRBin(R_MUL, s, s), mkRBin(R_MUL, c, c)), mkRConstQ("1"))); return sine ? s : c;
}
static Val realFn1(const std::string& n, Val a) {
  if (!a.e) { double x = b2d(a.v), r = n == "sqrt" ? std::sqrt(x) : n == "sin" ? std::sin(x) : n == "cos" ? std::cos(x) : n == "tan" ? std::tan(x) : n == "acos" ? std::acos(x) : n == "asin" ? std::asin(x) : n == "atan" ? std::atan(x) : n == "exp" ? std::exp(x) : n == "log" ? std::log(x) : n == "log10" ? std::log10(x) : n == "fabs" ? std::fabs(x) : n == "floor" ? std::floor(x) : n == "ceil" ? std::ceil(x) : n == "round" ? std::round(x) : n == "trunc" ? std::trunc(x) : n == "cbrt" ? std::cbrt(x) : n == "nearbyint" || n == "rint" ? std::nearbyint(x) : n == "tanh" ? std::tanh(x) : 0; return CV_(d2b(r)); }
  if (!optReal || a.e->sort == S_F64) {
    E x = toF(a);
    if (n == "sqrt") return {0, mkF(F_SQRT, x)}; if (n == "fabs") return {0, mkF(F_ABS, x)};
    if (n == "floor") return {0, mkF(F_RND, x, 0, 0, 0)}; if (n == "ceil") return {0, mkF(F_RND, x, 0, 0, 1)}; if (n == "trunc") return {0, mkF(F_RND, x, 0, 0, 2)}; if (n == "nearbyint" || n == "rint") return {0, mkF(F_RND, x, 0, 0, 3)}; if (n == "round") return {0, mkF(F_RND, x, 0, 0, 4)};
    throw Inconclusive{"IEEE mode: " + n + " of a symbolic double at " + repoLoc()};
  }
  if (isBad(a)) return a; E x = toR(a);
  if (n == "fabs") return fromE(mkIte(mkRBin(R_LT, x, mkRConstQ("0")), mkRNeg(x), x));
  if (n == "sqrt") return fromE(realSqrt(x));
  if (n == "sin" || n == "cos") return fromE(realTrig(n == "sin", x));
  if (n == "acos") {
    if (decide(mkRBin(R_LT, mkRConstQ("1"), x)) || decide(mkRBin(R_LT, x, mkRConstQ("-1")))) violation("math", "acos of a value outside [-1,1] (NaN)");
    E t = mkVar("acos_" + std::to_string(x->id), 64, S_REAL); E c = mkVar("cos_" + std::to_string(t->id), 64, S_REAL), s = mkVar("sin_" + std::to_string(t->id), 64, S_REAL);
    polyRelate(c, PK_ALIAS, x); pushCons(S, mkRBin(R_EQ, c, x)); pushCons(S, mkRBin(R_LE, mkRConstQ("0"), s)); realTrig(true, t); pushCons(S, mkRBin(R_LE, mkRConstQ("0"), t)); pushCons(S, mkRBin(R_LE, t, mkRConst(3.141592653589794))); return {0, t};
  }
  if (n == "floor" || n == "ceil" || n == "trunc") { double k = realTrunc(x); if (n == "floor" && decide(mkRBin(R_LT, x, mkRConst(k)))) k -= 1; else if (n == "ceil" && decide(mkRBin(R_LT, mkRConst(k), x))) k += 1; return CV_(d2b(k)); }
  if ( n == "round" || n == "rint" || n == "nearbyint") throw Inconclusive{"real mode: rounding function " + n + " at " + repoLoc()};
  E r = mkRFn(n, polyCanon(x), nullptr); if (n == "exp") pushCons(S, mkRBin(R_LT, mkRConstQ("0"), r)); return {0, r};
}
static Val realPow(Val a, Val b) {
  if (!a.e && !b.e) return CV_(d2b(std::pow(b2d(a.v), b2d(b.v))));
  if (!b.e) { double y = b2d(b.v); if (y == std::floor(y) && std::fabs(y) <= 32) {
      if (optReal) { E x = toR(a), r = mkRConstQ("1"); for (int i = 0; i < (int)std::fabs(y); i++) r = mkRBin(R_MUL, r, x); if (y < 0) { if (decide(mkRBin(R_EQ, x, mkRConstQ("0")))) violation("math", "negative power of zero"); r = mkRBin(R_DIV, mkRConstQ("1"), r); } return fromE(r); }
      if (y == 2) { E x = toF(a); return {0, mkF(F_MUL, x, x)}; } if (y == 1) return a; }
    if (y == 0.5) return realFn1("sqrt", a); }
  if (!optReal) throw Inconclusive{"IEEE mode: pow of a symbolic double"};
  E r = mkRFn("pow", toR(a), toR(b)); pushCons(S, mkBin(O_OR, mkRBin(R_LT, mkRConstQ("0"), r), mkRBin(R_LE, toR(a), mkRConstQ("0")))); return {0, r};
}
static Val fbin(unsigned op, Val a, Val b) {
  if (!a.e && !b.e) { double x = b2d(a.v), y = b2d(b.v), r = op == Instruction::FAdd ? x + y : op == Instruction::FSub ? x - y : op == Instruction::FMul ? x * y : op == Instruction::FDiv ? x / y : std::fmod(x, y); return CV_(d2b(r)); }
  if (op == Instruction::FRem) throw Inconclusive{"symbolic fmod"};
  if (optReal) {
    // an infinite/NaN concrete operand cannot meet a real term
    if (isBad(a)) return a; if (isBad(b)) return b;   // the result of a division by zero raises an alarm where it is used, not where a compiler hoisted the division to
    E x = toR(a), y = toR(b);
    if (op == Instruction::FDiv) {
      if (y->op == R_CONST ? rconstStr(y->c) == "0" : decide(mkRBin(R_EQ, y, mkRConstQ("0")))) {
        if (S->kv.count("div0ok")) throw PathEnd{"div0"};
        return {0, mkVar("bad!floating-point division by zero at " + repoLoc(), 64, S_REAL)}; }
      return fromE(mkRBin(R_DIV, x, y)); }
    E z = mkRBin(op == Instruction::FAdd ? R_ADD : op == Instruction::FSub ? R_SUB : R_MUL, x, y); if (g_tidy && z->size > (u64)g_tidy) { E t = polyCanon(z); if (t->size < z->size) z = t; } return fromE(z);
  }
  return fromE(mkF(op == Instruction::FAdd ? F_ADD : op == Instruction::FSub ? F_SUB : op == Instruction::FMul ? F_MUL : F_DIV, toF(a), toF(b)));
}
static Val fcmp(unsigned pr, Val a, Val b, bool isf) {
  if (!a.e && !b.e) { double x = isf ? b2f(a.v) : b2d(a.v), y = isf ? b2f(b.v) : b2d(b.v); bool u = x != x || y != y; bool r;
    switch (pr) { case CmpInst::FCMP_FALSE: r = 0; break; case CmpInst::FCMP_TRUE: r = 1; break; case CmpInst::FCMP_ORD: r = !u; break; case CmpInst::FCMP_UNO: r = u; break;
      case CmpInst::FCMP_OEQ: r = x == y; break; case CmpInst::FCMP_UEQ: r = u || x == y; break; case CmpInst::FCMP_ONE: r = !u && x != y; break; case CmpInst::FCMP_UNE: r = x != y; break;
      case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_ULT: r = u || x < y; break; case CmpInst::FCMP_OLE: r = x <= y; break; case CmpInst::FCMP_ULE: r = u || x <= y; break;
      case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_UGT: r = u || x > y; break; case CmpInst::FCMP_OGE: r = x >= y; break; default: r = u || x >= y; break; } return CV_(r); }
  if (isf) throw Inconclusive{"symbolic float"};
  E eq, lt, gt, un;
  if (optReal) {
    // comparing a real term against +-inf / NaN constants
    auto special = [&](Val v) { return !v.e && (std::isinf(b2d(v.v)) || std::isnan(b2d(v.v))); };
    if (special(a) || special(b)) { double x = special(a) ? b2d(a.v) : 0, y = special(b) ? b2d(b.v) : 0; return fcmp(pr, CV_(d2b(x)), CV_(d2b(y)), false); }
    E x = toR(a), y = toR(b); eq = mkRBin(R_EQ, x, y); lt = mkRBin(R_LT, x, y); gt = mkRBin(R_LT, y, x); un = mkConst(0, 1);
  }
  else { E x = toF(a), y = toF(b); eq = mkF(F_EQ, x, y); lt = mkF(F_LT, x, y); gt = mkF(F_LT, y, x); un = mkF(F_UNO, x, y); }
  E r;
  switch (pr) { case CmpInst::FCMP_FALSE: r = mkConst(0, 1); break; case CmpInst::FCMP_TRUE: r = mkConst(1, 1); break; case CmpInst::FCMP_ORD: r = mkNot(un); break; case CmpInst::FCMP_UNO: r = un; break;
    case CmpInst::FCMP_OEQ: r = eq; break; case CmpInst::FCMP_UEQ: r = mkBin(O_OR, eq, un); break; case CmpInst::FCMP_ONE: r = mkBin(O_OR, lt, gt); if (optReal) r = mkNot(eq); break; case CmpInst::FCMP_UNE: r = mkNot(eq); break;
    case CmpInst::FCMP_OLT: r = lt; break; case CmpInst::FCMP_ULT: r = mkBin(O_OR, lt, un); break; case CmpInst::FCMP_OLE: r = optReal ? mkNot(gt) : mkBin(O_OR, lt, eq); break; case CmpInst::FCMP_ULE: r = mkNot(gt); break;
    case CmpInst::FCMP_OGT: r = gt; break; case CmpInst::FCMP_UGT: r = mkBin(O_OR, gt, un); break; case CmpInst::FCMP_OGE: r = optReal ? mkNot(lt) : mkBin(O_OR, gt, eq); break; default: r = mkNot(lt); break; }
  return fromE(r);
}
static void doCheck(Val c, const std::string& msg) {
  st_checks++; st_checkMsgs[msg]++;
  if (!c.e) { if (!(c.v & 1)) violation("assert", msg); return; }
  E e = c.e; if (e->w != 1) e = mkNot(mkBin(O_EQ, e, mkConst(0, e->w)));
  if (e->op == O_CONST) { if (!e->c) violation("assert", msg); return; }
  if (e->uninit) uninitCheck(e, "a checked value");
  st_checkQueries++;
  if (e->hasReal) { e = splitItes(e); if (e->op == O_CONST) { if (!e->c) violation("assert", msg); return; } }
  if (e->hasReal && quickReal(e) == 1) { st_polyZero++; return; }
  std::vector<E> sl; bool real = e->hasReal; sliceFor(*e->vars, sl, real); if (e->hasReal && impliedByOne(e, sl)) { st_polyZero++; return; } sl.push_back(mkNot(e)); std::vector<u64> m = S->model; RealModel rm;
  if (query(sl, &m, &rm) == UNSAT) { return; }
  recordViolation("assert", msg, mkNot(e), &rm, &m);
  assume(e);
}
static void addInput(const std::string& name, E e, u8 kind) { S->in.push_back({name, e, kind}); }

static void setupBuiltins() {
  BI("malloc") { ret = CV_(allocObj(conc(a[0]), K_MALLOC, false)); return true; };
  BI("calloc") { u64 n = conc(a[0]), m = conc(a[1]); ret = CV_(allocObj(n * m, K_MALLOC, true)); return true; };
  BI("realloc") { u64 p = conc(a[0]), n = conc(a[1]); u64 r = allocObj(n, K_MALLOC, false); if (p) { Obj* o = S->mem.get(p >> 32); checkObj(o, p >> 32, "realloc"); copyBytes(r, p, std::min<u64>(n, o->size), false); freeObj(CV_(p), K_MALLOC, "realloc"); } ret = CV_(r); return true; };
  BI("free") { freeObj(a[0], K_MALLOC, "free"); return true; };
  BI("_Znwm") { ret = CV_(allocObj(conc(a[0]), K_NEW, false)); return true; };
  g_bi["_ZnwmSt11align_val_t"] = g_bi["_ZnwmRKSt9nothrow_t"] = g_bi["_Znwm"];
  BI("_Znam") { ret = CV_(allocObj(conc(a[0]), K_NEWARR, false)); return true; };
  g_bi["_ZnamRKSt9nothrow_t"] = g_bi["_Znam"];
  BI("_ZdlPv") { freeObj(a[0], K_NEW, "operator delete"); return true; };
  g_bi["_ZdlPvm"] = g_bi["_ZdlPvmSt11align_val_t"] = g_bi["_ZdlPvSt11align_val_t"] = g_bi["_ZdlPvRKSt9nothrow_t"] = g_bi["_ZdlPv"];
  BI("_ZdaPv") { freeObj(a[0], K_NEWARR, "operator delete[]"); return true; };
  g_bi["_ZdaPvm"] = g_bi["_ZdaPv"];
  BI("memcpy") { u64 n = conc(a[2]); copyBytes(conc(a[0]), conc(a[1]), n, false); ret = a[0]; return true; };
  g_bi["memmove"] = g_bi["memcpy"];
  BI("memset") { u64 n = conc(a[2]), p = conc(a[0]); if (n) { Ref r = resolve(CV_(p), n, "memset write"); Obj* o = S->mem.wr(r.id); Val b = a[1]; if (b.e) b = fromE(mkExtract(toE(b, 32), 0, 8)); for (u64 i = 0; i < n; i++) storeAt(o, r.off + i, b.e ? b : CV_(b.v & 255), 8); } ret = a[0]; return true; };
  BI("memcmp") { ret = memcmpV(conc(a[0]), conc(a[1]), conc(a[2]), false); return true; };
  BI("bcmp") { ret = memcmpV(conc(a[0]), conc(a[1]), conc(a[2]), true); return true; };
  BI("__cxa_allocate_exception") { u64 p = allocObj(conc(a[0]), K_EXC, false); ret = CV_(p); return true; };
  BI("__cxa_free_exception") { u64 p = conc(a[0]); S->exc.erase(p); S->mem.set(p >> 32, newObj(0, K_FREED, true)); return true; };
  BI("__cxa_throw") { u64 p = conc(a[0]); S->exc[p] = {conc(a[1]), conc(a[2]), 0}; S->uncaught++; unwindTo(p); return false; };
  BI("__cxa_begin_catch") { u64 p = conc(a[0]); auto it = S->kv.find("adj" + std::to_string(p)); u64 r = it == S->kv.end() ? p : it->second.v; S->exc[p].handlers++; S->uncaught--; S->caught.push_back(p); ret = CV_(r); return true; };
  BI("__cxa_get_exception_ptr") { u64 p = conc(a[0]); auto it = S->kv.find("adj" + std::to_string(p)); ret = CV_(it == S->kv.end() ? p : it->second.v); return true; };
  BI("__cxa_end_catch") {
    if (S->caught.empty()) return true;
    u64 p = S->caught.back(); S->caught.pop_back(); ExcInfo& ei = S->exc[p]; int h = ei.handlers; if (h > 0) { ei.handlers--; if (ei.handlers == 0) { u64 d = ei.dtor; S->kv.erase("adj" + std::to_string(p)); 
        bool rethrown = S->kv.count("re" + std::to_string(p)); 
        if (!rethrown) { // run destructor then return to the point after this call
          if (d) { PFunc* f = g_funcById[d >> 32]; if (f && !f->F->isDeclaration()) { Frame& fr = S->st.back(); (void)fr; // complete this call first
              S->exc.erase(p); Frame& cf = S->st.back(); finishCall(cf, q, nullptr, 0);
              // the destructor runs in a frame whose return must not advance the caller
              pushCall(f, {CV_(p)}); S->st.back().f = f; S->kv["dtorframe" + std::to_string(S->st.size())] = CV_(1); return false; } }
          S->exc.erase(p); } else S->kv.erase("re" + std::to_string(p)); } }
    return true; };
  BI("__cxa_rethrow") { if (S->caught.empty()) violation("uncaught", "rethrow without an exception"); u64 p = S->caught.back(); S->kv["re" + std::to_string(p)] = CV_(1); S->uncaught++; 
    // the handler's own __cxa_end_catch (cleanup) drops the caught entry
    unwindTo(p); return false; };
  BI("__cxa_guard_acquire") { u64 p = conc(a[0]); u64 v = ldc(p, 8); ret = CV_(v ? 0 : 1); return true; };
  BI("__cxa_guard_release") { u64 p = conc(a[0]); storeMem(CV_(p), CV_(1), 8); return true; };
  BI("__cxa_guard_abort") { return true; };
  BI("__cxa_atexit") { ret = CV_(0); return true; };
  BI("__cxa_pure_virtual") { violation("abort", "pure virtual call"); };
  BI("_ZSt9terminatev") { violation("uncaught", "std::terminate"); };
  g_bi["!__clang_call_terminate"] = g_bi["__clang_call_terminate"] = g_bi["_ZSt9terminatev"];
  BI("_ZSt18uncaught_exceptionv") { ret = CV_(S->uncaught > 0); return true; };
  BI("__dynamic_cast") {
    u64 src = conc(a[0]); u64 dst = conc(a[2]); if (!src) { ret = CV_(0); return true; }
    u64 vp = ldc(src); int64_t top = (int64_t)ldc(vp - 16); u64 ti = ldc(vp - 8); u64 full = src + top; int64_t adj; ret = CV_(findBase(ti, dst, full, adj) ? full + adj : 0); return true; };
  BI("abort") { violation("abort", "abort() called"); };
  BI("__assert_fail") { violation("abort", "assertion failed: " + cstr(conc(a[0]))); };
  BI("_ZSt21__glibcxx_assert_failPKciS0_S0_") { violation("abort", "libstdc++ assertion failed: " + cstr(conc(a[3]))); };
  BI("exit") { throw PathEnd{"exit"}; };
  // harness interface
  BI("fsx_int") { if (!optInputs.empty()) { u64 v = S->inPos < optInputs.size() ? optInputs[S->inPos] : 0; S->inPos++; unsigned w = conc(a[1]); int64_t lo = conc(a[2]); if (lo < 0 && w < 64) v = (u64)((int64_t)(v << (64 - w)) >> (64 - w)); ret = CV_(v); return true; }
    std::string n = cstr(conc(a[0])); unsigned w = conc(a[1]); int64_t lo = conc(a[2]), hi = conc(a[3]);
    E e = mkVar("in" + std::to_string(S->in.size()), w, S_BV); addInput(n, e, 0);
    if (S->model.size() <= e->c) S->model.resize(e->c + 1, 0); S->model[e->c] = (u64)lo & maskw(w);
    bool full = (w < 64 && lo == 0 && (u64)hi == maskw(w)) || (lo == INT64_MIN && hi == INT64_MAX) || (w < 64 && lo == -(int64_t)(1ull << (w - 1)) && hi == (int64_t)maskw(w - 1));
    if (!full) { if (lo < 0) { pushCons(S, mkBin(O_SLE, mkConst(lo, w), e)); pushCons(S, mkBin(O_SLE, e, mkConst(hi, w))); } else { pushCons(S, mkBin(O_ULE, mkConst(lo, w), e)); pushCons(S, mkBin(O_ULE, e, mkConst(hi, w))); } }
    E r = w == 64 ? e : lo < 0 ? mkSext(e, 64) : mkZext(e, 64); ret = {0, r}; return true; };
  BI("fsx_double") { if (!optInputs.empty()) { u64 v = S->inPos < optInputs.size() ? optInputs[S->inPos] : 0; S->inPos++; ret = CV_(v); return true; }
    std::string n = cstr(conc(a[0])); double lo = b2d(a[1].v), hi = b2d(a[2].v);
    if (optReal) { char rg[64]; snprintf(rg, sizeof rg, ":%.17g:%.17g", lo, hi); E e = mkVar("in" + std::to_string(S->in.size()) + rg, 64, S_REAL); polyRange(e, lo > -1e300 ? lo : -INFINITY, hi < 1e300 ? hi : INFINITY); addInput(n, e, 1); if (lo > -1e300) pushCons(S, mkRBin(R_LE, mkRConst(lo), e)); if (hi < 1e300) pushCons(S, mkRBin(R_LE, e, mkRConst(hi))); ret = {0, e}; }
    else { E b = mkVar("in" + std::to_string(S->in.size()), 64, S_BV); E e = mkF(F_FROMBITS, b); addInput(n, e, 2); if (S->model.size() <= b->c) S->model.resize(b->c + 1, 0); S->model[b->c] = d2b(lo > -1e300 ? lo : 0.0);
      if (lo > -1e308) pushCons(S, mkF(F_LE, mkF(F_FROMBITS, mkConst(d2b(lo), 64)), e)); if (hi < 1e308) pushCons(S, mkF(F_LE, e, mkF(F_FROMBITS, mkConst(d2b(hi), 64)))); ret = {0, e}; }
    return true; };
  BI("fsx_assume") { Val c = a[0]; if (!c.e) { if (!c.v) { st_assumeDead++; throw PathEnd{"assume"}; } return true; } E e = c.e; if (e->w != 1) e = mkNot(mkBin(O_EQ, e, mkConst(0, e->w))); assume(e); return true; };
  BI("fsx_check") { Val c = a[0]; if (!c.e) c.v = c.v != 0; doCheck(c, cstr(conc(a[1]))); return true; };
  BI("fsx_check_near") { // |a-b| <= tol
    if (a[2].e) throw Inconclusive{"symbolic tolerance at " + repoLoc()};
    std::string msg = cstr(conc(a[3])); if (!a[0].e && !a[1].e) { double x = b2d(a[0].v), y = b2d(a[1].v); doCheck(CV_(std::fabs(x - y) <= b2d(a[2].v) * (1 + std::fabs(x) + std::fabs(y))), msg); return true; }
    if (optReal) { E x = toR(a[0]), y = toR(a[1]); x = splitItes(x, 40); y = splitItes(y, 40); E d = mkRBin(R_SUB, x, y); double tol = b2d(a[2].v); if (tol <= 0) tol = 1e-7;
      if (d->size < 2000000 && (polyIsZero(d) || polyWithin(d, tol))) { st_checks++; st_checkMsgs[msg]++; st_checkQueries++; st_polyZero++; return true; }
      E t = mkRConst(tol); E ok = mkBin(O_AND, mkRBin(R_LE, d, t), mkRBin(R_LE, mkRNeg(d), t)); if (ok->op == O_CONST) { doCheck(CV_(ok->c), msg); return true; }
      // look for a counterexample that survives rounding first
      { auto ab = [](E e) { return mkIte(mkRBin(R_LT, e, mkRConstQ("0")), mkRNeg(e), e); }; E m = mkRBin(R_ADD, mkRConstQ("1"), mkRBin(R_ADD, ab(x), ab(y)));
        bool unk = false; for (double f : {0.05, 1e-3, tol}) { E big = mkRBin(R_MUL, mkRConst(f), m); E bad = mkBin(O_OR, mkRBin(R_LT, big, d), mkRBin(R_LT, big, mkRNeg(d))); std::vector<E> sl; bool real = bad->hasReal; sliceFor(*bad->vars, sl, real); 
          { std::vector<E> s0 = sl; s0.push_back(mkNot(ok)); std::vector<u64> m0 = S->model; if (f == 0.05) try { if (query(s0, &m0, nullptr) == UNSAT) { st_checks++; st_checkMsgs[msg]++; st_checkQueries++; return true; } } catch (Inconclusive&) {} }
          sl.push_back(bad); std::vector<u64> mm = S->model; RealModel rm; Res q = UNKNOWN; try { q = query(sl, &mm, &rm); } catch (Inconclusive&) { unk = true; continue; }
          if (q == SAT) { st_checks++; st_checkMsgs[msg]++; st_checkQueries++; recordViolation("assert", msg, bad, &rm, &mm); assume(ok); return true; } }
        if (unk) throw Inconclusive{"solver returned unknown at " + repoLoc()}; }
      st_checks++; st_checkMsgs[msg]++; st_checkQueries++; return true; }
    E x = toF(a[0]), y = toF(a[1]); E d = mkF(F_ABS, mkF(F_SUB, x, y)); doCheck(fromE(mkF(F_LE, d, toF(a[2]))), msg); return true; };
  BI("fsx_cover") { std::string n = cstr(conc(a[0])); st_covers[n]++; return true; };
  BI("fsx_tidy") { g_tidy = (long)a[0].v; return true; };
  BI("fsx_concretize") { ret = CV_(conc(a[0])); return true; };
  BI("fsx_obs") { std::string t = cstr(conc(a[0])); S->obs.push_back({t, a[1].e, a[1].v, 0}); return true; };
  BI("fsx_obs_d") { std::string t = cstr(conc(a[0])); if (isBad(a[1])) toR(a[1]); S->obs.push_back({t, a[1].e, a[1].v, 1}); return true; };
  BI("fsx_symbolic") { ret = CV_(1); return true; };
  BI("fsx_realmode") { ret = CV_(optReal); return true; };
  BI("fsx_param") { std::string n = cstr(conc(a[0])); auto it = optParam.find(n); ret = it == optParam.end() ? a[1] : CV_(it->second); return true; };
  BI("fsx_heap_live") { ret = CV_(S->heapLive); return true; };
  BI("fsx_end") { throw PathEnd{"end"}; };
  BI("fsx_div0_infeasible") { S->kv["div0ok"] = CV_(1); return true; };
  BI("fsx_fail") { violation("assert", cstr(conc(a[0]))); };
  BI("fsx_isfinite") { if (!a[0].e) ret = CV_(std::isfinite(b2d(a[0].v))); else if (optReal) ret = CV_(1); else { E x = mkF(F_ABS, toF(a[0])); ret = fromE(mkZext(mkF(F_LE, x, mkF(F_FROMBITS, mkConst(d2b(1.7976931348623157e308), 64))), 32)); } return true; };
  BI("fsx_trace") { if (optTrace) { std::string s = cstr(conc(a[0])); Val v = a[1]; fprintf(stderr, "TRACE %s %s\n", s.c_str(), v.e ? exprStr(v.e).c_str() : std::to_string(v.v).c_str()); } return true; };
  for (const char* n : {"sqrt", "sin", "cos", "tan", "acos", "asin", "atan", "exp", "log", "log10", "fabs", "floor", "ceil", "round", "trunc", "cbrt", "nearbyint", "rint", "tanh"}) {}
#define M1(n) BI(#n) { ret = realFn1(#n, a[0]); return true; }
  M1(sqrt); M1(sin); M1(cos); M1(tan); M1(acos); M1(asin); M1(atan); M1(exp); M1(log); M1(log10); M1(fabs); M1(floor); M1(ceil); M1(round); M1(trunc); M1(cbrt); M1(nearbyint); M1(rint); M1(tanh);
  BI("pow") { ret = realPow(a[0], a[1]); return true; };
  BI("atan2") { if (!a[0].e && !a[1].e) { ret = CV_(d2b(std::atan2(b2d(a[0].v), b2d(a[1].v)))); return true; }
    if (!optReal) throw Inconclusive{"IEEE mode: atan2"};
    E y = toR(a[0]), x = toR(a[1]); E z = mkRConstQ("0");
    E r2 = mkRBin(R_ADD, mkRBin(R_MUL, x, x), mkRBin(R_MUL, y, y)); E r = realSqrt(r2); E t = mkVar("atan2_" + std::to_string(y->id) + "_" + std::to_string(x->id), 64, S_REAL);
    E c = realTrig(false, t), s = realTrig(true, t); pushCons(S, mkRBin(R_EQ, mkRBin(R_MUL, c, r), x)); pushCons(S, mkRBin(R_EQ, mkRBin(R_MUL, s, r), y)); (void)z; 
    if (y->op == R_CONST && x->op == R_CONST) {}
    ret = {0, t}; return true; };
  BI("fmod") { ret = fbin(Instruction::FRem, a[0], a[1]); return true; };
#define NANARG(x_) ((!(x_).e && std::isnan(b2d((x_).v))) || ((x_).e && (x_).e->op == R_VAR && g_vars[(x_).e->c].name.compare(0, 15, "bad!square root") == 0))
  BI("fmax") { if (NANARG(a[0])) { ret = a[1]; return true; } if (NANARG(a[1])) { ret = a[0]; return true; } Val c = fcmp(CmpInst::FCMP_OLT, a[0], a[1], false); ret = c.e ? fromE(mkIte(c.e, anyE(a[1], 64, 1), anyE(a[0], 64, 1))) : c.v ? a[1] : a[0]; return true; };
  BI("fmin") { if (NANARG(a[0])) { ret = a[1]; return true; } if (NANARG(a[1])) { ret = a[0]; return true; } Val c = fcmp(CmpInst::FCMP_OLT, a[1], a[0], false); ret = c.e ? fromE(mkIte(c.e, anyE(a[1], 64, 1), anyE(a[0], 64, 1))) : c.v ? a[1] : a[0]; return true; };
  static std::map<u64, E> fmtTab;  // real mode: a symbolic number is written as a unique token and read back as itself
  BI("fsx_strtod") { std::string s = cstr(conc(a[0])); size_t neg = s[0] == '-' || s[0] == '+'; if (optReal && s.size() == neg + 20 && s.compare(neg, 12, "8.7654321e+9") == 0) { auto it = fmtTab.find(strtoull(s.c_str() + neg + 12, 0, 10)); if (it != fmtTab.end()) { u64 ep = conc(a[1]); if (ep) storeMem(CV_(ep), CV_(conc(a[0]) + s.size()), 64); ret = fromE(s[0] == '-' ? mkRNeg(it->second) : it->second); return true; } } char* e; double d = strtod(s.c_str(), &e); u64 ep = conc(a[1]); if (ep) storeMem(CV_(ep), CV_(conc(a[0]) + (e - s.c_str())), 64); ret = CV_(d2b(d)); return true; };
  BI("fsx_fmt_double") { char b[512]; std::string f = cstr(conc(a[2])); int n; if (a[3].e) { if (!optReal) throw Inconclusive{"formatting of a symbolic double at " + repoLoc()}; E x = a[3].e; n = snprintf(b, sizeof b, "8.7654321e+9%08llu", (unsigned long long)x->id); fmtTab[x->id] = x; } else n = snprintf(b, sizeof b, f.c_str(), b2d(a[3].v)); u64 p = conc(a[0]), cap = conc(a[1]); for (int i = 0; i <= n && (u64)i < cap; i++) storeMem(CV_(p + i), CV_((u8)b[i]), 8); ret = CV_(n); return true; };
  for (const char* n : {"puts", "putchar", "fflush", "printf", "fprintf", "fputc", "fputs", "fwrite", "setvbuf"}) BI(n) { ret = CV_(0); return true; };
  BI("_Unwind_Resume") { u64 p = conc(a[0]); unwindTo(p); return false; };
}

// ------------------------------------------------------------------ interpreter
static void ibin(Frame& f, PInst& q, int k) {
  Val a = rdk(f, q.ops[0], k), b = rdk(f, q.ops[1], k); unsigned w = q.w; Op op;
  switch (q.op) { case Instruction::Add: op = O_ADD; break; case Instruction::Sub: op = O_SUB; break; case Instruction::Mul: op = O_MUL; break; case Instruction::UDiv: op = O_UDIV; break; case Instruction::SDiv: op = O_SDIV; break; case Instruction::URem: op = O_UREM; break; case Instruction::SRem: op = O_SREM; break;
    case Instruction::And: op = O_AND; break; case Instruction::Or: op = O_OR; break; case Instruction::Xor: op = O_XOR; break; case Instruction::Shl: op = O_SHL; break; case Instruction::LShr: op = O_LSHR; break; default: op = O_ASHR; break; }
  if (op >= O_UDIV && op <= O_SREM) { if (!b.e) { if (b.v == 0) violation("math", "integer division by zero"); } else if (decide(mkBin(O_EQ, toE(b, w), mkConst(0, w)))) violation("math", "integer division by zero"); }
  if (!a.e && !b.e) {
    u64 x = a.v, y = b.v, r = 0; int64_t sx = sextw(x, w), sy = sextw(y, w);
    switch (op) { case O_ADD: r = x + y; break; case O_SUB: r = x - y; break; case O_MUL: r = x * y; break; case O_UDIV: r = x / y; break; case O_UREM: r = x % y; break; case O_SDIV: r = sy == -1 ? 0 - x : (u64)(sx / sy); break; case O_SREM: r = sy == -1 ? 0 : (u64)(sx % sy); break;
      case O_AND: r = x & y; break; case O_OR: r = x | y; break; case O_XOR: r = x ^ y; break; case O_SHL: r = y >= w ? 0 : x << y; break; case O_LSHR: r = y >= w ? 0 : x >> y; break; default: r = y >= w ? (sx < 0 ? ~0ull : 0) : (u64)(sx >> y); break; }
    f.r[q.dst + k] = CV_(r & maskw(w)); return;
  }
  if ((a.e && a.e->sort == S_REAL) || (b.e && b.e->sort == S_REAL)) {
    // sign-bit tricks on doubles: and with 0x7fff.. (fabs), xor with the sign bit (neg)
    if (op == O_AND && !b.e && b.v == 0x7fffffffffffffffull) { f.r[q.dst + k] = realFn1("fabs", a); return; }
    if (op == O_XOR && !b.e && b.v == 0x8000000000000000ull) { f.r[q.dst + k] = fromE(mkRNeg(a.e)); return; }
  }
  f.r[q.dst + k] = fromE(mkBin(op, toE(a, w), toE(b, w)));
}
static Val icmpV(unsigned pr, Val a, Val b, unsigned w) {
  if (!a.e && !b.e) { u64 x = a.v, y = b.v; int64_t sx = sextw(x, w), sy = sextw(y, w); bool r;
    switch (pr) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break; case CmpInst::ICMP_SGT: r = sx > sy; break; default: r = sx >= sy; break; } return CV_(r); }
  E x = toE(a, w), y = toE(b, w), r;
  switch (pr) { case CmpInst::ICMP_EQ: r = mkBin(O_EQ, x, y); break; case CmpInst::ICMP_NE: r = mkNot(mkBin(O_EQ, x, y)); break; case CmpInst::ICMP_ULT: r = mkBin(O_ULT, x, y); break; case CmpInst::ICMP_ULE: r = mkBin(O_ULE, x, y); break; case CmpInst::ICMP_UGT: r = mkBin(O_ULT, y, x); break; case CmpInst::ICMP_UGE: r = mkBin(O_ULE, y, x); break; case CmpInst::ICMP_SLT: r = mkBin(O_SLT, x, y); break; case CmpInst::ICMP_SLE: r = mkBin(O_SLE, x, y); break; case CmpInst::ICMP_SGT: r = mkBin(O_SLT, y, x); break; default: r = mkBin(O_SLE, y, x); break; }
  return fromE(r);
}
static bool condTrue(Val c) { if (!c.e) return c.v & 1; return decide(c.e); }
static Val selectV(Val c, Val a, Val b, unsigned w, u8 fp) {
  if (!c.e) return c.v & 1 ? a : b;
  if (!a.e && !b.e && a.v == b.v) return a; if (a.e && a.e == b.e) return a;
  if (fp == 2) return condTrue(c) ? a : b;
  if (fp == 0 && ((a.e && a.e->sort == S_REAL) || (b.e && b.e->sort == S_REAL))) fp = 1;
  if (fp == 1 && optReal && ((!a.e && !std::isfinite(b2d(a.v))) || (!b.e && !std::isfinite(b2d(b.v))))) return condTrue(c) ? a : b;
  E x = anyE(a, w, fp), y = anyE(b, w, fp); if (x->sort != y->sort) { if (!optReal) { x = toF(a); y = toF(b); } else throw Inconclusive{"select of mixed sorts"}; }
  return fromE(mkIte(c.e, x, y));
}
static void overflowOp(Frame& f, PInst& q, Intrinsic::ID id) {
  Val a = rd(f, q.ops[0]), b = rd(f, q.ops[1]); unsigned w = q.w;
  if (!a.e && !b.e) {
    u64 r; bool o; int64_t sa = sextw(a.v, w), sb = sextw(b.v, w);
    switch (id) { case Intrinsic::umul_with_overflow: { __uint128_t p = (__uint128_t)a.v * b.v; r = (u64)p & maskw(w); o = (p >> w) != 0; break; } case Intrinsic::uadd_with_overflow: { __uint128_t p = (__uint128_t)a.v + b.v; r = (u64)p & maskw(w); o = (p >> w) != 0; break; } case Intrinsic::usub_with_overflow: r = (a.v - b.v) & maskw(w); o = a.v < b.v; break;
      default: { __int128_t p = id == Intrinsic::smul_with_overflow ? (__int128_t)sa * sb : id == Intrinsic::sadd_with_overflow ? (__int128_t)sa + sb : (__int128_t)sa - sb; r = (u64)p & maskw(w); o = (__int128_t)sextw(r, w) != p; } }
    f.r[q.dst] = CV_(r); f.r[q.dst + 1] = CV_(o); return;
  }
  E x = toE(a, w), y = toE(b, w), r, o;
  switch (id) {
    case Intrinsic::uadd_with_overflow: r = mkBin(O_ADD, x, y); o = mkBin(O_ULT, r, x); break;
    case Intrinsic::usub_with_overflow: r = mkBin(O_SUB, x, y); o = mkBin(O_ULT, x, y); break;
    case Intrinsic::sadd_with_overflow: { r = mkBin(O_ADD, x, y); E z = mkConst(0, w); E sx = mkBin(O_SLT, x, z), sy = mkBin(O_SLT, y, z), sr = mkBin(O_SLT, r, z); o = mkBin(O_AND, mkBin(O_EQ, sx, sy), mkNot(mkBin(O_EQ, sx, sr))); break; }
    case Intrinsic::ssub_with_overflow: { r = mkBin(O_SUB, x, y); E z = mkConst(0, w); E sx = mkBin(O_SLT, x, z), sy = mkBin(O_SLT, y, z), sr = mkBin(O_SLT, r, z); o = mkBin(O_AND, mkNot(mkBin(O_EQ, sx, sy)), mkNot(mkBin(O_EQ, sx, sr))); break; }
    case Intrinsic::umul_with_overflow: if (w <= 32) { E p = mkBin(O_MUL, mkZext(x, 64), mkZext(y, 64)); r = mkExtract(p, 0, w); o = mkNot(mkBin(O_EQ, mkExtract(p, w, 64 - w), mkConst(0, 64 - w))); }
      else { E c = y->op == O_CONST ? y : x->op == O_CONST ? x : nullptr; E v = c == y ? x : y; if (!c) { u64 cv = concretize(y); c = mkConst(cv, w); v = x; } r = mkBin(O_MUL, v, c); o = c->c ? mkBin(O_ULT, mkConst(maskw(w) / c->c, w), v) : mkConst(0, 1); } break;
    default: if (w <= 32) { E p = mkBin(O_MUL, mkSext(x, 64), mkSext(y, 64)); r = mkExtract(p, 0, w); o = mkNot(mkBin(O_EQ, mkSext(r, 64), p)); } else { u64 xv = concretize(x), yv = concretize(y); __int128_t p = (__int128_t)(int64_t)xv * (int64_t)yv; f.r[q.dst] = CV_((u64)p); f.r[q.dst + 1] = CV_((__int128_t)(int64_t)p != p); return; }
  }
  f.r[q.dst] = fromE(r); f.r[q.dst + 1] = fromE(o);
}
static bool intrinsic(Frame& f, PInst& q, std::vector<Val>& a) { // sets result; returns true to advance
  unsigned w = q.w; Val ret = CV_(0);
  switch (q.iid) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n = conc(a[2]); u64 d = conc(a[0]), s = conc(a[1]); copyBytes(d, s, n, true); return true; }
    case Intrinsic::memset: { Val r; return g_bi["memset"](q, a, r); }
    case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: overflowOp(f, q, q.iid); return true;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: ret = a[0]; break;
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: { unsigned p = q.iid == Intrinsic::umax ? CmpInst::ICMP_UGT : q.iid == Intrinsic::umin ? CmpInst::ICMP_ULT : q.iid == Intrinsic::smax ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT; ret = selectV(icmpV(p, a[0], a[1], w), a[0], a[1], w, 0); break; }
    case Intrinsic::abs: ret = selectV(icmpV(CmpInst::ICMP_SLT, a[0], CV_(0), w), a[0].e ? fromE(mkBin(O_SUB, mkConst(0, w), toE(a[0], w))) : CV_((0 - a[0].v) & maskw(w)), a[0], w, 0); break;
    case Intrinsic::usub_sat: ret = selectV(icmpV(CmpInst::ICMP_ULT, a[0], a[1], w), CV_(0), (!a[0].e && !a[1].e) ? CV_((a[0].v - a[1].v) & maskw(w)) : fromE(mkBin(O_SUB, toE(a[0], w), toE(a[1], w))), w, 0); break;
    case Intrinsic::uadd_sat: { Val s = (!a[0].e && !a[1].e) ? CV_((a[0].v + a[1].v) & maskw(w)) : fromE(mkBin(O_ADD, toE(a[0], w), toE(a[1], w))); ret = selectV(icmpV(CmpInst::ICMP_ULT, s, a[0], w), CV_(maskw(w)), s, w, 0); break; }
    case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: { u64 v = conc(a[0]); v &= maskw(w); ret = CV_(q.iid == Intrinsic::ctpop ? __builtin_popcountll(v) : v == 0 ? w : q.iid == Intrinsic::ctlz ? __builtin_clzll(v) - (64 - w) : __builtin_ctzll(v)); break; }
    case Intrinsic::bswap: { E e = toE(a[0], w), r = nullptr; for (unsigned i = 0; i < w / 8; i++) { E b = mkExtract(e, 8 * i, 8); r = r ? mkConcat(r, b) : b; } ret = fromE(r); break; }
    case Intrinsic::fshl: case Intrinsic::fshr: { u64 s = conc(a[2]) % w; E x = toE(a[0], w), y = toE(a[1], w); if (q.iid == Intrinsic::fshl) ret = s == 0 ? a[0] : fromE(mkBin(O_OR, mkBin(O_SHL, x, mkConst(s, w)), mkBin(O_LSHR, y, mkConst(w - s, w)))); else ret = s == 0 ? a[1] : fromE(mkBin(O_OR, mkBin(O_SHL, x, mkConst(w - s, w)), mkBin(O_LSHR, y, mkConst(s, w)))); break; }
    case Intrinsic::fabs: if (q.fp == 2) { ret = CV_(f2b(std::fabs(b2f(conc(a[0]))))); break; } ret = isBad(a[0]) ? a[0] : realFn1("fabs", a[0]); break;
    case Intrinsic::sqrt: ret = realFn1("sqrt", a[0]); break; case Intrinsic::floor: ret = realFn1("floor", a[0]); break; case Intrinsic::ceil: if (q.fp == 2) { ret = CV_(f2b(std::ceil(b2f(conc(a[0]))))); break; } ret = realFn1("ceil", a[0]); break; case Intrinsic::trunc: ret = realFn1("trunc", a[0]); break; case Intrinsic::round: ret = realFn1("round", a[0]); break; case Intrinsic::rint: case Intrinsic::nearbyint: ret = realFn1("rint", a[0]); break;
    case Intrinsic::sin: ret = realFn1("sin", a[0]); break; case Intrinsic::cos: ret = realFn1("cos", a[0]); break; case Intrinsic::exp: ret = realFn1("exp", a[0]); break; case Intrinsic::log: ret = realFn1("log", a[0]); break; case Intrinsic::pow: ret = realPow(a[0], a[1]); break;
    case Intrinsic::exp2: { if (a[0].e) throw Inconclusive{"exp2"}; ret = CV_(d2b(std::exp2(b2d(a[0].v)))); break; }
    case Intrinsic::ldexp: { if (a[0].e) throw Inconclusive{"ldexp"}; ret = CV_(d2b(std::ldexp(b2d(a[0].v), (int)conc(a[1])))); break; }
    case Intrinsic::powi: { Val e = CV_(d2b((double)(int32_t)conc(a[1]))); ret = realPow(a[0], e); break; }
    case Intrinsic::fmuladd: ret = fbin(Instruction::FAdd, fbin(Instruction::FMul, a[0], a[1]), a[2]); break;
    case Intrinsic::fma: if (!a[0].e && !a[1].e && !a[2].e) ret = CV_(d2b(std::fma(b2d(a[0].v), b2d(a[1].v), b2d(a[2].v)))); else if (optReal) ret = fbin(Instruction::FAdd, fbin(Instruction::FMul, a[0], a[1]), a[2]); else ret = {0, mkF(F_FMA, toF(a[0]), toF(a[1]), toF(a[2]))}; break;
    case Intrinsic::maxnum: case Intrinsic::maximum: { Val r; g_bi["fmax"](q, a, r); ret = r; break; } case Intrinsic::minnum: case Intrinsic::minimum: { Val r; g_bi["fmin"](q, a, r); ret = r; break; }
    case Intrinsic::copysign: { if (!a[0].e && !a[1].e) { ret = CV_(d2b(std::copysign(b2d(a[0].v), b2d(a[1].v)))); break; } Val ab = realFn1("fabs", a[0]); Val ng = ab.e ? (optReal ? fromE(mkRNeg(ab.e)) : fromE(mkF(F_NEG, ab.e))) : CV_(d2b(-b2d(ab.v))); ret = selectV(fcmp(CmpInst::FCMP_OLT, a[1], CV_(0), false), ng, ab, 64, 1); break; }
    case Intrinsic::is_constant: ret = CV_(0); break; case Intrinsic::objectsize: ret = CV_(~0ull); break;
    case Intrinsic::is_fpclass: { unsigned m = conc(a[1]); if (!a[0].e) { double d = b2d(a[0].v); bool r = ((m & 3) && d != d) || ((m & 4) && std::isinf(d) && d < 0) || ((m & 0x200) && std::isinf(d) && d > 0) || ((m & 0x108) && std::isnormal(d)) || ((m & 0x60) && d == 0) || ((m & 0x90) && std::fpclassify(d) == FP_SUBNORMAL); ret = CV_(r); break; } if (optReal) { bool fin = (m & 0x1f8) == 0x1f8, none = (m & 0x1f8) == 0; if (!fin && !none) throw Inconclusive{"is.fpclass"}; ret = CV_(fin); break; } throw Inconclusive{"is.fpclass"}; }
    case Intrinsic::eh_typeid_for: { u64 t = conc(a[0]); ret = CV_((t >> 32) & 0x7fffffff); break; }
    case Intrinsic::stacksave: ret = CV_(0); break;
    case Intrinsic::trap: case Intrinsic::ubsantrap: violation("abort", "trap");
    case Intrinsic::assume: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stackrestore: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label: return true;
    default: throw Inconclusive{"intrinsic " + q.callee->name + " at " + repoLoc()};
  }
  if (q.dst >= 0) f.r[q.dst] = ret;
  return true;
}
static bool maybeSplit();
static void finalizePath(const std::string& why);

static void step() {
  Frame* fp = &S->st.back(); PInst& q = fp->f->ins[fp->pc]; Frame& f = *fp;
  q.hit = true; S->steps++; st_steps++;
  switch (q.op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
      if (q.nd == 1) ibin(f, q, 0); else { if (q.I->getType()->isIntegerTy()) throw Inconclusive{"wide integer arithmetic at " + repoLoc()}; for (unsigned k = 0; k < q.nd; k++) ibin(f, q, k); } f.pc++; break;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
      for (unsigned k = 0; k < q.nd; k++) { Val a = rdk(f, q.ops[0], k), b = rdk(f, q.ops[1], k); if (q.fp == 2) { float x = b2f(conc(a)), y = b2f(conc(b)); f.r[q.dst + k] = CV_(f2b(q.op == Instruction::FAdd ? x + y : q.op == Instruction::FSub ? x - y : q.op == Instruction::FMul ? x * y : q.op == Instruction::FDiv ? x / y : std::fmod(x, y))); } else f.r[q.dst + k] = fbin(q.op, a, b); } f.pc++; break;
    case Instruction::FNeg: for (unsigned k = 0; k < q.nd; k++) { Val a = rdk(f, q.ops[0], k); if (q.fp == 2) f.r[q.dst + k] = CV_(f2b(-b2f(conc(a)))); else f.r[q.dst + k] = !a.e ? CV_(d2b(-b2d(a.v))) : isBad(a) ? a : optReal ? fromE(mkRNeg(toR(a))) : fromE(mkF(F_NEG, toF(a))); } f.pc++; break;
    case Instruction::ICmp: for (unsigned k = 0; k < q.nd; k++) { Val a = rdk(f, q.ops[0], k), b = rdk(f, q.ops[1], k);
        if (((a.e && a.e->sort == S_REAL) || (b.e && b.e->sort == S_REAL)) && (q.sub == CmpInst::ICMP_SLT || q.sub == CmpInst::ICMP_SGT) && !b.e) { // sign test of a double
          if (q.sub == CmpInst::ICMP_SLT && b.v == 0) { f.r[q.dst + k] = fcmp(CmpInst::FCMP_OLT, a, CV_(0), false); continue; } if (q.sub == CmpInst::ICMP_SGT && b.v == ~0ull) { f.r[q.dst + k] = fcmp(CmpInst::FCMP_OGE, a, CV_(0), false); continue; } }
        f.r[q.dst + k] = icmpV(q.sub, a, b, q.w2); } f.pc++; break;
    case Instruction::FCmp: for (unsigned k = 0; k < q.nd; k++) f.r[q.dst + k] = fcmp(q.sub, rdk(f, q.ops[0], k), rdk(f, q.ops[1], k), q.fp == 2); f.pc++; break;
    case Instruction::Select: { if (q.w2 == 77) { int c = condTrue(rdk(f, q.ops[0], 0)) ? 1 : 2; Frame& g = S->st.back(); g.r[q.dst] = rdk(g, q.ops[c], 0); g.pc++; break; }   // pointers stay concrete
      for (unsigned k = 0; k < q.nd; k++) f.r[q.dst + k] = selectV(rdk(f, q.ops[0], q.extra ? k : 0), rdk(f, q.ops[1], k), rdk(f, q.ops[2], k), q.leaves[k].w, q.leaves[k].fp); f.pc++; break; }
    case Instruction::Trunc: { for (unsigned k = 0; k < q.nd; k++) { Val a = rdk(f, q.ops[0], k); f.r[q.dst + k] = a.e ? fromE(mkExtract(toE(a, q.w2), 0, q.w)) : CV_(a.v & maskw(q.w)); } f.pc++; break; }
    case Instruction::ZExt: { if (q.I->getType()->isIntegerTy() && q.nd > 1) { f.r[q.dst] = rd(f, q.ops[0]); if (f.r[q.dst].e) f.r[q.dst] = fromE(mkZext(toE(f.r[q.dst], q.w2), 64)); for (unsigned k = 1; k < q.nd; k++) f.r[q.dst + k] = CV_(0); f.pc++; break; }
      for (unsigned k = 0; k < q.nd; k++) { Val a = rdk(f, q.ops[0], k); f.r[q.dst + k] = a.e ? fromE(mkZext(toE(a, q.w2), q.w)) : a; } f.pc++; break; }
    case Instruction::SExt: { for (unsigned k = 0; k < q.nd; k++) { Val a = rdk(f, q.ops[0], k); f.r[q.dst + k] = a.e ? fromE(mkSext(toE(a, q.w2), q.w)) : CV_((u64)sextw(a.v, q.w2) & maskw(q.w)); } f.pc++; break; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: { Val a = rd(f, q.ops[0]); if (a.e && q.w != q.w2) a = fromE(q.w < q.w2 ? mkExtract(toE(a, q.w2), 0, q.w) : mkZext(toE(a, q.w2), q.w)); else if (!a.e) a.v &= maskw(q.w); f.r[q.dst] = a; f.pc++; break; }
    case Instruction::BitCast: { Type *ft = q.I->getOperand(0)->getType(), *tt = q.I->getType(); auto fl = leaves(ft), tl = leaves(tt);
      if (fl.size() != tl.size()) throw Inconclusive{"bitcast shape at " + repoLoc()};
      for (unsigned k = 0; k < q.nd; k++) { Val a = rdk(f, q.ops[0], k); if (a.e) { if (tl[k].fp == 1 && a.e->sort == S_BV) { if (optReal) throw Inconclusive{"bitcast to double at " + repoLoc()}; a = fromE(mkF(F_FROMBITS, a.e)); } else if (tl[k].fp == 0 && a.e->sort == S_F64) a = fromE(mkF(F_TOBITS, a.e)); } f.r[q.dst + k] = a; } f.pc++; break; }
    case Instruction::Freeze: for (unsigned k = 0; k < q.nd; k++) f.r[q.dst + k] = rdk(f, q.ops[0], k); f.pc++; break;
    case Instruction::FPExt: { Val a = rd(f, q.ops[0]); if (q.sub == 2) a = CV_(d2b((double)b2f(conc(a)))); f.r[q.dst] = a; f.pc++; break; }
    case Instruction::FPTrunc: { Val a = rd(f, q.ops[0]); if (q.fp == 2) { if (a.e) throw Inconclusive{"symbolic double to float"}; a = CV_(f2b((float)b2d(a.v))); } f.r[q.dst] = a; f.pc++; break; }
    case Instruction::SIToFP: case Instruction::UIToFP: for (unsigned k = 0; k < q.nd; k++) {
        Val a = rdk(f, q.ops[0], k); bool si = q.op == Instruction::SIToFP;
        if (a.e && !optReal && q.fp == 1) { f.r[q.dst + k] = {0, mkF(si ? F_FROMSI : F_FROMUI, toE(a, q.w2))}; continue; }
        u64 v = conc(a); double d = si ? (double)sextw(v, q.w2) : (double)v; f.r[q.dst + k] = CV_(q.fp == 2 ? f2b(si ? (float)sextw(v, q.w2) : (float)v) : d2b(d)); } f.pc++; break;
    case Instruction::FPToSI: case Instruction::FPToUI: {
      Val a = rd(f, q.ops[0]); bool si = q.op == Instruction::FPToSI;
      if (!a.e) { double d = q.sub == 2 ? b2f(a.v) : b2d(a.v); double lim = std::ldexp(1.0, si ? (int)q.w - 1 : (int)q.w); if (!(d > -lim - 1 && d < lim) || (!si && d <= -1)) { if (!S->kv.count("fpconvok")) violation("math", "float-to-integer conversion out of range (undefined)"); } f.r[q.dst] = CV_((si ? (u64)(int64_t)d : (u64)d) & maskw(q.w)); f.pc++; break; }
      if (!optReal) { E x = toF(a); double lim = std::ldexp(1.0, si ? (int)q.w - 1 : (int)q.w); E lo = mkF(F_FROMBITS, mkConst(d2b(si ? -lim : 0.0), 64)), hi = mkF(F_FROMBITS, mkConst(d2b(lim), 64)); if (!decide(mkBin(O_AND, mkF(F_LE, lo, x), mkF(F_LT, x, hi)))) violation("math", "float-to-integer conversion out of range (undefined)"); f.r[q.dst] = {0, mkF(si ? F_TOSI : F_TOUI, x, 0, 0, 0, q.w)}; f.pc++; break; }
      E x = toR(a);
      f.r[q.dst] = CV_((u64)(int64_t)realTrunc(x) & maskw(q.w));
      f.pc++; break; }
    case Instruction::GetElementPtr: {
      Val b = rd(f, q.ops[0]); u64 c = q.extra; E se = nullptr;
      for (size_t i = 1; i < q.ops.size(); i++) { Val ix = rd(f, q.ops[i]); u64 sc = q.cs[2 * (i - 1)]; unsigned w = q.cs[2 * (i - 1) + 1]; if (!ix.e) c += (u64)sextw(ix.v, w) * sc; else { E e = mkSext(toE(ix, w), 64); e = mkBin(O_MUL, e, mkConst(sc, 64)); if (sc && !(sc & (sc - 1)) && sc > 1) e = mkBin(O_SHL, mkSext(toE(ix, w), 64), mkConst(__builtin_ctzll(sc), 64)); se = se ? mkBin(O_ADD, se, e) : e; } }
      if (!b.e && !se) { f.r[q.dst] = CV_(b.v + c); } else { E e = toE(b, 64); e = mkBin(O_ADD, e, mkConst(c, 64)); if (se) e = e->op == O_CONST ? mkBin(O_ADD, se, e) : mkBin(O_ADD, e, se); f.r[q.dst] = fromE(e); }
      f.pc++; break; }
    case Instruction::Load: {
      Val a = rd(f, q.ops[0]);
      if (q.nd == 1) { Val v = loadMem(a, q.leaves[0].w, q.leaves[0].fp); f.r[q.dst] = v; f.pc++; break; }
      for (unsigned k = 0; k < q.nd; k++) { Val p = a.e ? fromE(mkBin(O_ADD, toE(a, 64), mkConst(q.leaves[k].off, 64))) : CV_(a.v + q.leaves[k].off); Val v = loadMem(p, q.leaves[k].w, q.leaves[k].fp); S->st.back().r[q.dst + k] = v; }
      S->st.back().pc++; break; }
    case Instruction::Store: {
      Val a = rd(f, q.ops[1]);
      if (a.e && a.e->op != O_CONST) { u64 ad; if (a.e->op == O_ITE || true) { // resolve first (may fork), then write
          Ref r = resolve(a, q.leaves.size() == 1 ? (q.leaves[0].w + 7) / 8 : 1, "write"); if (r.offE) r.off = concretize(r.offE); ad = addrOf(r.id) + r.off; } a = CV_(ad); }
      for (unsigned k = 0; k < q.leaves.size(); k++) storeMem(CV_(a.v + q.leaves[k].off), rdk(f, q.ops[0], k), q.leaves[k].w);
      f.pc++; break; }
    case Instruction::Alloca: { u64 n = conc(rd(f, q.ops[0])); u64 p = allocObj(n * q.extra, K_STACK, false); f.allocas.push_back(p >> 32); f.r[q.dst] = CV_(p); f.pc++; break; }
    case Instruction::Br: if (q.ops.empty()) jump(f, q.tgt[0]); else { bool c = condTrue(rd(f, q.ops[0])); jump(S->st.back(), q.tgt[c ? 0 : 1]); } break;
    case Instruction::Switch: { Val v = rd(f, q.ops[0]); int t = 0; if (!v.e) { for (size_t i = 0; i < q.cs.size(); i++) if (q.cs[i] == v.v) { t = i + 1; break; } } else { E e = toE(v, q.w2); for (size_t i = 0; i < q.cs.size(); i++) if (decide(mkBin(O_EQ, e, mkConst(q.cs[i], q.w2)))) { t = i + 1; break; } } jump(S->st.back(), q.tgt[t]); break; }
    case Instruction::Ret: {
      static std::vector<Val> rv; rv.clear(); for (unsigned k = 0; k < q.nd; k++) rv.push_back(rdk(f, q.ops[0], k));
      auto it = S->kv.empty() ? S->kv.end() : S->kv.find("dtorframe" + std::to_string(S->st.size())); bool dt = it != S->kv.end(); if (dt) S->kv.erase(it);
      popFrame(); if (S->st.empty()) throw PathEnd{"end"};
      if (dt) break;
      Frame& c = S->st.back(); finishCall(c, c.f->ins[c.pc], rv.data(), rv.size()); break; }
    case Instruction::Unreachable: violation("abort", "unreachable code reached");
    case Instruction::Resume: { u64 p = rdk(f, q.ops[0], 0).v; unwindTo(p); break; }
    case Instruction::ExtractValue: for (unsigned k = 0; k < q.nd; k++) f.r[q.dst + k] = rdk(f, q.ops[0], k); f.pc++; break;
    case Instruction::InsertValue: for (unsigned k = 0; k < q.nd; k++) f.r[q.dst + k] = rdk(f, q.ops[0], k); for (unsigned k = 0; k < q.w2; k++) f.r[q.dst + q.extra + k] = rdk(f, q.ops[1], k); f.pc++; break;
    case Instruction::ExtractElement: { u64 i = conc(rd(f, q.ops[1])); f.r[q.dst] = rdk(f, q.ops[0], i); f.pc++; break; }
    case Instruction::InsertElement: { u64 i = conc(rd(f, q.ops[2])); Val v = rd(f, q.ops[1]); for (unsigned k = 0; k < q.nd; k++) f.r[q.dst + k] = k == i ? v : rdk(f, q.ops[0], k); f.pc++; break; }
    case Instruction::ShuffleVector: { std::vector<Val> r; for (auto x : q.cs) { int m = (int)x; r.push_back(m < 0 ? CV_(0) : (unsigned)m < q.w2 ? rdk(f, q.ops[0], m) : rdk(f, q.ops[1], m - q.w2)); } for (unsigned k = 0; k < q.nd; k++) f.r[q.dst + k] = r[k]; f.pc++; break; }
    case Instruction::Fence: f.pc++; break;
    case Instruction::AtomicRMW: { Val p = rd(f, q.ops[0]), v = rd(f, q.ops[1]); Val old = loadMem(p, q.w, 0); E a = toE(old, q.w), b = toE(v, q.w), r; switch (q.sub) { case AtomicRMWInst::Xchg: r = b; break; case AtomicRMWInst::Add: r = mkBin(O_ADD, a, b); break; case AtomicRMWInst::Sub: r = mkBin(O_SUB, a, b); break; case AtomicRMWInst::And: r = mkBin(O_AND, a, b); break; case AtomicRMWInst::Or: r = mkBin(O_OR, a, b); break; default: throw Inconclusive{"atomicrmw"}; } storeMem(p, fromE(r), q.w); f.r[q.dst] = old; f.pc++; break; }
    case Instruction::AtomicCmpXchg: { Val p = rd(f, q.ops[0]); Val old = loadMem(p, q.w2, 0); Val eq = icmpV(CmpInst::ICMP_EQ, old, rd(f, q.ops[1]), q.w2); bool e = condTrue(eq); if (e) storeMem(p, rd(f, q.ops[2]), q.w2); S->st.back().r[q.dst] = old; S->st.back().r[q.dst + 1] = CV_(e); S->st.back().pc++; break; }
    case Instruction::Call: case Instruction::Invoke: {
      static std::vector<Val> args; args.clear(); size_t na = q.argLeaves.size(); for (size_t i = 0; i < na; i++) for (int k = 0; k < q.argLeaves[i]; k++) args.push_back(rdk(f, q.ops[i], k));
      if (q.sub == 1 && !q.callee) { f.pc++; break; }
      if (q.iid) { if (intrinsic(f, q, args)) { Frame& g = S->st.back(); if (q.op == Instruction::Invoke) jump(g, q.tgt[0]); else g.pc++; } break; }
      PFunc* cf = q.callee; Builtin bi = (Builtin)q.bi;
      if (!cf) { u64 a = conc(rd(f, q.ops[na])); u32 id = a >> 32; auto it = g_funcById.find(id); if (it == g_funcById.end() || a != addrOf(id)) violation("memory", "call through an invalid function pointer"); cf = it->second; if (cf->F->isDeclaration()) { auto b = g_bi.find(cf->name); if (b != g_bi.end()) bi = b->second; } }
      if (bi) { std::vector<Val> ac(args); Val ret = CV_(0); if (bi(q, ac, ret)) finishCall(S->st.back(), q, &ret, 1); break; }
      if (cf->F->isDeclaration()) throw Inconclusive{"call of unmodelled function " + demangle(cf->name) + " at " + repoLoc()};
      std::vector<Val> ac(args);
      { size_t k = 0; for (size_t i = 0; i < na; i++) { if (q.byval[i]) { u64 src = conc(ac[k]); u64 p = allocObj(q.byval[i], K_STACK, false); S->st.back().allocas.push_back(p >> 32); copyBytes(p, src, q.byval[i], false); ac[k] = CV_(p); } k += q.argLeaves[i]; } }
      pushCall(cf, ac); break; }
    default: throw Inconclusive{std::string("instruction ") + q.I->getOpcodeName() + " at " + repoLoc()};
  }
}

static void finalizePath(const std::string& why) {
  st_paths++; st_ends[why]++; __sync_fetch_and_add(&SH->paths, 1);
  if (why == "end" || why == "exit") {
    // reservoir of concrete tests for native validation
    bool take = g_tests.size() < optTests || (rnd64() % st_paths) < optTests;
    if (take) {
      bool realObs = false; std::vector<u64> m; RealModel rm; 
      if (fullModel(nullptr, m, rm) == SAT) {
        std::string t = inputsStr(m, rm); t += "--\n";
        for (auto& o : S->obs) { if (o.e && (o.e->hasReal)) { realObs = true; continue; } u64 v = o.e ? evalExpr(o.e, m) : o.v; if (o.e && o.e->uninit) { auto m2 = m; if (m2.size() < g_vars.size()) m2.resize(g_vars.size()); for (u32 x = 0; x < g_vars.size(); x++) if (g_vars[x].uninit) m2[x] = 0; v = evalExpr(o.e, m2); for (u32 x = 0; x < g_vars.size(); x++) if (g_vars[x].uninit) m2[x] = ~0ull; if (evalExpr(o.e, m2) != v) continue; } char b[64]; if (o.kind == 1 || (o.e && o.e->sort == S_F64)) snprintf(b, 64, " d %016llx\n", (unsigned long long)v); else snprintf(b, 64, " i %llu\n", (unsigned long long)v); t += o.tag + b; }
        (void)realObs;
        if (g_tests.size() < optTests) g_tests.push_back(t); else g_tests[rnd64() % optTests] = t;
      }
    }
  }
}
static bool g_child = false; static std::vector<pid_t> g_kids;
static bool maybeSplit() {
  if (g_work.size() < 2 || SH->tokens <= 0) return false;
  int t = __sync_fetch_and_sub(&SH->tokens, 1); if (t <= 0) { __sync_fetch_and_add(&SH->tokens, 1); return false; }
  fflush(stdout); fflush(stderr);
  pid_t p = fork(); if (p < 0) { __sync_fetch_and_add(&SH->tokens, 1); return false; }
  std::vector<State*> mine, other; for (size_t i = 0; i < g_work.size(); i++) (i % 2 ? mine : other).push_back(g_work[i]);
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    g_child = true; g_kids.clear(); st_paths = st_forks = st_steps = st_checks = st_assumeDead = st_checkQueries = st_polyZero = 0; st_ends.clear(); st_covers.clear(); st_checkMsgs.clear(); g_viol.clear(); g_tests.clear(); g_ss = SolverStats(); rngs ^= (u64)getpid() * 2654435761u; rnd64(); g_incon.clear();
    g_work = mine; S = nullptr; return true;
  }
  g_kids.push_back(p); for (auto s : mine) delete s; g_work = other; return false;
}
static void writeResults(double wall) {
  std::string fn = optOut + "/res." + std::to_string(getpid()) + ".json"; FILE* o = fopen(fn.c_str(), "w");
  if (!o) { perror("res"); return; }
  fprintf(o, "{\"paths\":%llu,\"forks\":%llu,\"steps\":%llu,\"checks\":%llu,\"check_queries\":%llu,\"poly_zero\":%llu,\"assume_dead\":%llu,\"queries\":%llu,\"cache_hits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall\":%.3f,\n", (unsigned long long)st_paths, (unsigned long long)st_forks, (unsigned long long)st_steps, (unsigned long long)st_checks, (unsigned long long)st_checkQueries, (unsigned long long)st_polyZero, (unsigned long long)st_assumeDead, (unsigned long long)g_ss.queries, (unsigned long long)g_ss.cacheHits, (unsigned long long)g_ss.sat, (unsigned long long)g_ss.unsat, g_ss.secs, g_ss.maxq, wall);
  auto mp = [&](const char* n, std::map<std::string, u64>& m) { fprintf(o, "\"%s\":{", n); bool c = false; for (auto& x : m) { fprintf(o, "%s\"%s\":%llu", c ? "," : "", jesc(x.first).c_str(), (unsigned long long)x.second); c = true; } fprintf(o, "},\n"); };
  mp("ends", st_ends); mp("covers", st_covers); mp("check_msgs", st_checkMsgs);
  fprintf(o, "\"inconclusive\":["); bool c = false; for (auto& s : g_incon) { fprintf(o, "%s\"%s\"", c ? "," : "", jesc(s).c_str()); c = true; }
  fprintf(o, "],\n\"violations\":["); c = false;
  for (auto& v : g_viol) { fprintf(o, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"loc\":\"%s\",\"stack\":\"%s\",\"inputs\":\"%s\"}", c ? ",\n" : "", jesc(v.kind).c_str(), jesc(v.msg).c_str(), jesc(v.loc).c_str(), jesc(v.stack).c_str(), jesc(v.inputs).c_str()); c = true; }
  fprintf(o, "],\n\"tests\":["); c = false; for (auto& t : g_tests) { fprintf(o, "%s\"%s\"", c ? ",\n" : "", jesc(t).c_str()); c = true; }
  // executed functions and lines of the repository
  std::map<std::string, std::set<unsigned>> lines; std::set<std::string> fns;
  for (PFunc* p : g_allf) if (p->decoded) for (auto& q : p->ins) if (q.hit && q.I) { const DILocation* L = q.I->getDebugLoc(); while (L) { std::string fl = L->getFilename().str(); if (!fl.empty() && fl[0] != '/') fl = L->getDirectory().str() + "/" + fl; if (fl.find(optRepo) == 0) { if (L->getLine()) lines[fl].insert(L->getLine()); if (auto* sp = L->getScope()->getSubprogram()) { std::string nm = sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str(); fns.insert(fl.substr(fl.rfind('/') + 1) + ":" + demangle(nm)); } } L = L->getInlinedAt(); } }
  fprintf(o, "],\n\"functions\":["); c = false; for (auto& s : fns) { fprintf(o, "%s\"%s\"", c ? "," : "", jesc(s).c_str()); c = true; }
  fprintf(o, "],\n\"lines\":{"); c = false; for (auto& l : lines) { fprintf(o, "%s\"%s\":[", c ? "," : "", jesc(l.first).c_str()); bool d = false; for (unsigned n : l.second) { fprintf(o, "%s%u", d ? "," : "", n); d = true; } fprintf(o, "]"); c = true; }
  fprintf(o, "}}\n"); fclose(o);
}

int main(int argc, char** argv) {
  T0 = std::chrono::steady_clock::now(); std::string file;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") optEntry = nx(); else if (a == "--real") optReal = true; else if (a == "--ieee") optReal = false; else if (a == "--out") optOut = nx(); else if (a == "--procs") optProcs = stoi(nx()); else if (a == "--time") optTime = stod(nx()); else if (a == "--max-steps") optMaxSteps = stoull(nx()); else if (a == "--max-viol") optMaxViol = stoi(nx()); else if (a == "--tests") optTests = stoi(nx()); else if (a == "--qtimeout") optQTimeout = stoi(nx()); else if (a == "--trace") optTrace = true; else if (a == "--repo") optRepo = nx(); else if (a == "--inputs") { FILE* f = fopen(nx().c_str(), "r"); char l[4096], k, v[64]; while (f && fgets(l, sizeof l, f)) if (sscanf(l, "%c %63s", &k, v) == 2 && (k == 'i' || k == 'd')) optInputs.push_back(strtoull(v, 0, k == 'd' ? 16 : 10)); }
    else if (a == "--param") { std::string p = nx(); auto e = p.find('='); optParam[p.substr(0, e)] = stol(p.substr(e + 1)); } else file = a; }
  SH = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); SH->tokens = optProcs - 1;
  LLVMContext ctx; SMDiagnostic err; auto m = parseIRFile(file, err, ctx); if (!m) { err.print("llsym", errs()); return 3; } M = m.get(); DL = &M->getDataLayout();
  if (auto s = getenv("VERIF_SEED")) { rngs ^= strtoull(s, 0, 10) * 0x9E3779B97F4A7C15ull; rnd64(); }
  solverInit(optQTimeout); setupBuiltins(); g_init = new State; S = g_init;
  Function* ef = M->getFunction(optEntry); if (!ef || ef->isDeclaration()) { fprintf(stderr, "no entry %s\n", optEntry.c_str()); return 3; }
  try { initGlobals(); } catch (Inconclusive& e) { fprintf(stderr, "init: %s\n", e.why.c_str()); return 3; }
  // a driver that runs the global constructors and then the entry
  std::vector<PFunc*> seq; if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) { std::vector<std::pair<u64, Function*>> v; for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op); v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), cast<Function>(cs->getOperand(1)->stripPointerCasts())}); } std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& x : v) seq.push_back(pf(x.second)); }
  bool ok = true;
  try {
    for (auto* p : seq) { pushCall(p, {}); try { while (true) { step(); } } catch (PathEnd& e) { if (e.why != "end") { fprintf(stderr, "global constructor %s: %s\n", p->name.c_str(), e.why.c_str()); ok = false; break; } } }
    if (ok) { S->heapLive = 0; S->steps = 0; pushCall(pf(ef), {}); }
  } catch (Inconclusive& e) { fprintf(stderr, "llsym: %s\n", e.why.c_str()); g_incon.insert(e.why); ok = false; }
  if (!g_work.empty()) { g_incon.insert("global constructors forked"); }
  bool timedOut = false; u64 lastSplit = 0;
  if (ok) {
    g_work.push_back(S); S = nullptr;
    while (!g_work.empty() || S) {
      if (!S) { S = g_work.back(); g_work.pop_back(); }
      if (SH->stop) break;
      if (now() > optTime) { timedOut = true; break; }
      try {
        for (int k = 0; k < 4000; k++) {
          step();
        }
        if (S->steps > optMaxSteps) { recordViolation("hang", "no termination within " + std::to_string(optMaxSteps) + " instructions", nullptr); throw PathEnd{"steplimit"}; }
      } catch (PathEnd& e) { finalizePath(e.why); delete S; S = nullptr; }
      catch (Inconclusive& e) { g_incon.insert(e.why); if (optTrace) fprintf(stderr, "INCONCLUSIVE %s\n%s", e.why.c_str(), stackStr().c_str()); st_ends["inconclusive"]++; st_paths++; delete S; S = nullptr; if (st_ends["inconclusive"] > 20) { SH->stop = 1; } }
      catch (std::string& e) { g_incon.insert(e + " at " + repoLoc()); st_ends["inconclusive"]++; st_paths++; delete S; S = nullptr; }
      if (optProcs > 1 && st_steps - lastSplit > 20000) { lastSplit = st_steps; if (maybeSplit()) { lastSplit = 0; } }
      struct rusage ru; static u64 mc = 0; if ((++mc & 63) == 0) { getrusage(RUSAGE_SELF, &ru); if (ru.ru_maxrss > 6000000) { g_incon.insert("memory limit"); break; } }
    }
  }
  if (timedOut) g_incon.insert("time limit of " + std::to_string((int)optTime) + " s reached");
  writeResults(now());
  __sync_fetch_and_add(&SH->tokens, 1);
  bool kidsOk = true; for (pid_t p : g_kids) { int st; waitpid(p, &st, 0); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) kidsOk = false; }
  if (!kidsOk) { FILE* o = fopen((optOut + "/res." + std::to_string(getpid()) + ".kid.json").c_str(), "w"); fprintf(o, "{\"inconclusive\":[\"a worker process died\"]}"); fclose(o); }
  fflush(stdout); _exit(0);
}
