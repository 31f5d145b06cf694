// Harness interface. Under llsym these are engine primitives; natively they are supplied by native/fsx_native.cpp.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cmath>
#include <string>
extern "C" {
int64_t fsx_int(const char* name, int bits, int64_t lo, int64_t hi) noexcept;   // symbolic integer in [lo,hi]
double fsx_double(const char* name, double lo, double hi) noexcept;             // symbolic double in [lo,hi]
void fsx_assume(int c);
void fsx_check(int c, const char* msg);
void fsx_check_near(double a, double b, double tol, const char* msg);  // a == b up to tol (exact identity first in real mode)
void fsx_cover(const char* what);                                      // reachability witness
uint64_t fsx_concretize(uint64_t x);                                   // forks on every feasible value
void fsx_obs(const char* tag, uint64_t v);                             // observation compared with the native run
void fsx_obs_d(const char* tag, double v);
int fsx_symbolic();
int fsx_realmode();
long fsx_param(const char* name, long dflt);
uint64_t fsx_heap_live();                                              // live heap blocks
[[noreturn]] void fsx_end();
[[noreturn]] void fsx_fail(const char* msg);
int fsx_isfinite(double);
void fsx_div0_infeasible();                                            // paths that divide by zero are outside the claim
void fsx_tidy(uint64_t size);                                           // keeps real terms larger than this in normal form
void fsx_trace(const char*, uint64_t);
}
static inline unsigned fsx_choose(unsigned n, const char* name) { return (unsigned)fsx_concretize((uint64_t)fsx_int(name, 32, 0, (int64_t)n - 1)); }
static inline unsigned char fsx_byte(const char* name) { return (unsigned char)fsx_int(name, 8, 0, 255); }
static inline unsigned char fsx_byte_in(const char* name, int lo, int hi) { return (unsigned char)fsx_int(name, 8, lo, hi); }
static inline bool fsx_bool(const char* name) { return fsx_int(name, 8, 0, 1) != 0; }
// symbolic choice among the characters of an alphabet; stays symbolic
static inline char fsx_char(const char* name, const char* alphabet) {
  unsigned char c = fsx_byte(name); int ok = 0; for (const char* p = alphabet; *p; p++) ok |= (c == (unsigned char)*p); fsx_assume(ok); return (char)c; }
static inline std::string fsx_string(const char* name, size_t n, const char* alphabet) { std::string s(n, '?'); for (size_t i = 0; i < n; i++) s[i] = fsx_char(name, alphabet); return s; }
static inline std::string fsx_string_any(const char* name, size_t n) { std::string s(n, '?'); for (size_t i = 0; i < n; i++) s[i] = (char)fsx_byte(name); return s; }
static inline void fsx_obs_s(const char* tag, const std::string& s) { fsx_obs(tag, s.size()); for (size_t i = 0; i < s.size(); i++) fsx_obs(tag, (unsigned char)s[i]); }
#define FSX_ENTRY extern "C" __attribute__((used, noinline)) void
