// Native counterpart of the harness interface: feeds a recorded assignment to the same harness, compiled with the
// ordinary compiler and the real C++ library, and prints what it observed.
//   replay <entry> <inputs-file> [param=value ...]
// exit 0: ran to the end; 3: an fsx_check failed; 77: an assumption did not hold (assignment outside the harness domain);
// 78: ran out of recorded inputs; other: crashed / sanitizer report.
#include "../fsx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <vector>
#include <string>
#include <dlfcn.h>
#include <unistd.h>
#include <exception>
struct In { char k; uint64_t v; };
static std::vector<In> ins; static size_t pos; static std::map<std::string, long> params; static bool padzero;
static uint64_t next(const char* name) {
  if (pos >= ins.size()) { if (padzero) return 0; printf("NOINPUT %s\n", name); fflush(stdout); _exit(78); }
  return ins[pos++].v; }
extern "C" {
int64_t fsx_int(const char* name, int bits, int64_t lo, int64_t hi) noexcept {
  uint64_t v = next(name); int64_t r = (int64_t)v; if (bits < 64) { r = (int64_t)(v << (64 - bits)) >> (64 - bits); if (r < lo || r > hi) r = (int64_t)(v & ((1ULL << bits) - 1)); }
  if (r < lo || r > hi) { printf("ASSUME %s range\n", name); fflush(stdout); _exit(77); }
  return r; }
double fsx_double(const char* name, double, double) noexcept { uint64_t v = next(name); double d; memcpy(&d, &v, 8); return d; }
void fsx_assume(int c) { if (!c) { printf("ASSUME\n"); fflush(stdout); _exit(77); } }
void fsx_check(int c, const char* m) { if (!c) { printf("FAIL %s\n", m); fflush(stdout); _exit(3); } }
void fsx_check_near(double a, double b, double tol, const char* m) {
  if (!(std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)))) { printf("FAIL %s (%.17g vs %.17g, tol %g)\n", m, a, b, tol); fflush(stdout); _exit(3); } }
void fsx_cover(const char*) {}
void fsx_tidy(uint64_t) {}
uint64_t fsx_concretize(uint64_t x) { return x; }
void fsx_obs(const char* t, uint64_t v) { printf("%s i %llu\n", t, (unsigned long long)v); }
void fsx_obs_d(const char* t, double d) { uint64_t v; memcpy(&v, &d, 8); printf("%s d %016llx\n", t, (unsigned long long)v); }
int fsx_symbolic() { return 0; }
static bool realm;
int fsx_realmode() { return realm; }
long fsx_param(const char* n, long d) { auto i = params.find(n); return i == params.end() ? d : i->second; }
static uint64_t live;
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define FSX_ASAN 1
#endif
#endif
#ifdef FSX_ASAN
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
static void mh(const volatile void*, size_t) { live++; }
static void fh(const volatile void* p) { if (p) live--; }
#endif
uint64_t fsx_heap_live() { return live; }
void fsx_end() { printf("END\n"); fflush(stdout); _exit(0); }
void fsx_fail(const char* m) { printf("FAIL %s\n", m); fflush(stdout); _exit(3); }
int fsx_isfinite(double d) { return std::isfinite(d); }
void fsx_div0_infeasible() {}
void fsx_trace(const char*, uint64_t) {}
}
int main(int argc, char** argv) {
  if (argc < 3) return 2;
  setvbuf(stdout, nullptr, _IOFBF, 1 << 20);
  FILE* f = fopen(argv[2], "r"); if (!f) return 2;
  char line[4096];
  while (fgets(line, sizeof line, f)) { if (!strncmp(line, "--", 2)) break;
    char k; char v[64]; if (sscanf(line, "%c %63s", &k, v) == 2 && (k == 'i' || k == 'd')) ins.push_back({k, strtoull(v, nullptr, k == 'd' ? 16 : 10)}); }
  fclose(f);
  for (int i = 3; i < argc; i++) { if (!strcmp(argv[i], "--real")) { realm = true; continue; } char* e = strchr(argv[i], '='); if (e) params[std::string(argv[i], e - argv[i])] = atol(e + 1); }
  std::set_terminate([] { printf("TERMINATE\n"); fflush(stdout); _exit(4); });
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!fn) { printf("NOENTRY\n"); return 2; }
#ifdef FSX_ASAN
  __sanitizer_install_malloc_and_free_hooks(mh, fh);
#endif
  fn(); printf("END\n"); fflush(stdout); _exit(0);
}
