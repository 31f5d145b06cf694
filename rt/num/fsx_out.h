// Files a harness can read back: fopen/fprintf/fclose/fputs/snprintf/stat/system of the code under test become calls that keep
// every file in memory, text as written, numbers as (symbolic) values. Include before the code under test.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <regex>
#include <iostream>
#include <fstream>
#include <sstream>
#include <functional>
#include <sys/stat.h>
struct FsxTok { std::string s; double d = 0; bool num = false; };  // a piece of text without blanks, or a real number
struct FsxFile { std::string name; std::vector<FsxTok> t; std::string cur; bool open = true;
  void flush() { if (!cur.empty()) { FsxTok k; k.s = cur; t.push_back(k); cur.clear(); } }
  void text(const char* p, size_t n) { for (size_t i = 0; i < n; i++) { char c = p[i]; if (c == ' ' || c == '\n' || c == '\t' || c == '\r') flush(); else { cur += c; if (c == '>') flush(); } } }
  void real(double d) { flush(); FsxTok k; k.d = d; k.num = true; t.push_back(k); } };
static std::vector<std::unique_ptr<FsxFile>> fsx_files; static std::vector<std::string> fsx_system_calls;
struct FsxArg { int k; long long i; double d; const char* s; };
static inline FsxArg fsx_arg(double x) { return {1, 0, x, 0}; }
static inline FsxArg fsx_arg(const char* x) { return {2, 0, 0, x}; }
static inline FsxArg fsx_arg(char* x) { return {2, 0, 0, x}; }
template <class T> static inline FsxArg fsx_arg(T x) { return {0, (long long)x, 0, 0}; }
static inline std::string fsx_dec(long long x, int width, bool zero) { bool neg = x < 0; unsigned long long u = neg ? -(unsigned long long)x : (unsigned long long)x; std::string r; do { r.insert(r.begin(), (char)('0' + u % 10)); u /= 10; } while (u); while ((int)r.size() + neg < width) r.insert(r.begin(), zero ? '0' : ' '); if (neg) r.insert(r.begin(), '-'); return r; }
static inline void fsx_fmt(FsxFile& f, const char* p, const FsxArg* a, size_t na) { size_t n = 0; while (*p) { const char* q = p; while (*q && *q != '%') q++; f.text(p, q - p); p = q; if (!*p) break; p++; if (*p == '%') { f.text(p, 1); p++; continue; } bool zero = false; int w = 0; while (*p == '0' || *p == '-' || *p == '+' || *p == '#') { zero |= *p == '0'; p++; } while (*p >= '0' && *p <= '9') w = 10 * w + (*p++ - '0'); if (*p == '.') { p++; while (*p >= '0' && *p <= '9') p++; } bool lng = false; while (*p == 'l' || *p == 'z' || *p == 'h' || *p == 'j') { lng = true; p++; } char c = *p++; fsx_check(n < na, "a format has its arguments"); const FsxArg& x = a[n++];
    if (c == 'd' || c == 'u' || c == 'i' || c == 'x') { fsx_check(x.k == 0, "an integer format writes an integer"); std::string r = fsx_dec(x.i, w, zero); f.text(r.data(), r.size()); }
    else if (c == 's') { fsx_check(x.k == 2, "a string format writes a string"); f.text(x.s, strlen(x.s)); }
    else if (c == 'e' || c == 'f' || c == 'g') { fsx_check(x.k == 1, "a real format writes a real"); f.real(x.d); } else fsx_fail("format"); (void)lng; } fsx_check(n == na, "a format has its arguments"); }
template <class... A> static inline int fsx_fprintf(FILE* o, const char* p, A... x) { if (o == stderr || o == stdout) return 0; FsxArg a[sizeof...(A) + 1] = {fsx_arg(x)...}; FsxFile& f = *fsx_files[(size_t)o - 1]; fsx_check(f.open, "files are written while open"); fsx_fmt(f, p, a, sizeof...(A)); return 1; }
template <class... A> static inline int fsx_snprintf(char* b, size_t n, const char* p, A... x) { FsxArg a[sizeof...(A) + 1] = {fsx_arg(x)...}; FsxFile f; fsx_fmt(f, p, a, sizeof...(A)); f.flush(); std::string r; for (FsxTok& k : f.t) r += k.num ? std::string("@") : k.s; fsx_check(r.size() < n, "a file name fits"); size_t i = 0; for (; i < r.size() && i + 1 < n; i++) b[i] = r[i]; b[i] = 0; return (int)r.size(); }
static inline FILE* fsx_fopen(const char* n, const char* m) { fsx_check(m[0] == 'w', "output opens files to write"); fsx_files.emplace_back(new FsxFile); fsx_files.back()->name = n; return (FILE*)fsx_files.size(); }
static inline int fsx_fclose(FILE* o) { FsxFile& f = *fsx_files[(size_t)o - 1]; fsx_check(f.open, "files are closed once"); f.open = false; f.flush(); return 0; }
static inline int fsx_stat(const char*, struct stat*) { return -1; }
static inline int fsx_system(const char* c) { fsx_system_calls.push_back(c); return 0; }
// the newest file of a name
static inline FsxFile* fsx_find(const std::string& n) { for (size_t i = fsx_files.size(); i-- > 0;) if (fsx_files[i]->name == n) return fsx_files[i].get(); return nullptr; }
// position after the data array of a name (npos-like: t.size() if absent)
static inline size_t fsx_after(FsxFile& f, const std::string& w, size_t from = 0) { for (size_t i = from; i < f.t.size(); i++) if (!f.t[i].num && f.t[i].s.find(w) != std::string::npos) { while (i < f.t.size() && (f.t[i].num || f.t[i].s.back() != '>')) i++; return i + 1; } return f.t.size(); }
static inline long long fsx_num(const FsxTok& k) { long long v = 0; fsx_check(!k.num && !k.s.empty(), "an integer is written"); for (char c : k.s) { fsx_check(c >= '0' && c <= '9', "an integer is written"); v = 10 * v + (c - '0'); } return v; }
#define fopen fsx_fopen
#define fprintf fsx_fprintf
#define fclose fsx_fclose
#define snprintf fsx_snprintf
#define stat(a, b) fsx_stat(a, b)
#define system(c) fsx_system(c)
