// Stand-in for MATAR / Kokkos (not part of this repository): the array types and loop macros Fierro uses, with every
// index checked. Host and device views share one buffer, as in a host-only Kokkos build. Parallel loops visit their
// indices in the order fsx_loop_order selects (0 ascending, 1 descending), so order-dependence becomes visible.
#pragma once
#include "fsx.h"
#include <cstddef>
#include <cstdio>
#include <cassert>
#include <cmath>
#include <math.h>
#include <cstdlib>
#include <string>
#include <limits>
#include <array>
#include <memory>
#include <vector>
#include <type_traits>
#include <initializer_list>
#include <algorithm>
#include <iostream>
#include <map>
#include <chrono>
#define KOKKOS_FUNCTION
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FORCEINLINE_FUNCTION inline
#define KOKKOS_LAMBDA [&]
#define KOKKOS_CLASS_LAMBDA [&]
#define KOKKOS_ENABLE_CXX17 1
inline int fsx_loop_order = 0;
typedef double real_t; typedef unsigned int u_int;
namespace Kokkos {
inline void fence() {} template <class S> inline void fence(const S&) {}
template <class... A> inline void initialize(A&&...) {} inline void finalize() {}
[[noreturn]] inline void abort(const char* m) { fsx_fail(m); }
inline bool isfinite(double x) { return fsx_isfinite(x); }
template <class T, class U> inline void atomic_add(T* p, const U v) { *p += v; }
template <class T> inline T atomic_fetch_add(T* p, const T v) { T o = *p; *p += v; return o; }
template <class T> inline void atomic_increment(T* p) { ++*p; }
template <class T> inline T max(T a, T b) { return a < b ? b : a; }
template <class T> inline T min(T a, T b) { return b < a ? b : a; }
enum class Iterate { Default, Left, Right };
template <unsigned N, Iterate A = Iterate::Default, Iterate B = Iterate::Default> struct Rank { static constexpr unsigned rank = N; };
struct ExecSpaceTag {}; typedef ExecSpaceTag DefaultExecutionSpace; typedef ExecSpaceTag DefaultHostExecutionSpace; typedef ExecSpaceTag Serial; struct HostSpace {}; typedef HostSpace LayoutRight; typedef HostSpace LayoutLeft;
struct AUTO_t {}; inline AUTO_t AUTO() { return {}; }
template <class... P> struct RangePolicy { long b, e; RangePolicy(long x, long y) : b(x), e(y) {} };
template <class... P> struct MDRangePolicy;
template <unsigned N, Iterate A, Iterate B> struct MDRangePolicy<Rank<N, A, B>> { long b[N], e[N]; 
  template <class X, class Y> MDRangePolicy(std::initializer_list<X> x, std::initializer_list<Y> y) { unsigned i = 0; for (auto v : x) b[i++] = (long)v; i = 0; for (auto v : y) e[i++] = (long)v; } };
struct Team { long r; long league_rank() const { return r; } }; struct TTR { long b, e; };
template <class... P> struct TeamPolicy { typedef Team member_type; long n; template <class A> TeamPolicy(long x, A) : n(x) {} };
template <class I> inline TTR TeamThreadRange(const Team&, I n) { return TTR{0, (long)n}; }
template <class I, class J> inline TTR TeamThreadRange(const Team&, I a, J b) { return TTR{(long)a, (long)b}; }
template <class F> inline void fsx_each(long b, long e, F f) { if (fsx_loop_order == 0) for (long i = b; i < e; i++) f(i); else for (long i = e - 1; i >= b; i--) f(i); }
template <class F> inline void parallel_for(long n, F f) { fsx_each(0, n, [&](long i) { f((int)i); }); }
template <class... P, class F> inline void parallel_for(const RangePolicy<P...>& p, F f) { fsx_each(p.b, p.e, [&](long i) { f((int)i); }); }
template <class F> inline void parallel_for(const TTR& p, F f) { fsx_each(p.b, p.e, [&](long i) { f((int)i); }); }
template <class... P, class F> inline void parallel_for(const TeamPolicy<P...>& p, F f) { fsx_each(0, p.n, [&](long i) { f(Team{i}); }); }
template <unsigned N, Iterate A, Iterate B, class F> inline void parallel_for(const MDRangePolicy<Rank<N, A, B>>& p, F f) {
  if constexpr (N == 2) fsx_each(p.b[0], p.e[0], [&](long i) { fsx_each(p.b[1], p.e[1], [&](long j) { f((int)i, (int)j); }); });
  else if constexpr (N == 3) fsx_each(p.b[0], p.e[0], [&](long i) { fsx_each(p.b[1], p.e[1], [&](long j) { fsx_each(p.b[2], p.e[2], [&](long k) { f((int)i, (int)j, (int)k); }); }); });
  else fsx_each(p.b[0], p.e[0], [&](long i) { fsx_each(p.b[1], p.e[1], [&](long j) { fsx_each(p.b[2], p.e[2], [&](long k) { fsx_each(p.b[3], p.e[3], [&](long l) { f((int)i, (int)j, (int)k, (int)l); }); }); }); }); }
template <class P, class F> inline void parallel_for(const char*, const P& p, F f) { parallel_for(p, f); }
template <class P, class F> inline void parallel_for(const std::string&, const P& p, F f) { parallel_for(p, f); }
template <class T> struct Sum { typedef T value_type; T& r; Sum(T& x) : r(x) {} T init() const { return T(); } void fin(const T& v) const { r = v; } };
template <class T> struct Max { typedef T value_type; T& r; Max(T& x) : r(x) {} T init() const { return std::numeric_limits<T>::lowest(); } void fin(const T& v) const { r = v; } };
template <class T> struct Min { typedef T value_type; T& r; Min(T& x) : r(x) {} T init() const { return std::numeric_limits<T>::max(); } void fin(const T& v) const { r = v; } };
template <class T, class = void> struct is_red : std::false_type {}; template <class T> struct is_red<T, std::void_t<typename T::value_type>> : std::is_class<T> {};
template <class R> inline auto fsx_red(R& r) { if constexpr (is_red<std::remove_const_t<R>>::value) return r; else return Sum<R>(r); }
template <class P, class F, class R> inline void parallel_reduce(const P& p, F f, R&& res) {
  auto r = fsx_red(res); auto acc = r.init(); 
  if constexpr (std::is_integral_v<P>) parallel_for((long)p, [&](auto i) { f(i, acc); });
  else parallel_for(p, [&](auto... i) { f(i..., acc); });
  r.fin(acc); }
template <class P, class F, class R> inline void parallel_reduce(const char*, const P& p, F f, R&& res) { parallel_reduce(p, f, res); }
}
#define FSX_GM(_1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, NAME, ...) NAME
#define FSX_F1(i, x0, x1, fcn) Kokkos::parallel_for(Kokkos::RangePolicy<>((x0), (x1)), [&](const int i) { fcn })
#define FSX_F2(i, x0, x1, j, y0, y1, fcn) Kokkos::parallel_for(Kokkos::MDRangePolicy<Kokkos::Rank<2>>({(long)(x0), (long)(y0)}, {(long)(x1), (long)(y1)}), [&](const int i, const int j) { fcn })
#define FSX_F3(i, x0, x1, j, y0, y1, k, z0, z1, fcn) Kokkos::parallel_for(Kokkos::MDRangePolicy<Kokkos::Rank<3>>({(long)(x0), (long)(y0), (long)(z0)}, {(long)(x1), (long)(y1), (long)(z1)}), [&](const int i, const int j, const int k) { fcn })
#define FOR_ALL(...) FSX_GM(__VA_ARGS__, _13, _12, _11, FSX_F3, _9, _8, FSX_F2, _6, _5, FSX_F1)(__VA_ARGS__)
#define FOR_ALL_CLASS(...) FOR_ALL(__VA_ARGS__)
#define DO_ALL(...) FOR_ALL(__VA_ARGS__)
#define FOR_LOOP(i, x0, x1, fcn) for (int i = (x0); i < (x1); i++) { fcn }
#define RUN(...) [&]() { __VA_ARGS__ }()
#define RUN_CLASS(...) [&]() { __VA_ARGS__ }()
#define FSX_R1(R, i, x0, x1, var, fcn, res) Kokkos::parallel_reduce(Kokkos::RangePolicy<>((x0), (x1)), [&](const int i, decltype(var)& var) { fcn }, R<std::remove_reference_t<decltype(res)>>(res))
#define FSX_R2(R, i, x0, x1, j, y0, y1, var, fcn, res) Kokkos::parallel_reduce(Kokkos::MDRangePolicy<Kokkos::Rank<2>>({(long)(x0), (long)(y0)}, {(long)(x1), (long)(y1)}), [&](const int i, const int j, decltype(var)& var) { fcn }, R<std::remove_reference_t<decltype(res)>>(res))
#define FSX_R3(R, i, x0, x1, j, y0, y1, k, z0, z1, var, fcn, res) Kokkos::parallel_reduce(Kokkos::MDRangePolicy<Kokkos::Rank<3>>({(long)(x0), (long)(y0), (long)(z0)}, {(long)(x1), (long)(y1), (long)(z1)}), [&](const int i, const int j, const int k, decltype(var)& var) { fcn }, R<std::remove_reference_t<decltype(res)>>(res))
#define FSX_GR(_1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, NAME, ...) NAME
#define FSX_RED(...) FSX_GR(__VA_ARGS__, FSX_R3, _12, _11, FSX_R2, _9, _8, FSX_R1, _6, _5)(__VA_ARGS__)
#define FOR_REDUCE_SUM(...) FSX_RED(Kokkos::Sum, __VA_ARGS__)
#define FOR_REDUCE_MAX(...) FSX_RED(Kokkos::Max, __VA_ARGS__)
#define FOR_REDUCE_MIN(...) FSX_RED(Kokkos::Min, __VA_ARGS__)
#define FOR_REDUCE_SUM_CLASS(...) FOR_REDUCE_SUM(__VA_ARGS__)
#define FOR_REDUCE_MAX_CLASS(...) FOR_REDUCE_MAX(__VA_ARGS__)
#define FOR_REDUCE_MIN_CLASS(...) FOR_REDUCE_MIN(__VA_ARGS__)
#define MATAR_INITIALIZE(...)
#define MATAR_FINALIZE(...)
#define MATAR_FENCE() Kokkos::fence()
#define MATAR_KOKKOS_INIT
#define MATAR_KOKKOS_FINALIZE
#define HAVE_KOKKOS 1
namespace mtr {
template <class A> using fsx_dim = std::enable_if_t<std::is_arithmetic_v<std::decay_t<A>> || std::is_enum_v<std::decay_t<A>>, int>;
template <class T> inline T* fsx_new(size_t n) { T* p = new T[n ? n : 1]; if constexpr (std::is_arithmetic_v<T>) for (size_t i = 0; i < n; i++) p[i] = T(); return p; }
// dense array; LEFT: first index fastest (FArray/FMatrix); BASE: 0 arrays, 1 matrices
template <class T, bool LEFT, int BASE> struct Dense {
  T* p_ = nullptr; size_t d_[7] = {0, 0, 0, 0, 0, 0, 0}; unsigned o_ = 0; size_t n_ = 0;
  template <class X> void take(const X& x) { if constexpr (std::is_arithmetic_v<X> || std::is_enum_v<X>) d_[o_++] = (size_t)x; }
  template <class... A> void shape(const A&... a) { o_ = 0; (take(a), ...); n_ = o_ ? 1 : 0; for (unsigned i = 0; i < o_; i++) n_ *= d_[i]; }
  template <class... I> T& operator()(I... i) const {
    size_t ix[sizeof...(I)] = {(size_t)i...}; if (sizeof...(I) != o_) fsx_fail("array indexed with the wrong number of indices"); size_t k = 0;
    for (unsigned a = 0; a < sizeof...(I); a++) { ix[a] -= BASE; if (ix[a] >= d_[a]) fsx_fail("array index out of range"); }
    if (LEFT) { for (int a = (int)sizeof...(I) - 1; a >= 0; a--) k = k * d_[a] + ix[a]; } else for (unsigned a = 0; a < sizeof...(I); a++) k = k * d_[a] + ix[a];
    return p_[k]; }
  size_t size() const { return n_; } size_t extent() const { return n_; } size_t order() const { return o_; } size_t length() const { return n_; }
  size_t dims(size_t i) const { i -= BASE; if (i >= o_) fsx_fail("array dimension out of range"); return d_[i]; }
  T* pointer() const { return p_; } T* device_pointer() const { return p_; } T* host_pointer() const { return p_; } T* data() const { return p_; }
  T* begin() const { return p_; } T* end() const { return p_ + n_; }
  void set_values(T v) const { for (size_t i = 0; i < n_; i++) p_[i] = v; } void set_values(T v, size_t n) const { for (size_t i = 0; i < n; i++) p_[i] = v; }
  void update_host() const {} void update_device() const {} void lock_update() {} void unlock_update() {}
  const std::string get_name() const { return ""; }
};
#define FSX_OWN(NAME, LEFT, BASE, ZERO) template <class T, class L = void, class E = void, class M = void> struct NAME : Dense<T, LEFT, BASE> { NAME() {} \
  template <class A0, class... A, fsx_dim<A0> = 0> NAME(A0 a0, const A&... a) { this->shape((size_t)a0, a...); this->p_ = ZERO ? fsx_new<T>(this->n_) : new T[this->n_ ? this->n_ : 1]; } };
#define FSX_DUAL(NAME, LEFT, BASE) template <class T, class L = void, class E = void, class M = void> struct NAME : Dense<T, LEFT, BASE> { Dense<T, LEFT, BASE> host; NAME() {} \
  template <class A0, class... A, fsx_dim<A0> = 0> NAME(A0 a0, const A&... a) { this->shape((size_t)a0, a...); this->p_ = fsx_new<T>(this->n_); host = *this; } };
#define FSX_VIEW(NAME, LEFT, BASE) template <class T, class L = void, class E = void, class M = void> struct NAME : Dense<T, LEFT, BASE> { NAME() {} \
  template <class... A> NAME(T* p, const A&... a) { this->shape(a...); this->p_ = p; } };
#define FSX_DVIEW(NAME, LEFT, BASE) template <class T, class L = void, class E = void, class M = void> struct NAME : Dense<T, LEFT, BASE> { Dense<T, LEFT, BASE> host; NAME() {} \
  template <class... A> NAME(T* p, const A&... a) { this->shape(a...); this->p_ = p; host = *this; } };
FSX_OWN(CArray, false, 0, false) FSX_OWN(CMatrix, false, 1, false) FSX_OWN(FArray, true, 0, false) FSX_OWN(FMatrix, true, 1, false)
FSX_OWN(CArrayKokkos, false, 0, true) FSX_OWN(CMatrixKokkos, false, 1, true) FSX_OWN(FArrayKokkos, true, 0, true) FSX_OWN(FMatrixKokkos, true, 1, true)
FSX_DUAL(DCArrayKokkos, false, 0) FSX_DUAL(DCMatrixKokkos, false, 1) FSX_DUAL(DFArrayKokkos, true, 0) FSX_DUAL(DFMatrixKokkos, true, 1) FSX_DUAL(CArrayDual, false, 0) FSX_DUAL(FArrayDual, true, 0) FSX_DUAL(CMatrixDual, false, 1) FSX_DUAL(FMatrixDual, true, 1)
FSX_VIEW(ViewCArray, false, 0) FSX_VIEW(ViewCMatrix, false, 1) FSX_VIEW(ViewFArray, true, 0) FSX_VIEW(ViewFMatrix, true, 1)
FSX_VIEW(ViewCArrayKokkos, false, 0) FSX_VIEW(ViewCMatrixKokkos, false, 1) FSX_VIEW(ViewFArrayKokkos, true, 0) FSX_VIEW(ViewFMatrixKokkos, true, 1)
FSX_DVIEW(DViewCArrayKokkos, false, 0) FSX_DVIEW(DViewCMatrixKokkos, false, 1) FSX_DVIEW(DViewFArrayKokkos, true, 0) FSX_DVIEW(DViewFMatrixKokkos, true, 1)
// ragged rows: row i has stride(i) entries (times trailing dimensions)
template <class T, int BASE> struct RaggedBase {
  T* p_ = nullptr; size_t *st_ = nullptr, *off_ = nullptr; size_t rows_ = 0, n_ = 0, e_[2] = {1, 1}; unsigned o_ = 2;
  template <class X> void take(const X& x) { if constexpr (std::is_arithmetic_v<X>) { e_[o_ - 2] = (size_t)x; o_++; } }
  void rows(const size_t* s, size_t r) { rows_ = r; st_ = new size_t[r + 1]; off_ = new size_t[r + 1]; size_t k = 0; for (size_t i = 0; i < r; i++) { st_[i] = s[i]; off_[i] = k; k += s[i]; } off_[r] = k; n_ = k * e_[0] * e_[1]; p_ = fsx_new<T>(n_); }
  size_t& stride(size_t i) const { i -= BASE; if (i >= rows_) fsx_fail("ragged row out of range"); return st_[i]; } size_t& stride_host(size_t i) const { return stride(i); }
  T& at(size_t i, size_t j, size_t k, size_t l, unsigned o) const { i -= BASE; j -= BASE; if (o != o_) fsx_fail("ragged array indexed with the wrong number of indices"); if (i >= rows_) fsx_fail("ragged row out of range"); if (j >= off_[i + 1] - off_[i] || k >= e_[0] || l >= e_[1]) fsx_fail("ragged array index out of range"); return p_[((off_[i] + j) * e_[0] + k) * e_[1] + l]; }
  template <class I, class J> T& operator()(I i, J j) const { return at(i, j, 0, 0, 2); }
  template <class I, class J, class K> T& operator()(I i, J j, K k) const { return at(i, j, (size_t)k - BASE, 0, 3); }
  template <class I, class J, class K, class L> T& operator()(I i, J j, K k, L l) const { return at(i, j, (size_t)k - BASE, (size_t)l - BASE, 4); }
  size_t size() const { return n_; } size_t extent() const { return n_; } size_t dims(size_t i) const { return i == 0 ? rows_ : e_[i - 1]; } T* pointer() const { return p_; } T* device_pointer() const { return p_; } T* host_pointer() const { return p_; }
  void set_values(T v) const { for (size_t i = 0; i < n_; i++) p_[i] = v; } void update_host() const {} void update_device() const {} const std::string get_name() const { return ""; }
};
template <class T, class L = void, class E = void, class M = void, class I = void> struct RaggedRightArrayKokkos : RaggedBase<T, 0> { RaggedRightArrayKokkos() {}
  template <class S, std::enable_if_t<std::is_base_of_v<Dense<size_t, false, 0>, S>, int> = 0, class... A> RaggedRightArrayKokkos(const S& s, const A&... a) { (this->take(a), ...); this->rows(s.pointer(), s.size()); } };
template <class T, class L = void, class E = void, class M = void, class I = void> struct DRaggedRightArrayKokkos : RaggedBase<T, 0> { RaggedBase<T, 0> host; DRaggedRightArrayKokkos() {}
  template <class S, std::enable_if_t<std::is_base_of_v<Dense<size_t, false, 0>, S>, int> = 0, class... A> DRaggedRightArrayKokkos(const S& s, const A&... a) { (this->take(a), ...); this->rows(s.pointer(), s.size()); host = *this; } };
template <class T, class L = void, class E = void, class M = void> struct DynamicRaggedRightArrayKokkos { T* p_ = nullptr; size_t* st_ = nullptr; size_t r_ = 0, c_ = 0; DynamicRaggedRightArrayKokkos() {}
  template <class... A> DynamicRaggedRightArrayKokkos(size_t r, size_t c, const A&...) : r_(r), c_(c) { p_ = fsx_new<T>(r * c); st_ = fsx_new<size_t>(r); }
  size_t& stride(size_t i) const { if (i >= r_) fsx_fail("dynamic ragged row out of range"); return st_[i]; } T& operator()(size_t i, size_t j) const { if (i >= r_ || j >= c_) fsx_fail("dynamic ragged index out of range"); if (j >= st_[i] && 0) fsx_fail(""); return p_[i * c_ + j]; }
  void set_values(T v) const { for (size_t i = 0; i < r_ * c_; i++) p_[i] = v; } size_t dims(size_t i) const { return i ? c_ : r_; } size_t size() const { return r_ * c_; } };
}
