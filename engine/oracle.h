// Oracle side: the element-wise meaning of every operation, on plain scalars/arrays.
// Never includes the simd headers.
#pragma once
#include <cstring>
#include <cmath>
#include <limits>
#include <type_traits>
#include <utility>
#include <algorithm>
#include <functional>
#include "shared.h"

namespace vo {
using namespace vk;
enum Attr : uint32_t {
  AT_SHIFT = 1,     // last input is a shift count: generate mostly in [0, width of promoted type)
  AT_ZEQ = 2,       // +0 and -0 are equal in results
  AT_EXACTFOLD = 4, // generate small integral values so that floating-point folds are exact
  AT_CLOSE = 8,     // second input often close to the first
  AT_CUSTOM = 16,   // result checked by the entry's own cmp
  AT_CONVINT = 32,  // generate values around the integer conversion range
  AT_ORDERED = 64,  // inputs 2,3 are lo <= hi
  AT_MODERATE = 128,// floating point: moderate magnitudes mostly
  AT_NONAN = 256,   // floating point inputs are not NaN
  AT_SMALLEXP = 512,// int lanes: exponent-like values
  AT_HISTORY_SKIP = 1024,
  AT_ROUNDMODE = 2048, // run under all four rounding modes
  AT_UNIT = 4096,   // values mostly in [-1,1]
  AT_ORDER = 8192,  // int inputs are small non-negative orders
  AT_NARROW = 16384,// history mode may need values that exist in other types
  AT_FINITE = 32768,// finite inputs and results only (fast-math)
  AT_TRIG = 131072, // trigonometric arguments
  AT_NOFAST = 65536,// not meaningful under -ffast-math
};
struct OEntry {
  const char* op;
  uint8_t T, U;
  bool whole;
  uint32_t attr;
  bool (*fn)(void* const*); // lane: pointers to lanes; whole: pointers to arrays
  bool (*cmp)(int idx, const void* got, const void* want, void* const* in); // AT_CUSTOM
};
extern thread_local int wn; // lanes (whole)
extern thread_local int wa[MAXARGS]; // lanes of each argument (whole)

template <class P> decltype(auto) fetch(void* p)
{
  if constexpr (std::is_pointer_v<P>) return static_cast<P>(p);
  else return *static_cast<std::remove_reference_t<P>*>(p);
}
template <class K, class F> struct othunk;
template <class K, class... P> struct othunk<K, bool (*)(P...)>
{
  template <size_t... I> static bool go(void* const* p, std::index_sequence<I...>) { return K::obody(fetch<P>(p[I])...); }
  static bool run(void* const* p) { return go(p, std::make_index_sequence<sizeof...(P)>()); }
};
template <class K> constexpr OEntry oentry()
{
  if constexpr (K::enabled)
    return {K::name(), K::idT, K::idU, K::whole, K::attr, &othunk<K, decltype(&K::obody)>::run, K::cmp()};
  else return {};
}
template <class T> using prom = decltype(+T());
template <class T> constexpr int pbits = int(sizeof(prom<T>) * 8);

template <class A, class B> bool ok_add(A a, B b)
{ using P = decltype(a + b); if constexpr (std::is_integral_v<P>) { P r; return std::is_unsigned_v<P> || !__builtin_add_overflow(P(a), P(b), &r); } else return true; }
template <class A, class B> bool ok_sub(A a, B b)
{ using P = decltype(a - b); if constexpr (std::is_integral_v<P>) { P r; return std::is_unsigned_v<P> || !__builtin_sub_overflow(P(a), P(b), &r); } else return true; }
template <class A, class B> bool ok_mul(A a, B b)
{ using P = decltype(a * b); if constexpr (std::is_integral_v<P>) { P r; return std::is_unsigned_v<P> || !__builtin_mul_overflow(P(a), P(b), &r); } else return true; }
template <class A, class B> bool ok_div(A a, B b)
{
  using P = decltype(a / b);
  if constexpr (std::is_integral_v<P>)
    return P(b) != 0 && !(std::is_signed_v<P> && P(a) == std::numeric_limits<P>::min() && P(b) == P(-1));
  else return true;
}
template <class A> bool ok_neg(A a)
{ using P = decltype(-a); if constexpr (std::is_integral_v<P>) return !std::is_signed_v<P> || P(a) != std::numeric_limits<P>::min(); else return true; }
template <class A, class B> bool ok_sh(A, B n) { if constexpr (std::is_signed_v<B>) if (n < 0) return false; return (unsigned long long)n < (unsigned long long)pbits<A>; }
template <class A, class B> prom<A> shl(A a, B n) { using P = prom<A>; return P(std::make_unsigned_t<P>(P(a)) << n); }
template <class A, class B> prom<A> shr(A a, B n) { return prom<A>(a) >> n; }
// is static_cast<To>(x) defined (and not value-dependent on the implementation)?
template <class To, class From> bool ok_cvt(From x)
{
  if constexpr (std::is_floating_point_v<From> && std::is_integral_v<To> && !std::is_same_v<To, bool>)
    {
      long double v = x;
      if (!(v == v)) return false;
      long double t = __builtin_truncl(v);
      return t >= (long double)std::numeric_limits<To>::min() && t <= (long double)std::numeric_limits<To>::max();
    }
  else if constexpr (std::is_floating_point_v<From> && std::is_floating_point_v<To> && sizeof(To) < sizeof(From))
    { // narrowing: out of range finite values are undefined in C++ (IEEE gives inf: accept, it is what Annex F says)
      return true;
    }
  else return true;
}
template <class T> T lim_max() { if constexpr (std::is_floating_point_v<T>) return std::numeric_limits<T>::infinity(); else return std::numeric_limits<T>::max(); }
template <class T> T lim_min() { if constexpr (std::is_floating_point_v<T>) return -std::numeric_limits<T>::infinity(); else return std::numeric_limits<T>::min(); }
// folds that no association can make overflow or inexact
template <class T> bool fold_add(const T* a, int n, T& r, const bool* k = nullptr)
{
  long double s = 0, m = 0;
  for (int i = 0; i < n; ++i) if (!k || k[i]) { s += a[i]; m += a[i] < 0 ? -(long double)a[i] : (long double)a[i]; }
  if constexpr (std::is_integral_v<T>)
    { if (m > (long double)std::numeric_limits<prom<T>>::max() / 2 && std::is_signed_v<prom<T>>) return false; T t = 0; for (int i = 0; i < n; ++i) if (!k || k[i]) t = T(t + a[i]); r = t; }
  else
    {
      for (int i = 0; i < n; ++i) if ((!k || k[i]) && !(a[i] == (T)(long)a[i])) return false;
      if (!(m < 16000000)) return false;
      r = T(s);
    }
  return true;
}
template <class T> bool fold_mul(const T* a, int n, T& r, const bool* k = nullptr)
{
  long double m = 1; T t = 1;
  for (int i = 0; i < n; ++i) if (!k || k[i])
    {
      if constexpr (std::is_floating_point_v<T>) if (!(a[i] == (T)(long)a[i])) return false;
      long double q = a[i] < 0 ? -(long double)a[i] : (long double)a[i]; if (q < 1) q = 1; m *= q; t = T(t * a[i]);
      if (m > (std::is_floating_point_v<T> ? 16000000.L : (long double)(sizeof(T) < 4 ? 2000000000.L : 4e18L)) || (!std::is_floating_point_v<T> && sizeof(T) == 4 && m > 2000000000.L)) return false;
    }
  r = t;
  if constexpr (std::is_floating_point_v<T>) { if (r == 0) r = 0; }
  return true;
}
// approximate results: the reference is long double, the comparison per element
template <class T> long double ulp_of(long double ref)
{
  constexpr int d = std::numeric_limits<T>::digits, me = std::numeric_limits<T>::min_exponent;
  int e; long double a = __builtin_fabsl(ref); if (!(a > 0)) e = me; else { __builtin_frexpl(a, &e); if (e < me) e = me; }
  return __builtin_ldexpl(1, e - d);
}
template <class T> bool close_to(T got, long double ref, double ulps, long double abstol)
{
  if (ref != ref) return got != got;
  if (got != got) return false;
  if (__builtin_isinf((long double)got) || __builtin_isinf(ref))
    {
      if ((long double)got == ref) return true;
      long double mx = std::numeric_limits<T>::max(); // overflow is allowed within the tolerance of the largest value
      long double a = __builtin_fabsl(ref), g = __builtin_fabsl((long double)got);
      return (ref < 0) == (got < 0) && a >= mx - 2 * ulps * ulp_of<T>(mx) && g >= mx - 2 * ulps * ulp_of<T>(mx);
    }
  long double err = __builtin_fabsl((long double)got - ref);
  return err <= ulps * ulp_of<T>(ref) || err <= abstol;
}
template <class T> T rd(const void* p) { T x; memcpy(&x, p, sizeof(T) == 16 ? 10 : sizeof(T)); return x; }
template <class T, bool Cos> bool cmp_trig(int, const void* got, const void* want, void* const* in)
{
  T g = rd<T>(got), x = rd<T>(in[1]);
  if constexpr (sizeof(T) == 16) { T w = rd<T>(want); return memcmp(got, want, 10) == 0 || (g != g && w != w); }
  else
    {
      constexpr long double eps = sizeof(T) == 4 ? 0x1p-24L : 0x1p-53L;
      long double ref = Cos ? __builtin_cosl(x) : __builtin_sinl(x);
      if (!Cos && x == 0) return g == 0 && std::signbit(g) == std::signbit(x);
      return close_to<T>(g, ref, 4, __builtin_fabsl(x) < .7L ? 0 : 3 * eps);
    }
}
template <class T, int K> bool cmp_hypot(int, const void* got, const void*, void* const* in)
{
  T g = rd<T>(got); long double a = rd<T>(in[1]), b = rd<T>(in[2]), c = K == 3 ? (long double)rd<T>(in[3]) : 0.L;
  if (__builtin_isinf(a) || __builtin_isinf(b) || __builtin_isinf(c)) return __builtin_isinf((long double)g) && g > 0;
  if (a != a || b != b || c != c) return g != g;
  long double ref = __builtin_hypotl(__builtin_hypotl(a, b), c);
  if (std::signbit(g)) return false;
  return close_to<T>(g, ref, sizeof(T) == 16 ? 4 : K == 3 ? 2 : 2, 0);
}
// names available in the parameter lists and bodies of ops/*.inc
#define VK_CTX(T_, U_)                                                                             \
  using T = T_; using V = T_; using M = bool; using U = std::conditional_t<std::is_void_v<U_>, T_, U_>; \
  using W = U; using MW = bool; static constexpr int N = 1;                                        \
  using RV = T&; using CV = const T&; using RM = bool&; using CM = const bool&; using CS = T; using RS = T&; \
  using CI = int; using RI = int&; using CB = bool; using RB = bool&; using CL = long; using RL = long&; using RUL = unsigned long&; using CUL = unsigned long; \
  using RW = U&; using CW = const U&; using RMW = bool&; using CMW = const bool&; using IV = int;  \
  using CFI = const int&; using CFL = const long&; using CFU = const unsigned&; using RFI = int&; \
  static constexpr uint8_t idT = tid<T>::value; static constexpr uint8_t idU = std::is_void_v<U_> ? uint8_t(0) : uint8_t(tid<U>::value);
#define VK_WCTX(T_, U_)                                                                            \
  using T = T_; using U = std::conditional_t<std::is_void_v<U_>, T_, U_>; struct V; static constexpr int N = 1; \
  using RV = T*; using CV = const T*; using RM = bool*; using CM = const bool*; using CS = T; using RS = T&; \
  using CI = int; using RI = int&; using CB = bool; using RB = bool&; using CL = long; using RL = long&; using RUL = unsigned long&; using CUL = unsigned long; \
  using RW = U*; using CW = const U*; using RMW = bool*; using CMW = const bool*;                  \
  using CFI = const int*; using CFL = const long*; using CFU = const unsigned*; using RFI = int*; \
  static constexpr uint8_t idT = tid<T>::value; static constexpr uint8_t idU = std::is_void_v<U_> ? uint8_t(0) : uint8_t(tid<U>::value);

#define UNP(...) __VA_ARGS__
#define KSIDE(...) true
#define KCAST(X, ...) (__VA_ARGS__)
using CmpFn = bool (*)(int, const void*, const void*, void* const*);
#define OPX_(NAME, CLS, ATTR, PARAMS, DEF, OBODY, CMP)                                             \
  template <class T_, class U_ = void> struct O_##NAME {                                           \
    VK_CTX(T_, U_)                                                                                 \
    static constexpr const char* name() { return #NAME; }                                          \
    static constexpr bool enabled = CLS, whole = false;                                            \
    static constexpr uint32_t attr = ATTR;                                                         \
    static constexpr CmpFn cmp() { return CMP; }                                                   \
    static bool obody PARAMS { if (!(DEF)) return false; UNP OBODY; return true; }                 \
  };
#define OPX(NAME, CLS, ATTR, PARAMS, DEF, MEMN, MEMALIGN, BODY, OBODY) OPX_(NAME, CLS, ATTR, PARAMS, DEF, OBODY, nullptr)
#define OP2(NAME, CLS, ATTR, PARAMS, DEF, BODY, OBODY) OPX_(NAME, CLS, ATTR, PARAMS, DEF, OBODY, nullptr)
#define OPC(NAME, CLS, ATTR, PARAMS, DEF, BODY, OBODY, CMP) OPX_(NAME, CLS, (ATTR) | AT_CUSTOM, PARAMS, DEF, OBODY, CMP)
#define OP(NAME, CLS, ATTR, PARAMS, DEF, BODY) OPX_(NAME, CLS, ATTR, PARAMS, DEF, BODY, nullptr)
#define WOPM(NAME, CLS, ATTR, PARAMS, MEMN, BODY, OBODY) WOP(NAME, CLS, ATTR, PARAMS, BODY, OBODY)
#define WOP(NAME, CLS, ATTR, PARAMS, BODY, OBODY)                                                  \
  template <class T_, class U_ = void> struct O_##NAME {                                           \
    VK_WCTX(T_, U_)                                                                                \
    static constexpr const char* name() { return #NAME; }                                          \
    static constexpr bool enabled = CLS, whole = true;                                             \
    static constexpr uint32_t attr = ATTR;                                                         \
    static constexpr CmpFn cmp() { return nullptr; }                                               \
    static bool obody PARAMS { const int n = wn; (void)n; bool ok = true; UNP OBODY; return ok; }  \
  };
#define ALL true
#define INTS (std::is_integral_v<T>)
#define FPS (std::is_floating_point_v<T>)
} // namespace vo
