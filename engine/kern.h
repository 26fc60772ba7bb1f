// Kernel side: instantiates the library under test. Only public API is used.
#pragma once
#ifdef VK_CONF
#include "conf.h"
#endif
#include <experimental/simd>
#include <cstring>
#include <new>
#include <utility>
#include "shared.h"
#ifndef VK_BODY
#define VK_BODY
#endif
namespace stdx = std::experimental;

namespace vk {
#pragma GCC visibility push(hidden)
template <class X> struct is_v : std::bool_constant<stdx::is_simd_v<X> || stdx::is_simd_mask_v<X>> {};

template <class X> struct elem;
template <class T, class A> struct elem<stdx::simd<T, A>> { using type = T; using lane = T; static constexpr bool mask = false; };
template <class T, class A> struct elem<stdx::simd_mask<T, A>> { using type = T; using lane = bool; static constexpr bool mask = true; };

template <class X>
[[gnu::noinline]] void reg_make(int route, const void* lanes, void* reg)
{
  using L = typename elem<X>::lane;
  const L* p = static_cast<const L*>(lanes);
  X* r = static_cast<X*>(reg);
  if (route == 0)
    { X x(p, stdx::element_aligned); *r = x; }
  else if (route == 1)
    { r = new (reg) X; for (int i = 0; i < int(X::size()); ++i) (*r)[i] = p[i]; } // default-initialized: indeterminate bits
  else if constexpr (elem<X>::mask)
    r->copy_from(p, stdx::element_aligned);
  else
    *r = X([&](auto i) { return p[i]; });
}
template <class X>
[[gnu::noinline]] void reg_read(int route, const void* reg, void* lanes)
{
  using L = typename elem<X>::lane;
  L* p = static_cast<L*>(lanes);
  const X* r = static_cast<const X*>(reg);
  if (route == 0)
    r->copy_to(p, stdx::element_aligned);
  else
    for (int i = 0; i < int(X::size()); ++i) p[i] = (*r)[i];
}
template <class X>
inline const RegClass rclass = {tid<typename elem<X>::type>::value, elem<X>::mask, uint16_t(X::size()),
  sizeof(X), alignof(X), &reg_make<X>, &reg_read<X>};

template <class P, class K>
constexpr Arg make_arg()
{
  using X = std::remove_cv_t<std::remove_reference_t<P>>;
  constexpr uint8_t dir = std::is_lvalue_reference_v<P> && !std::is_const_v<std::remove_reference_t<P>> ? AD_INOUT : AD_IN;
  if constexpr (is_v<X>::value)
    return {AK_REG, dir, elem<X>::mask ? uint8_t(TI_bool) : uint8_t(tid<typename elem<X>::type>::value), uint16_t(X::size()), alignof(X), &rclass<X>};
  else if constexpr (std::is_pointer_v<X>)
    {
      using E = std::remove_pointer_t<X>;
      static_assert(tid<std::remove_const_t<E>>::value != TI_none);
      return {AK_MEM, std::is_const_v<E> ? uint8_t(AD_IN) : uint8_t(AD_INOUT), tid<std::remove_const_t<E>>::value, uint16_t(K::mem_n()),
	K::mem_align() ? uint32_t(K::mem_align()) : uint32_t(alignof(E)), nullptr};
    }
  else
    {
      static_assert(tid<X>::value != TI_none);
      return {AK_SCALAR, dir, tid<X>::value, 1, alignof(X), nullptr};
    }
}
template <class P> decltype(auto) fetch(void* p)
{
  if constexpr (std::is_pointer_v<P>) return static_cast<P>(p);
  else return *static_cast<std::remove_reference_t<P>*>(p);
}
template <class K, class F> struct thunk;
template <class K, class... P> struct thunk<K, void (*)(P...)>
{
  template <size_t... I> static void go(void* const* p, std::index_sequence<I...>) { K::body(fetch<P>(p[I])...); }
  [[gnu::noinline]] static void run(void* const* p) { go(p, std::make_index_sequence<sizeof...(P)>()); }
  static constexpr Kernel entry()
  { return {K::name(), K::idT, K::idU, sizeof...(P), &run, {make_arg<P, K>()...}}; }
};
#ifdef VK_SKIP
// operations that do not compile (reported as failures); the others of this library still run
constexpr bool skipped(const char* n)
{
  for (const char* s : {VK_SKIP}) { const char* a = s; const char* b = n; while (*a && *a == *b) ++a, ++b; if (*a == *b) return true; }
  return false;
}
#else
constexpr bool skipped(const char*) { return false; }
#endif
template <class K> constexpr Kernel entry()
{
  if constexpr (K::enabled && !skipped(K::name())) return thunk<K, decltype(&K::body)>::entry();
  else return {};
}
template <class X, bool = is_v<X>::value> struct other { using W = X; using TW = X; using MW = bool; };
template <class X> struct other<X, true> { using W = X; using TW = typename elem<X>::type; using MW = stdx::simd_mask<TW, typename X::abi_type>; };

// does simd_abi::deduce_t<T, n> exist?
template <class T, int n, class = void> struct can_deduce : std::false_type {};
template <class T, int n> struct can_deduce<T, n, std::void_t<stdx::simd_abi::deduce_t<T, n>>> : std::bool_constant<(n > 0)> {};
template <class T, int n> using dsimd = stdx::simd<T, stdx::simd_abi::deduce_t<T, n>>;
template <class T, int n> using dmask = stdx::simd_mask<T, stdx::simd_abi::deduce_t<T, n>>;
template <class X> constexpr bool is_fixed = false;
template <class T, int n> constexpr bool is_fixed<stdx::simd<T, stdx::simd_abi::fixed_size<n>>> = true;
// stores the elements of consecutive pieces
template <class L> struct sink {
  L* m;
  template <class X> void operator()(const X& x) { x.copy_to(m, stdx::element_aligned); m += X::size(); }
};
template <class L, class Tup> void sink_tuple(L* m, const Tup& t)
{ sink<L> s{m}; std::apply([&](const auto&... x) { (s(x), ...); }, t); }
template <class L, class X, size_t n> void sink_array(L* m, const std::array<X, n>& t)
{ sink<L> s{m}; for (const auto& x : t) s(x); }
// names available in the parameter lists and bodies of ops/*.inc
#define VK_CTX(V_, W_)                                                                             \
  using V = V_; using T = typename V::value_type; using M = typename V::mask_type;                 \
  using A = typename V::abi_type; using W = typename other<W_>::W; using U = typename other<W_>::TW; \
  using MW = typename other<W_>::MW;                                                               \
  static constexpr int N = int(V::size());                                                         \
  using RV = V&; using CV = const V&; using RM = M&; using CM = const M&; using CS = T; using RS = T&; \
  using CI = int; using RI = int&; using CB = bool; using RB = bool&; using CL = long; using RL = long&; using RUL = unsigned long&; using CUL = unsigned long; \
  using RW = W&; using CW = const W&; using RMW = MW&; using CMW = const MW&;                      \
  using CFI = const stdx::fixed_size_simd<int, N>&; using CFL = const stdx::fixed_size_simd<long, N>&; \
  using CFU = const stdx::fixed_size_simd<unsigned, N>&; using RFI = stdx::fixed_size_simd<int, N>&; \
  static constexpr uint8_t idT = tid<T>::value; static constexpr uint8_t idU = std::is_same_v<V_, W_> ? uint8_t(0) : uint8_t(tid<U>::value);

#define UNP(...) __VA_ARGS__
#define KSIDE(...) (__VA_ARGS__)
#define KCAST(X, ...) (stdx::__proposed::static_simd_cast<X>(__VA_ARGS__))
#define OPX(NAME, CLS, ATTR, PARAMS, DEF, MEMN, MEMALIGN, BODY, OBODY)                             \
  template <class V_, class W_ = V_> struct K_##NAME {                                             \
    VK_CTX(V_, W_)                                                                                 \
    static constexpr const char* name() { return #NAME; }                                          \
    static constexpr bool enabled = CLS;                                                           \
    static constexpr int mem_n() { return MEMN; }                                                  \
    static constexpr size_t mem_align() { return MEMALIGN; }                                       \
    VK_BODY static void body PARAMS { UNP BODY; }                                                          \
  };
#define OP2(NAME, CLS, ATTR, PARAMS, DEF, BODY, OBODY) OPX(NAME, CLS, ATTR, PARAMS, DEF, N, 0, BODY, OBODY)
#define OP(NAME, CLS, ATTR, PARAMS, DEF, BODY) OPX(NAME, CLS, ATTR, PARAMS, DEF, N, 0, BODY, BODY)
#define OPC(NAME, CLS, ATTR, PARAMS, DEF, BODY, OBODY, CMP) OPX(NAME, CLS, ATTR, PARAMS, DEF, N, 0, BODY, OBODY)
#define WOP(NAME, CLS, ATTR, PARAMS, BODY, OBODY) OPX(NAME, CLS, ATTR, PARAMS, true, N, 0, BODY, OBODY)
#define WOPM(NAME, CLS, ATTR, PARAMS, MEMN, BODY, OBODY) OPX(NAME, CLS, ATTR, PARAMS, true, MEMN, 0, BODY, OBODY)
#define ALL true
#define INTS (std::is_integral_v<T>)
#define FPS (std::is_floating_point_v<T>)
#pragma GCC visibility pop
} // namespace vk
