"""C15: generated compile-time probes against a model of the TS rules (types, sizes, traits, conversions, constraints)."""
import concurrent.futures as cf, hashlib, itertools, json, os, random, re, shutil
from . import core, config as C

PRE = r'''
#include <experimental/simd>
#include <cstdio>
#include <string>
#include <vector>
namespace stdx = std::experimental;
using stdx::simd; using stdx::simd_mask; using stdx::fixed_size_simd; using stdx::fixed_size_simd_mask; using stdx::native_simd;
namespace abi = stdx::simd_abi;
enum Enum : int {}; enum class EnumClass : int {}; struct Struct { int x; }; struct ToInt { operator int() const; }; struct ToFloat { operator float() const; };
struct ToStruct { operator Struct() const; };
template <class T, int N> using ded = abi::deduce_t<T, N>;
template <class T, int N> using dsimd = simd<T, ded<T, N>>;
template <class T, int N> using fsimd = fixed_size_simd<T, N>;
template <class T> T& lv(); template <class T> const T& cl(); template <class T> T&& rv();
template <class... > struct pack;
// result of an alias template: 2 ill-formed, 1 is exactly E, 0 another type
template <template <class...> class F, class E, class Void, class... A> struct det_ { static constexpr int value = 2; };
template <template <class...> class F, class E, class... A> struct det_<F, E, std::void_t<F<A...>>, A...> { static constexpr int value = std::is_same_v<F<A...>, E>; };
template <template <class...> class F, class E, class... A> constexpr int det = det_<F, E, void, A...>::value;
template <template <class...> class F, class... A> constexpr int ok = det_<F, pack<>, void, A...>::value != 2;
#define B(NAME, E) template <class X, class Y> using NAME = decltype(E);
B(o_add, cl<X>() + cl<Y>()) B(o_sub, cl<X>() - cl<Y>()) B(o_mul, cl<X>() * cl<Y>()) B(o_div, cl<X>() / cl<Y>()) B(o_mod, cl<X>() % cl<Y>())
B(o_and, cl<X>() & cl<Y>()) B(o_or, cl<X>() | cl<Y>()) B(o_xor, cl<X>() ^ cl<Y>()) B(o_shl, cl<X>() << cl<Y>()) B(o_shr, cl<X>() >> cl<Y>())
B(o_eq, cl<X>() == cl<Y>()) B(o_ne, cl<X>() != cl<Y>()) B(o_lt, cl<X>() < cl<Y>()) B(o_le, cl<X>() <= cl<Y>()) B(o_gt, cl<X>() > cl<Y>()) B(o_ge, cl<X>() >= cl<Y>())
B(o_land, cl<X>() && cl<Y>()) B(o_lor, cl<X>() || cl<Y>())
B(a_add, lv<X>() += cl<Y>()) B(a_sub, lv<X>() -= cl<Y>()) B(a_mul, lv<X>() *= cl<Y>()) B(a_div, lv<X>() /= cl<Y>()) B(a_mod, lv<X>() %= cl<Y>())
B(a_and, lv<X>() &= cl<Y>()) B(a_or, lv<X>() |= cl<Y>()) B(a_xor, lv<X>() ^= cl<Y>()) B(a_shl, lv<X>() <<= cl<Y>()) B(a_shr, lv<X>() >>= cl<Y>())
B(a_set, lv<X>() = cl<Y>()) B(r_set, rv<X>() = cl<Y>())
template <class X> using ca_add = decltype(cl<X>() += cl<X>());
template <class X> using ca_inc = decltype(++cl<X>());
template <class X> using u_not = decltype(!cl<X>()); template <class X> using u_inv = decltype(~cl<X>()); template <class X> using u_neg = decltype(-cl<X>()); template <class X> using u_pos = decltype(+cl<X>());
template <class X> using u_inc = decltype(++lv<X>()); template <class X> using u_pinc = decltype(lv<X>()++); template <class X> using u_dec = decltype(--lv<X>()); template <class X> using u_pdec = decltype(lv<X>()--);
template <class X> using s_idx = decltype(lv<X>()[0]); template <class X> using s_cidx = decltype(cl<X>()[0]);
template <class T, class N> using t_ded = abi::deduce_t<T, N::value>;
template <class V, class N> using t_resize = stdx::resize_simd_t<N::value, V>;
template <class U, class V> using t_rebind = stdx::rebind_simd_t<U, V>;
template <class T, class A> using t_size = std::integral_constant<std::size_t, stdx::simd_size<T, A>::value>;
template <class To, class V> using c_static = decltype(stdx::static_simd_cast<To>(cl<V>()));
template <class To, class V> using c_simd = decltype(stdx::simd_cast<To>(cl<V>()));
template <class V> using c_tofix = decltype(stdx::to_fixed_size(cl<V>()));
template <class V> using c_tonative = decltype(stdx::to_native(cl<V>()));
template <class V> using c_tocompat = decltype(stdx::to_compatible(cl<V>()));
template <class P, class V> using c_splitv = decltype(stdx::split<P>(cl<V>()));
template <class V, class... N> using c_splitn = decltype(stdx::split<N::value...>(cl<V>()));
template <class... V> using c_concat = decltype(stdx::concat(cl<V>()...));
template <class X, class Y> using w_where = decltype(stdx::where(cl<X>(), lv<Y>()));
template <class X, class Y> using w_cwhere = decltype(stdx::where(cl<X>(), cl<Y>()));
template <class X> using q_all = decltype(stdx::all_of(cl<X>())); template <class X> using q_any = decltype(stdx::any_of(cl<X>())); template <class X> using q_none = decltype(stdx::none_of(cl<X>()));
template <class X> using q_some = decltype(stdx::some_of(cl<X>())); template <class X> using q_pop = decltype(stdx::popcount(cl<X>())); template <class X> using q_ffs = decltype(stdx::find_first_set(cl<X>())); template <class X> using q_fls = decltype(stdx::find_last_set(cl<X>()));
template <class X> using f_reduce = decltype(stdx::reduce(cl<X>())); template <class X> using f_hmin = decltype(stdx::hmin(cl<X>())); template <class X> using f_hmax = decltype(stdx::hmax(cl<X>()));
template <class X> using f_min = decltype(stdx::min(cl<X>(), cl<X>())); template <class X> using f_max = decltype(stdx::max(cl<X>(), cl<X>())); template <class X> using f_minmax = decltype(stdx::minmax(cl<X>(), cl<X>())); template <class X> using f_clamp = decltype(stdx::clamp(cl<X>(), cl<X>(), cl<X>()));
#define M1(N) template <class X> using m_##N = decltype(N(cl<X>()));
M1(abs) M1(fabs) M1(sqrt) M1(sin) M1(cos) M1(tan) M1(asin) M1(acos) M1(atan) M1(exp) M1(exp2) M1(expm1) M1(log) M1(log2) M1(log10) M1(log1p) M1(logb) M1(ilogb) M1(ceil) M1(floor) M1(trunc) M1(round) M1(lround) M1(llround) M1(nearbyint) M1(rint) M1(lrint) M1(llrint) M1(cbrt) M1(erf) M1(erfc) M1(tgamma) M1(lgamma) M1(sinh) M1(cosh) M1(tanh) M1(asinh) M1(acosh) M1(atanh)
M1(fpclassify) M1(isfinite) M1(isinf) M1(isnan) M1(isnormal) M1(signbit)
#define M2(N) template <class X, class Y> using m_##N = decltype(N(cl<X>(), cl<Y>()));
M2(atan2) M2(pow) M2(fmod) M2(remainder) M2(copysign) M2(nextafter) M2(fdim) M2(fmax) M2(fmin) M2(hypot) M2(isgreater) M2(isgreaterequal) M2(isless) M2(islessequal) M2(islessgreater) M2(isunordered) M2(ldexp) M2(scalbn) M2(scalbln)
#define MP(N) template <class X, class Y> using m_##N = decltype(N(cl<X>(), std::declval<Y*>()));
MP(frexp) MP(modf)
template <class X, class Y> using m_remquo = decltype(remquo(cl<X>(), cl<X>(), std::declval<Y*>()));
template <class X> using m_fma = decltype(fma(cl<X>(), cl<X>(), cl<X>())); template <class X> using m_hypot3 = decltype(hypot(cl<X>(), cl<X>(), cl<X>()));
template <class V, class P, class F> using l_from = decltype(lv<V>().copy_from(std::declval<P>(), std::declval<F>())); template <class V, class P, class F> using l_to = decltype(cl<V>().copy_to(std::declval<P>(), std::declval<F>()));
template <class M, class V, class P, class F> using l_wfrom = decltype(stdx::where(cl<M>(), lv<V>()).copy_from(std::declval<P>(), std::declval<F>())); template <class M, class V, class P, class F> using l_wto = decltype(stdx::where(cl<M>(), cl<V>()).copy_to(std::declval<P>(), std::declval<F>()));
template <class M, class V, class Y> using w_set = decltype(stdx::where(cl<M>(), lv<V>()) = cl<Y>()); template <class M, class V, class Y> using w_add = decltype(stdx::where(cl<M>(), lv<V>()) += cl<Y>()); template <class M, class V, class Y> using w_mod = decltype(stdx::where(cl<M>(), lv<V>()) %= cl<Y>());
template <class M, class V, class Y> using w_cset = decltype(stdx::where(cl<M>(), cl<V>()) = cl<Y>());
template <class U> struct Gen { template <class I> U operator()(I) const; };
template <class U> struct GenStatic { U operator()(std::integral_constant<std::size_t, 0>) const; template <std::size_t I> U operator()(std::integral_constant<std::size_t, I>) const; };
constexpr bool pow2(std::size_t x) { return x && (x & (x - 1)) == 0; }
template <class V> constexpr bool regular = std::is_default_constructible_v<V> && std::is_copy_constructible_v<V> && std::is_nothrow_move_constructible_v<V> && std::is_copy_assignable_v<V> && std::is_move_assignable_v<V> && std::is_destructible_v<V>;
template <class V> constexpr bool trivial = regular<V> && std::is_trivially_copyable_v<V>;
template <class V> constexpr bool disabled = !std::is_default_constructible_v<V> && !std::is_copy_constructible_v<V> && !std::is_copy_assignable_v<V> && !std::is_destructible_v<V>;
template <int N> using I = std::integral_constant<int, N>;
struct P { int id; long v; };
static const P probes[] = {
'''
POST = '''};
int main() { for (const P& p : probes) std::printf("%d %ld\\n", p.id, p.v); }
'''
CT = {k: v[0] for k, v in C.TYPES.items()}
SIZE = {k: v[1] for k, v in C.TYPES.items()}
UNSIGNED = {'uchar', 'ushort', 'uint', 'ulong', 'ullong', 'char16_t', 'char32_t'}
DIG = {'float': (24, 128), 'double': (53, 1024), 'ldouble': (64, 16384)}
RANK = {'schar': 1, 'uchar': 1, 'char': 1, 'short': 2, 'ushort': 2, 'char16_t': 2, 'int': 3, 'uint': 3, 'wchar_t': 3, 'char32_t': 3, 'long': 4, 'ulong': 4, 'llong': 5, 'ullong': 5}
isint = lambda t: t not in DIG
bits = lambda t: 8 * SIZE[t] - (t not in UNSIGNED)
def preserves(u, t):
    """every value of u is representable in t"""
    if u == t: return True
    if isint(u):
        if isint(t): return bits(u) <= bits(t) and (u in UNSIGNED or t not in UNSIGNED)
        return bits(u) <= DIG[t][0]
    return not isint(t) and DIG[u][0] <= DIG[t][0] and DIG[u][1] <= DIG[t][1]
def broadcastable(u, t):
    return preserves(u, t) or u == 'int' or (u == 'uint' and t in UNSIGNED)
def fixed_convertible(u, t):
    if u == t: return True
    if not preserves(u, t): return False
    if isint(u) and isint(t):
        if RANK[u] == RANK[t]: return None # e.g. wchar_t and int: not decided here
        return RANK[t] > RANK[u]
    return True

def abis_for(t, isa, rnd):
    """(type text, N, kind)"""
    l = [('simd<%s, abi::scalar>' % CT[t], 1, 'scalar')]
    n = max(1, C.width(t, isa) // SIZE[t])
    l.append(('native_simd<%s>' % CT[t], n, 'native'))
    l.append(('simd<%s>' % CT[t], None, 'compat'))
    mx = C.max_fixed(t, isa)
    for k in {1, 2, 3, rnd.randint(4, mx), rnd.choice([4, 8, 16, 32]), mx}: l.append(('fsimd<%s, %d>' % (CT[t], k), k, 'fixed'))
    for k in {1, 2, 3, rnd.randint(4, mx), rnd.choice([4, 8, 16]), n, max(1, n - 1)}: l.append(('dsimd<%s, %d>' % (CT[t], k), k, 'deduce'))
    return l

def gen(isa, t, rnd, full):
    """yields (expression, expected) or (expression, predicate-text)"""
    T = CT[t]; fp = not isint(t); mx = C.max_fixed(t, isa); nat = max(1, C.width(t, isa) // SIZE[t])
    q = []
    def add(e, want): q.append((e, int(want)))
    add('stdx::native_simd<%s>::size()' % T, nat)
    add('simd<%s>::size() >= 1' % T, 1)
    add('std::is_same_v<native_simd<%s>, simd<%s, abi::native<%s>>>' % (T, T, T), 1)
    add('std::is_same_v<simd<%s>, simd<%s, abi::compatible<%s>>>' % (T, T, T), 1)
    add('abi::max_fixed_size<%s> >= 32' % T, 1)
    def rns(k): return sorted({1, 2, 3, 4, mx} | {rnd.randint(1, mx) for _ in range(k)})
    for n in range(1, mx + 1):
        add('ok<t_ded, %s, I<%d>>' % (T, n), 1)
        add('stdx::simd_size_v<%s, ded<%s, %d>>' % (T, T, n), n)
        add('det<t_size, std::integral_constant<std::size_t, %d>, %s, abi::fixed_size<%d>>' % (n, T, n), 1)
    for n in (0, 129, 1000): add('ok<t_ded, %s, I<%d>>' % (T, n), 0)
    add('ok<t_size, %s, abi::fixed_size<0>>' % T, 0); add('disabled<fsimd<%s, 0>>' % T, 1)
    add('disabled<fsimd<%s, int(abi::max_fixed_size<%s>) + 1>>' % (T, T), 1); add('disabled<fixed_size_simd_mask<%s, int(abi::max_fixed_size<%s>) + 1>>' % (T, T), 1)
    for x in ('const %s' % T, 'volatile %s' % T, '%s*' % T, 'simd<%s>' % T):
        add('disabled<simd<%s, abi::scalar>>' % x, 1); add('ok<t_size, %s, abi::scalar>' % x, 0)
        add('ok<t_ded, %s, I<4>>' % x, 0)
    add('disabled<simd<%s, int>>' % T, 1); add('disabled<simd_mask<%s, int>>' % T, 1); add('ok<t_size, %s, int>' % T, 0)
    for v, n, kind in abis_for(t, isa, rnd):
        V = v; M = '%s::mask_type' % V; A = '%s::abi_type' % V
        if n is not None:
            add('%s::size()' % V, n); add('%s::size()' % M, n); add('stdx::simd_size_v<%s, %s>' % (T, A), n)
        N = '%s::size()' % V
        add('std::is_same_v<decltype(%s::size()), std::size_t>' % V, 1)
        add('%s<%s>' % ('regular' if kind in ('fixed', 'deduce') else 'trivial', V), 1); add('trivial<%s>' % M, 1)
        if kind == 'deduce' and n and (n == nat or n * SIZE[t] == 16): add('trivial<%s>' % V, 1)
        add('sizeof(%s) >= %s * sizeof(%s)' % (V, N, T), 1); add('sizeof(%s) %% alignof(%s) == 0 && alignof(%s) >= alignof(%s)' % (V, V, V, T), 1)
        add('pow2(stdx::memory_alignment_v<%s>) && stdx::memory_alignment_v<%s> >= alignof(%s)' % (V, V, T), 1)
        add('pow2(stdx::memory_alignment_v<%s, bool>)' % M, 1)
        for u in rnd.sample(C.ALLT, 3):
            add('pow2(stdx::memory_alignment_v<%s, %s>) && stdx::memory_alignment_v<%s, %s> >= alignof(%s)' % (V, CT[u], V, CT[u], CT[u]), 1)
        add('std::is_same_v<%s::value_type, %s>' % (V, T), 1); add('std::is_same_v<%s::value_type, bool>' % M, 1)
        add('std::is_same_v<%s::simd_type, %s>' % (M, V), 1); add('std::is_same_v<%s, simd_mask<%s, %s>>' % (M, T, A), 1); add('std::is_same_v<%s, simd<%s, %s>>' % (V, T, A), 1)
        add('std::is_same_v<%s::abi_type, %s>' % (M, A), 1)
        add('stdx::is_simd_v<%s>' % V, 1); add('stdx::is_simd_v<%s>' % M, 0); add('stdx::is_simd_mask_v<%s>' % M, 1); add('stdx::is_simd_mask_v<%s>' % V, 0)
        add('stdx::is_simd_v<%s>' % T, 0); add('stdx::is_simd_mask_v<bool>', 0); add('stdx::is_abi_tag_v<%s>' % A, 1)
        if kind == 'fixed': add('std::is_same_v<%s, abi::fixed_size<%d>>' % (A, n), 1)
        if kind == 'scalar': add('sizeof(%s) == sizeof(%s)' % (V, T), 1)
        # references
        add('det<s_idx, %s::reference, %s>' % (V, V), 1); add('det<s_cidx, %s, %s>' % (T, V), 1); add('det<s_cidx, bool, %s>' % M, 1); add('det<s_idx, %s::reference, %s>' % (M, M), 1)
        add('std::is_default_constructible_v<%s::reference>' % V, 0); add('std::is_copy_constructible_v<%s::reference>' % V, 0)
        add('std::is_convertible_v<%s::reference, %s>' % (V, T), 1)
        add('ok<r_set, %s::reference, %s>' % (V, T), 1); add('ok<a_set, %s::reference, %s>' % (V, T), 0)
        # operators with itself
        for o in ('add', 'sub', 'mul', 'div'):
            add('det<o_%s, %s, %s, %s>' % (o, V, V, V), 1); add('det<a_%s, %s&, %s, %s>' % (o, V, V, V), 1)
        for o in ('mod', 'and', 'or', 'xor', 'shl', 'shr'):
            add('det<o_%s, %s, %s, %s>' % (o, V, V, V), 2 if fp else 1); add('det<a_%s, %s&, %s, %s>' % (o, V, V, V), 2 if fp else 1)
        for o in ('shl', 'shr'): add('det<o_%s, %s, %s, int>' % (o, V, V), 2 if fp else 1)
        for o in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'): add('det<o_%s, %s, %s, %s>' % (o, M, V, V), 1)
        for o in ('land', 'lor', 'and', 'or', 'xor', 'eq', 'ne'): add('det<o_%s, %s, %s, %s>' % (o, M, M, M), 1)
        for o in ('land', 'lor'): add('ok<o_%s, %s, %s>' % (o, V, V), 0)
        for o in ('lt', 'add', 'shl'): add('ok<o_%s, %s, %s>' % (o, M, M), 0)
        for o in ('and', 'or', 'xor'): add('det<a_%s, %s&, %s, %s>' % (o, M, M, M), 1)
        add('det<u_not, %s, %s>' % (M, V), 1); add('det<u_not, %s, %s>' % (M, M), 1); add('det<u_inv, %s, %s>' % (V, V), 2 if fp else 1); add('det<u_neg, %s, %s>' % (V, V), 1); add('det<u_pos, %s, %s>' % (V, V), 1)
        add('det<u_inc, %s&, %s>' % (V, V), 1); add('det<u_pinc, %s, %s>' % (V, V), 1); add('det<u_dec, %s&, %s>' % (V, V), 1); add('det<u_pdec, %s, %s>' % (V, V), 1)
        add('ok<ca_add, %s>' % V, 0); add('ok<ca_inc, %s>' % V, 0); add('ok<u_neg, %s>' % M, 0); add('ok<u_inc, %s>' % M, 0)
        # broadcast, mixed operators, generator
        for u in (C.ALLT if full or kind in ('native', 'fixed') else rnd.sample(C.ALLT, 5)):
            b = broadcastable(u, t)
            add('std::is_convertible_v<%s, %s>' % (CT[u], V), b)
            add('std::is_constructible_v<%s, %s>' % (V, CT[u]), b)
            o = rnd.choice(['add', 'sub', 'mul', 'div'] + ([] if fp else ['mod', 'and', 'or', 'xor']))
            add('det<o_%s, %s, %s, %s>' % (o, V, V, CT[u]), 1 if b else 2); add('det<o_%s, %s, %s, %s>' % (o, V, CT[u], V), 1 if b else 2)
            add('det<a_%s, %s&, %s, %s>' % (o, V, V, CT[u]), 1 if b else 2)
            add('det<a_set, %s&, %s, %s>' % (V, V, CT[u]), 1 if b else 2)
            o = rnd.choice(['eq', 'ne', 'lt', 'le', 'gt', 'ge'])
            add('det<o_%s, %s, %s, %s>' % (o, M, V, CT[u]), 1 if b else 2); add('det<o_%s, %s, %s, %s>' % (o, M, CT[u], V), 1 if b else 2)
            add('std::is_constructible_v<%s, %s<%s>>' % (V, rnd.choice(['Gen', 'GenStatic']), CT[u]), b); add('std::is_convertible_v<Gen<%s>, %s>' % (CT[u], V), 0)
            add('ok<w_set, %s, %s, %s>' % (M, V, CT[u]), b); add('ok<w_add, %s, %s, %s>' % (M, V, CT[u]), b)
            if not fp: add('ok<w_mod, %s, %s, %s>' % (M, V, CT[u]), b)
        add('std::is_convertible_v<bool, %s>' % V, 0); add('std::is_constructible_v<%s, bool>' % V, 0)
        add('std::is_convertible_v<ToInt, %s>' % V, 1); add('std::is_convertible_v<Struct, %s>' % V, 0); add('std::is_convertible_v<ToStruct, %s>' % V, 0); add('std::is_constructible_v<%s, std::string>' % V, 0); add('std::is_constructible_v<%s, Gen<Struct>>' % V, 0)
        if fp: add('ok<w_mod, %s, %s, %s>' % (M, V, V), 0)
        # masks
        add('std::is_convertible_v<bool, %s>' % M, 0); add('std::is_constructible_v<%s, bool>' % M, 1)
        add('std::is_convertible_v<%s, %s>' % (V, M), 0); add('std::is_constructible_v<%s, %s>' % (M, V), 0); add('std::is_convertible_v<%s, %s>' % (M, V), 0)
        for o in ('land', 'or', 'eq'): add('ok<o_%s, %s, bool>' % (o, M), 0)
        # where
        add('det<w_where, stdx::where_expression<%s, %s>, %s, %s>' % (M, V, M, V), 1); add('det<w_cwhere, stdx::const_where_expression<%s, %s>, %s, %s>' % (M, V, M, V), 1)
        add('det<w_where, stdx::where_expression<%s, %s>, %s, %s>' % (M, M, M, M), 1); add('det<w_where, stdx::where_expression<bool, %s>, bool, %s>' % (T, T), 1)
        add('ok<w_where, bool, %s>' % V, 0); add('ok<w_cset, %s, %s, %s>' % (M, V, V), 0)
        # reductions and queries
        for f, r in (('all', 'bool'), ('any', 'bool'), ('none', 'bool'), ('some', 'bool'), ('pop', 'int'), ('ffs', 'int'), ('fls', 'int')):
            add('det<q_%s, %s, %s>' % (f, r, M), 1); add('ok<q_%s, %s>' % (f, V), 0)
        for f in ('reduce', 'hmin', 'hmax'): add('det<f_%s, %s, %s>' % (f, T, V), 1)
        for f in ('min', 'max', 'clamp'): add('det<f_%s, %s, %s>' % (f, V, V), 1)
        add('det<f_minmax, std::pair<%s, %s>, %s>' % (V, V, V), 1)
        # rebind / resize
        for u in rnd.sample(C.ALLT, 4):
            if n and n > 32:
                if isint(u) and SIZE[u] == 1: add('ok<t_rebind, %s, %s>' % (CT[u], V), 1)
                else: add('ok<t_rebind, %s, %s>' % (CT[u], V), 0); continue
            for X, isx, vt in ((V, 'is_simd_v', CT[u]), (M, 'is_simd_mask_v', 'bool')):
                r = 't_rebind<%s, %s>' % (CT[u], X)
                add('stdx::%s<%s> && %s::size() == %s && std::is_same_v<%s::value_type, %s>' % (isx, r, r, N, r, vt), 1)
            add('regular<t_rebind<%s, %s>>' % (CT[u], V), 1)
            add('std::is_same_v<t_rebind<%s, %s>::simd_type, t_rebind<%s, %s>>' % (CT[u], M, CT[u], V), 1)
        add('std::is_same_v<t_rebind<%s, %s>, %s> || %d' % (T, V, V, kind == 'deduce' and 0), 1) if kind in ('scalar',) else None
        for k in {1, 2, rnd.randint(1, mx)}:
            for X, isx, vt in ((V, 'is_simd_v', T), (M, 'is_simd_mask_v', 'bool')):
                r = 't_resize<%s, I<%d>>' % (X, k)
                add('stdx::%s<%s> && %s::size() == %d && std::is_same_v<%s::value_type, %s>' % (isx, r, r, k, r, vt), 1)
        # casts
        for u in rnd.sample(C.ALLT, 5):
            U = CT[u]; r = 'c_static<%s, %s>' % (U, V)
            add('stdx::is_simd_v<%s> && %s::size() == %s && std::is_same_v<%s::value_type, %s>' % (r, r, N, r, U), 1)
            if kind == 'fixed': add('det<c_static, fsimd<%s, %d>, %s, %s>' % (U, n, U, V), 1)
            if u == t: add('det<c_static, %s, %s, %s>' % (V, U, V), 1); add('det<c_simd, %s, %s, %s>' % (V, U, V), 1)
            add('ok<c_simd, %s, %s>' % (U, V), preserves(t, u))
            if n and n <= 32:
                W = 'fsimd<%s, %d>' % (U, n)
                add('det<c_static, %s, %s, %s>' % (W, W, V), 1); add('det<c_simd, %s, %s, %s>' % (W, W, V), 1 if preserves(t, u) else 2)
                if n < 32:
                    W2 = 'fsimd<%s, %d>' % (U, n + 1)
                    add('ok<c_static, %s, %s>' % (W2, V), 0); add('ok<c_simd, %s, %s>' % (W2, V), 0)
                fc = fixed_convertible(t, u)
                if kind == 'fixed':
                    if fc is not None:
                        add('std::is_convertible_v<%s, %s>' % (V, W), fc); add('std::is_constructible_v<%s, %s>' % (W, V), fc)
                    rc = fixed_convertible(u, t)
                    if u != t and fc is not None and rc is not None:
                        both = (V, 1) if rc and not fc else (W, 1) if fc and not rc else (V, 2)
                        add('det<o_add, %s, %s, %s>' % (both[0], V, W), both[1]); add('det<o_lt, %s::mask_type, %s, %s>' % (both[0], V, W), both[1])
                    add('std::is_convertible_v<%s, %s::mask_type>' % (M, W), 1)
                    if n < 32: add('std::is_convertible_v<%s, fsimd<%s, %d>>' % (V, U, n + 1), 0); add('std::is_constructible_v<fixed_size_simd_mask<%s, %d>, %s>' % (U, n + 1, M), 0)
                elif u != t and kind == 'native' and n > 1:
                    add('std::is_convertible_v<%s, %s>' % (V, W), 0); add('std::is_constructible_v<%s, %s>' % (V, W), 0); add('ok<o_add, %s, %s>' % (V, W), 0)
        if n and n <= 32:
            add('det<c_tofix, fsimd<%s, %d>, %s>' % (T, n, V), 1); add('det<c_tofix, fixed_size_simd_mask<%s, %d>, %s>' % (T, n, M), 1)
        if kind == 'fixed':
            add('det<c_tonative, native_simd<%s>, %s>' % (T, V), 1 if n == nat else 2)
            add('ok<c_tocompat, %s> == (simd<%s>::size() == %d)' % (V, T, n), 1)
        # split, concat
        if n and n >= 2:
            a = rnd.randint(1, n - 1)
            add('det<c_splitn, std::tuple<dsimd<%s, %d>, dsimd<%s, %d>>, %s, I<%d>, I<%d>>' % (T, a, T, n - a, V, a, n - a), 1)
            add('ok<c_splitn, %s, I<%d>, I<%d>>' % (V, a, n - a + 1), 0)
            d = rnd.choice([k for k in range(1, n + 1) if n % k == 0])
            for X in ('fsimd<%s, %d>' % (T, d), 'dsimd<%s, %d>' % (T, d)):
                add('det<c_splitv, std::array<%s, %d>, %s, %s>' % (X, n // d, X, V), 1)
            nd = [k for k in range(2, n) if n % k]
            if nd: add('ok<c_splitv, fsimd<%s, %d>, %s>' % (T, rnd.choice(nd), V), 0)
            uu = rnd.choice([x for x in C.ALLT if x != t])
            add('ok<c_splitv, fsimd<%s, 1>, %s>' % (CT[uu], V), 0)
        if n and n < mx:
            k = rnd.randint(1, mx - n)
            add('det<c_concat, dsimd<%s, %d>, %s, fsimd<%s, %d>>' % (T, n + k, V, T, k), 1)
        # loads and stores
        for u in rnd.sample(C.ALLT, 3):
            for f in ('stdx::element_aligned_tag', 'stdx::vector_aligned_tag', 'stdx::overaligned_tag<64>'):
                add('det<l_from, void, %s, const %s*, %s>' % (V, CT[u], f), 1); add('det<l_to, void, %s, %s*, %s>' % (V, CT[u], f), 1)
                add('std::is_constructible_v<%s, const %s*, %s>' % (V, CT[u], f), 1)
                add('det<l_wfrom, void, %s, %s, const %s*, %s>' % (M, V, CT[u], f), 1); add('det<l_wto, void, %s, %s, %s*, %s>' % (M, V, CT[u], f), 1)
            add('ok<l_to, %s, const %s*, stdx::element_aligned_tag>' % (V, CT[u]), 0)
            for f in ('int', 'void*', T): add('ok<l_from, %s, const %s*, %s>' % (V, CT[u], f), 0); add('ok<l_to, %s, %s*, %s>' % (V, CT[u], f), 0); add('std::is_constructible_v<%s, const %s*, %s>' % (V, CT[u], f), 0)
            add('ok<l_from, %s, const %s*, stdx::element_aligned_tag>' % (M, CT[u]), 0)
            add('ok<l_wfrom, %s, %s, const %s*, int>' % (M, V, CT[u]), 0)
        for u in ('bool', 'Struct', 'Enum', 'void*', 'char*'): add('ok<l_from, %s, const %s*, stdx::element_aligned_tag>' % (V, u), 0); add('ok<l_to, %s, %s*, stdx::element_aligned_tag>' % (V, u), 0); add('std::is_constructible_v<%s, %s*, stdx::element_aligned_tag>' % (V, u), 0); add('ok<l_wto, %s, %s, %s*, stdx::element_aligned_tag>' % (M, V, u), 0)
        add('det<l_from, void, %s, const bool*, stdx::element_aligned_tag>' % M, 1); add('det<l_to, void, %s, bool*, stdx::vector_aligned_tag>' % M, 1); add('ok<l_from, %s, const bool*, int>' % M, 0)
        add('std::is_constructible_v<%s, const bool*, stdx::element_aligned_tag>' % M, 1); add('std::is_constructible_v<%s, const int*, stdx::element_aligned_tag>' % M, 0); add('std::is_constructible_v<%s, const bool*, int>' % M, 0)
        # math
        for f in ('abs fabs sqrt sin cos tan asin acos atan exp exp2 expm1 log log2 log10 log1p logb ilogb ceil floor trunc round lround llround nearbyint rint lrint llrint cbrt erf erfc tgamma lgamma sinh cosh tanh asinh acosh atanh isfinite isinf isnan isnormal signbit fpclassify'.split() if full or kind in ('native', 'fixed') else rnd.sample(['sin', 'sqrt', 'ilogb', 'lrint', 'isnan', 'fpclassify', 'abs', 'floor', 'llround', 'signbit', 'tgamma'], 6)):
            if n is None: continue
            if f in ('ilogb', 'fpclassify'): r = 'fsimd<int, %d>' % n
            elif f in ('lround', 'lrint'): r = 'fsimd<long, %d>' % n
            elif f in ('llround', 'llrint'): r = 'fsimd<long long, %d>' % n
            elif f in ('isfinite', 'isinf', 'isnan', 'isnormal', 'signbit'): r = M
            else: r = V
            if n > 32: continue
            if fp: add('det<m_%s, %s, %s>' % (f, r, V), 1)
            elif f == 'abs': add('det<m_abs, %s, %s>' % (V, V), 1 if t not in UNSIGNED else 2)
        if fp:
            for f in ('atan2', 'pow', 'fmod', 'remainder', 'copysign', 'nextafter', 'fdim', 'fmax', 'fmin', 'hypot', 'isgreater', 'isgreaterequal', 'isless', 'islessequal', 'islessgreater', 'isunordered'):
                r = M if f.startswith('is') else V
                add('det<m_%s, %s, %s, %s>' % (f, r, V, V), 1)
                add('det<m_%s, %s, %s, %s>' % (f, r, V, T), 1); add('det<m_%s, %s, %s, %s>' % (f, r, T, V), 1)
            if n: 
                for f in ('ldexp', 'scalbn'): add('det<m_%s, %s, %s, fsimd<int, %d>>' % (f, V, V, n), 1); add('det<m_%s, %s, %s, int>' % (f, V, V), 1)
                add('det<m_scalbln, %s, %s, fsimd<long, %d>>' % (V, V, n), 1)
                add('det<m_frexp, %s, %s, fsimd<int, %d>>' % (V, V, n), 1); add('det<m_modf, %s, %s, %s>' % (V, V, V), 1); add('det<m_remquo, %s, %s, fsimd<int, %d>>' % (V, V, n), 1)
            add('det<m_fma, %s, %s>' % (V, V), 1); add('det<m_hypot3, %s, %s>' % (V, V), 1)
    return [x for x in q if x]

def general():
    q = []
    add = lambda e, w: q.append((e, int(w)))
    for f in ('stdx::element_aligned_tag', 'stdx::vector_aligned_tag', 'stdx::overaligned_tag<4>', 'stdx::overaligned_tag<64>'): add('stdx::is_simd_flag_type_v<%s>' % f, 1)
    for f in ('int', 'void*', 'abi::scalar', 'simd<int>', 'Struct'): add('stdx::is_simd_flag_type_v<%s>' % f, 0); add('stdx::is_simd_v<%s>' % f, f == 'simd<int>'); add('stdx::is_abi_tag_v<%s>' % f, f == 'abi::scalar')
    for a in ('abi::scalar', 'abi::fixed_size<1>', 'abi::fixed_size<32>', 'abi::native<float>', 'abi::compatible<int>', 'ded<short, 3>'): add('stdx::is_abi_tag_v<%s>' % a, 1)
    for t in ('bool', 'Enum', 'EnumClass', 'Struct', 'void*', 'std::string', 'std::nullptr_t'):
        for a in ('abi::scalar', 'abi::fixed_size<4>', 'abi::native<int>'): add('disabled<simd<%s, %s>>' % (t, a), 1); add('disabled<simd_mask<%s, %s>>' % (t, a), 1); add('ok<t_size, %s, %s>' % (t, a), 0)
        add('ok<t_ded, %s, I<4>>' % t, 0)
    for f, r in (('all', 'bool'), ('any', 'bool'), ('none', 'bool'), ('some', 'bool'), ('pop', 'int'), ('ffs', 'int'), ('fls', 'int')): add('det<q_%s, %s, bool>' % (f, r), 1)
    for f in ('all', 'any', 'pop'): add('ok<q_%s, int>' % f, 0); add('ok<q_%s, void*>' % f, 0); add('ok<q_%s, float>' % f, 0)
    return q

def compile_run(env, name, isa, probes, std, extra=()):
    """Returns (values {id: value}, hard errors {id: message}) or raises CheckError."""
    d = os.path.join(env.dir, name); os.makedirs(d, exist_ok=True)
    src, exe = os.path.join(d, 'p.cpp'), os.path.join(d, 'p')
    hard = {}
    skipped = set()
    for rnd in range(12):
        pre = PRE; first = pre.count('\n') + 1
        live = [i for i in range(len(probes)) if i not in hard]
        open(src, 'w').write(pre + ''.join('{%d, long(%s)},\n' % (i, probes[i][0]) for i in live) + POST)
        rc, out, err = core.sh(['g++', '-std=' + std, '-O0', '-w', '-fmax-errors=200', '-ftemplate-backtrace-limit=0'] + C.ISA[isa][0] + list(extra) + ['-I' + core.REPO, src, '-o', exe], timeout=max(60, min(800, env.left() + 60)))
        if rc == 0: break
        if core.resource_problem(rc, err): 
            if env.left() < 60: return None, None
            raise core.CheckError('compiler failed for lack of resources: ' + err[-300:])
        # attribute each error to the probe line(s) named in its instantiation trace
        found = {}
        ctx = []
        for l in err.splitlines():
            if re.match(r'.*: In (static |member |function|instantiation|substitution|lambda|constructor)|.*: At global', l): ctx = []
            ctx.append(l)
            if re.search(r': (fatal )?error: ', l):
                ls = [int(m) for c in ctx for m in re.findall(re.escape(src) + r':(\d+):', c)]
                ls = [x for x in ls if first <= x < first + len(live)]
                if ls: found.setdefault(live[ls[-1] - first], l)
                ctx = [] if not ls else ctx
        if not found:
            m = re.search(r'^.*error:.*$', err, re.M)
            raise core.CheckError('probe program does not compile: ' + (m.group(0) if m else err[-300:]))
        hard.update(found)
    else:
        raise core.CheckError('probe program does not compile')
    rc, out, err = core.sh([exe], timeout=60)
    # static data only; runs on every CPU
    vals = dict((int(a), int(b)) for a, b in (l.split() for l in out.splitlines()))
    if rc or len(vals) != len(live): raise core.CheckError('probe program failed')
    shutil.rmtree(d, ignore_errors=True)
    return vals, hard

def c15(env):
    quick = env.tier == 'quick'
    tasks = []
    isas = C.QUICK_ISAS if quick else list(C.ISA)
    if os.environ.get('VERIF_ISAS'): isas = os.environ['VERIF_ISAS'].split(',')
    for isa in isas:
        rnd = random.Random('%d/%s' % (env.seed, isa))
        ts = C.ALLT if not quick or isa in ('skx', 'sse2', 'avx2') else rnd.sample(C.ALLT, 8)
        if os.environ.get('VERIF_TYPES'): ts = os.environ['VERIF_TYPES'].split(',')
        for t in ts:
            for rep in range(1 if quick else 6):
                r2 = random.Random('%d/%s/%s/%d' % (env.seed, isa, t, rep))
                std = r2.choice(['gnu++17', 'c++17', 'gnu++20', 'c++20'])
                tasks.append(('%s-%s-%d' % (isa, t, rep), isa, t, gen(isa, t, r2, not quick), std))
        tasks.append(('%s-general' % isa, isa, '', general(), 'gnu++17'))
    fails, errors, n, skipped = [], [], 0, 0
    seen = set(); samples = []
    def one(x):
        name, isa, t, probes, std = x
        if env.left() < 30: return x, None, None
        try: v, h = compile_run(env, name, isa, probes, std)
        except core.CheckError as e: return x, None, str(e)
        return x, v, h
    with cf.ThreadPoolExecutor(core.NPROC) as ex:
        for (name, isa, t, probes, std), v, h in ex.map(one, tasks):
            if v is None:
                if h: errors.append(name + ': ' + h)
                else: skipped += 1
                continue
            for i, (e, want) in enumerate(probes):
                n += 1; seen.add((isa, e))
                if i in h: fails.append((dict(kind='probe', op='probe', T=t, U='', abi='', isa=isa, why='hard error instead of a value: ' + h[i][:300], inputs='%s (expected %d) -std=%s' % (e, want, std)), None))
                elif v[i] != want: fails.append((dict(kind='probe', op='probe', T=t, U='', abi='', isa=isa, why='%s == %d, expected %d' % (e, v[i], want), inputs='-std=' + std), None))
            if len(samples) < 12 and probes: samples.append('[%s] %s == %d' % ((isa,) + probes[len(samples) * 37 % len(probes)]))
    cov = dict(evaluations=n, distinct_nontrivial=len(seen), samples=samples, programs=len(tasks), programs_skipped_for_time=skipped,
               rule='a case is one compile-time expression over generated types, widths, argument types and instruction sets whose value (or ill-formedness in a SFINAE context) is predicted by the model in vlib/probes.py; distinct by instruction set and expression.')
    return core.finish(env, fails, cov, errors)
