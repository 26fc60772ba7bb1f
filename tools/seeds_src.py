#!/usr/bin/env python3
"""Sources of the planted bugs: python3 tools/seeds_src.py [ID...] regenerates seeded/<id>/ against /repo HEAD."""
import sys
from mkseed import seed
S = []
def add(*a): S.append(a)
OPQ = 'template <class T> T opq(T x) { asm volatile("" : "+m"(x)); return x; }\n'
add('c01-shl-uchar-sse41', 'C01', [('simd_x86.h', '''		  __to_intrin(__mask), __to_intrin(__x), __to_intrin(__x1)));
		return __x
		       & ((__y & char(0xf8)) == 0); // y > 7 nulls the result''', '''		  __to_intrin(__mask), __to_intrin(__x), __to_intrin(__x1)));
		return __x
		       & ((__y & char(0xe8)) == 0); // y > 7 nulls the result''')],
 OPQ + '''using V = stdx::simd<unsigned char, stdx::simd_abi::deduce_t<unsigned char, 16>>;
int main() {
  for (int s = 0; s < 32; ++s) {
    unsigned char m[16], c[16];
    for (int i = 0; i < 16; ++i) { m[i] = 3 + 17 * i; c[i] = (i % 3) ? s : 0; }
    V x(opq(m), stdx::element_aligned), y(opq(c), stdx::element_aligned);
    V r = x << y;
    for (int i = 0; i < 16; ++i) CHECK(r[i] == (unsigned char)(m[i] << c[i]));
  }
  return bad;
}
''', '-O2 -march=x86-64-v2', 'SSE4.1 without AVX-512, 8-bit elements shifted by a per-element count of 16..23 (valid because operands are promoted to int)',
 'operator<< of 8-bit vectors returns x << (count & 7) instead of 0 for counts 16 to 23')
add('c09-fixed-reduce-tail', 'C09', [('simd_fixed_size.h', '[](auto __j) constexpr { return __j < _RT::size(); });', '[](auto __j) constexpr { return __j <= _RT::size(); });')],
 OPQ + '''template <class T, int N> void test() {
  T m[N]; T s = 1;
  for (int i = 0; i < N; ++i) { m[i] = T(1 + i % 2); s *= m[i]; }
  struct A { T m[N]; } a; std::memcpy(a.m, m, sizeof m); a = opq(a);
  stdx::fixed_size_simd<T, N> v(a.m, stdx::element_aligned);
  CHECK(stdx::reduce(v, std::multiplies<>()) == s);
}
int main() { test<float, 7>(); test<float, 11>(); test<float, 13>(); test<float, 15>(); test<double, 13>(); test<int, 7>(); test<int, 11>(); test<short, 13>(); test<short, 15>(); test<long, 7>(); return bad; }
''', '-O2 -march=x86-64', 'fixed_size width whose last register is smaller than its neighbour but has more than two elements', 'reduce counts one element of the left register twice')
add('c03-any-of-padding', 'C03', [('simd_x86.h', '''		if constexpr (_Abi::template _S_is_partial<
				_Tp> || sizeof(__k) < 16)
		  {
		    _GLIBCXX_SIMD_USE_CONSTEXPR _TI __b
		      = _Abi::template _S_implicit_mask_intrin<_Tp>();
		    return 0 == __testz(__a, __b);''', '''		if constexpr (sizeof(__k) < 16)
		  {
		    _GLIBCXX_SIMD_USE_CONSTEXPR _TI __b
		      = _Abi::template _S_implicit_mask_intrin<_Tp>();
		    return 0 == __testz(__a, __b);''')],
 OPQ + '''using V = stdx::simd<int, stdx::simd_abi::deduce_t<int, 3>>;
int main() {
  int a = opq(1);
  V x([&](int i) { return a + i; }), y([&](int i) { return a + 5 + i; });
  CHECK(!any_of(x == y));
  CHECK(any_of(x == x));
  return bad;
}
''', '-O2 -march=x86-64-v2', 'a partially filled register whose mask has set bits in the padding, e.g. from comparing two vectors with equal padding', 'any_of returns true although no element is true')
add('c12-fpclassify-norm-min', 'C12', [('simd_builtin.h', '''	__tmp = __xn < __minn
  #ifdef __FAST_MATH__''', '''	__tmp = __xn <= __minn
  #ifdef __FAST_MATH__''')],
 OPQ + '''template <class T> void test() {
  using V = stdx::native_simd<T>;
  for (T x : {std::numeric_limits<T>::min(), -std::numeric_limits<T>::min(), T(1), std::numeric_limits<T>::denorm_min(), T(0)}) {
    V v = opq(x);
    auto r = fpclassify(v);
    CHECK(all_of(r == std::fpclassify(x)));
  }
}
int main() { test<float>(); test<double>(); return bad; }
''', '-O2 -march=x86-64-v3', 'an element equal to the smallest normal number, without AVX-512DQ', 'fpclassify reports FP_SUBNORMAL for the smallest normal number')
add('c13-hypot-mixed-subnormal', 'C13', [('simd_math.h', '''	    _V __h1 = __hi * __scale; // no error
	    _V __l1 = __lo * __scale; // no error

	    // sqrt(x²+y²) = e*sqrt((x/e)²+(y/e)²):''', '''	    _V __h1 = __hi * __scale; // no error
	    _V __l1 = (__lo & ~(__lo < __norm_min_v<_Tp>).__cvt()) * __scale;

	    // sqrt(x²+y²) = e*sqrt((x/e)²+(y/e)²):''')], None, '', '', '')
S.pop()
add('c13-hypot-scale-subnormal', 'C13', [('simd_math.h', '''	    // adjust final exponent for subnormal inputs
	    _V __hi_exp = __norm_min_v<_Tp>;
	    where(__hi >= __norm_min_v<_Tp>, __hi_exp)
	      = __hi & __inf;         // no error
	    _V __h1 = __hi * __scale; // no error''', '''	    // adjust final exponent for subnormal inputs
	    _V __hi_exp = __norm_min_v<_Tp>;
	    where(__hi > __norm_min_v<_Tp> * 2, __hi_exp)
	      = __hi & __inf;         // no error
	    _V __h1 = __hi * __scale; // no error''')],
 OPQ + '''template <class T> void test() {
  using V = stdx::native_simd<T>;
  const T m = std::numeric_limits<T>::min();
  for (T x : {m * T(2), m, m * T(1.5), m / 2, m * 3}) {
    V r = hypot(V(opq(x)), V(opq(m / 8)));
    T w = std::hypot(x, m / 8);
    for (size_t i = 0; i < V::size(); ++i) CHECK(std::abs(r[i] - w) <= 2 * std::numeric_limits<T>::denorm_min());
  }
}
int main() { test<float>(); test<double>(); return bad; }
''', '-O2 -march=x86-64-v3', 'hypot where one argument is subnormal (slow path) and the larger one is exactly twice the smallest normal number', 'hypot returns half of the correct value')
add('c18-modulus-64bit-padding', 'C18', [('simd_builtin.h', '''	if constexpr (!_Abi::template _S_is_partial<_Tp>)
	  return __x._M_data % __y._M_data;''', '''	if constexpr (!_Abi::template _S_is_partial<_Tp> || sizeof(_Tp) == 8)
	  return __x._M_data % __y._M_data;''')],
 OPQ + '''using V = stdx::simd<long, stdx::simd_abi::deduce_t<long, 3>>;
int main() {
  V x, y; // all bits zero, then the elements are assigned
  std::memset(&x, 0, sizeof x); std::memset(&y, 0, sizeof y);
  x = opq(x); y = opq(y);
  for (int i = 0; i < 3; ++i) x[i] = opq(100l + i), y[i] = opq(7l + i);
  V r = opq(V(x % y));
  for (int i = 0; i < 3; ++i) CHECK(r[i] == (100 + i) % (7 + i));
  return bad;
}
''', '-O2 -march=x86-64-v3', 'operator% on a partially filled vector of 64-bit integers whose padding is zero', 'SIGFPE although every element is valid')
add('c20-logb-negative-subnormal', 'C20', [('simd_math.h', '''	const auto __is_zero = __x == 0;
	const auto __is_nan = isnan(__x);
	const auto __is_inf = isinf(__x);
	where(__is_zero, __r) = -__infinity_v<_Tp>;
	where(__is_nan, __r) = __x;
	where(__is_inf, __r) = __infinity_v<_Tp>;''', '''	const auto __is_zero = __x == 0;
	const auto __is_nan = isnan(__x);
	const auto __is_inf = isinf(__x);
	where(__is_zero, __r) = -__infinity_v<_Tp>;
	where(__is_nan, __r) = __x;
	where(__is_inf, __r) = __x;''')],
 OPQ + '''template <class T> void test() {
  using V = stdx::native_simd<T>;
  for (T x : {std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), T(0), T(-8), std::numeric_limits<T>::denorm_min()}) {
    V r = logb(V(opq(x)));
    for (size_t i = 0; i < V::size(); ++i) CHECK(r[i] == std::logb(x));
  }
}
int main() { test<float>(); test<double>(); return bad; }
''', '-O2 -march=x86-64-v3', 'logb of negative infinity without AVX-512', 'logb(-inf) is -inf instead of +inf')
add('c06-masked-store-last-part', 'C06', [('simd_builtin.h', '''		      __extract_part<_NFullStores, _NParts>(
			__k.__as_full_vector())));''', '''		      __extract_part<_NFullStores - 1, _NParts>(
			__k.__as_full_vector())));''')],
 OPQ + '''template <class T, class U, int N> void test() {
  using V = stdx::simd<T, stdx::simd_abi::deduce_t<T, N>>;
  for (unsigned bits = 0; bits < 300; bits += 7) {
    typename V::mask_type k; V v;
    for (int i = 0; i < N; ++i) { k[i] = (opq(bits) * 2654435761u >> (i + 3)) & 1; v[i] = T(i + 1); }
    U mem[N]; for (auto& x : mem) x = 77;
    where(k, v).copy_to(mem, stdx::element_aligned);
    for (int i = 0; i < N; ++i) CHECK(mem[i] == (k[i] ? U(i + 1) : U(77)));
  }
}
int main() { test<short, int, 7>(); test<short, float, 7>(); test<float, double, 3>(); test<int, double, 3>(); test<short, int, 15>(); test<int, double, 7>(); test<float, double, 7>(); return bad; }
''', '-O2 -march=x86-64-v3', 'converting masked store from a partially filled register to a wider type where the last partial store uses its own part of the mask', 'the last elements are selected by the wrong part of the mask')
add('c14-swap-scalar', 'C14', [('simd.h', '''      value_type __tmp(__a);
      static_cast<_SmartReference&&>(__a) = std::move(__b);
      __b = std::move(__tmp);''', '''      static_cast<_SmartReference&&>(__a) = std::move(__b);
      value_type __tmp(__a);
      __b = std::move(__tmp);''')],
 OPQ + '''int main() {
  stdx::fixed_size_simd<int, 5> v([](int i) { return i; });
  int s = opq(42);
  swap(v[3], s);
  CHECK(v[3] == 42 && s == 3);
  int q = opq(7);
  swap(q, v[0]);
  CHECK(v[0] == 7 && q == 0);
  return bad;
}
''', '-O2 -march=x86-64-v2', 'swap with an element reference as first and a scalar as second argument', 'the scalar does not receive the old element')
add('c10-clamp-equal-bounds', 'C17', [], None, '', '', '')
S.pop()
add('c05-store-narrow-last', 'C05', [('simd_builtin.h', '''	      _CommonImpl::template _S_store<(_Np - __full_stores * __vsize)
					     * sizeof(_Up)>(
		__converted[__full_stores], __mem + __full_stores * __vsize);''', '''	      _CommonImpl::_S_store(__converted[__full_stores],
				    __mem + __full_stores * __vsize);''')],
 OPQ + '''template <class T, class U, int N> void test() {
  using V = stdx::simd<T, stdx::simd_abi::deduce_t<T, N>>;
  V v([](int i) { return T(i + 1); });
  U mem[N + 32]; for (auto& x : mem) x = 77;
  v.copy_to(mem, stdx::element_aligned);
  for (int i = 0; i < N + 32; ++i) CHECK(mem[i] == (i < N ? U(i + 1) : U(77)));
}
int main() { test<short, float, 7>(); test<short, int, 7>(); test<float, double, 3>(); test<float, double, 7>(); test<short, double, 7>(); test<int, double, 3>(); test<int, double, 7>(); test<signed char, int, 11>(); return bad; }
''', '-O2 -march=x86-64-v2', 'store of a partially filled register to a wider memory type that needs more than one store', 'writes past the last element')
add('c11-fdim-fixed-tail', 'C11', [], None, '', '', '')
S.pop()
add('c07-uint-fixed-bitcast', 'C07', [('simd_converter.h', '''      else if constexpr (sizeof(_From) == sizeof(_To)
			 && is_integral_v<_From> && is_integral_v<_To>)
	return __bit_cast<_Ret>(__x);

      // special case if all ABI tags in _Ret are scalar''', '''      else if constexpr (sizeof(_From) == sizeof(_To)
			 && is_signed_v<_From> == is_signed_v<_To>)
	return __bit_cast<_Ret>(__x);

      // special case if all ABI tags in _Ret are scalar''')], None, '', '', '')
S.pop()
add('c08-split-quarters', 'C08', [('simd.h', '''	  return {{__private_init, __extract_part<0, 3>(__data(__x))},
		  {__private_init, __extract_part<1, 3, 2>(__data(__x))}};''', '''	  return {{__private_init, __extract_part<0, 3>(__data(__x))},
		  {__private_init, __extract_part<0, 3, 2>(__data(__x))}};''')],
 OPQ + '''template <class T, int A, int B> void test() {
  using V = stdx::simd<T, stdx::simd_abi::deduce_t<T, A + B>>;
  T o = opq(T(1));
  V v([&](int i) { return T(i + o); });
  auto [a, b] = stdx::split<A, B>(v);
  for (int i = 0; i < A; ++i) CHECK(a[i] == T(i + 1));
  for (int i = 0; i < B; ++i) CHECK(b[i] == T(A + i + 1));
}
int main() { test<short, 2, 4>(); test<float, 2, 4>(); test<int, 2, 4>(); test<signed char, 4, 8>(); test<signed char, 2, 4>(); test<short, 4, 8>(); return bad; }
''', '-O2 -march=x86-64-v3', 'split into one third and two thirds of a partially filled register', 'the second piece repeats the first elements')
add('c04-masked-assign-fixed', 'C04', [('simd_builtin.h', '''	if (__k._M_is_constprop_none_of())
	  return;
	else if (__k._M_is_constprop_all_of())
	  __lhs = __rhs;
	else
	  __lhs = _CommonImpl::_S_blend(__k, __lhs, __rhs);''', '''	if (__k._M_is_constprop_none_of())
	  return;
	else if (__k._M_is_constprop())
	  __lhs = __rhs;
	else
	  __lhs = _CommonImpl::_S_blend(__k, __lhs, __rhs);''')],
 OPQ + '''using V = stdx::native_simd<float>;
int main() {
  V v = opq(1.f), w = opq(2.f);
  V::mask_type k(true); k[1] = false;
  where(k, v) = w;
  for (size_t i = 0; i < V::size(); ++i) CHECK(v[i] == (i != 1 ? 2.f : 1.f));
  return bad;
}
''', '-O2 -march=x86-64-v3', 'where with a mask the compiler knows at compile time', 'every element is assigned')
add('c02-less-equal-uchar-avx512', 'C02', [('simd_x86.h', '''		  return _mm512_mask_cmplt_epu16_mask(__k1, __xi, __yi);''', '''		  return _mm512_mask_cmplt_epi16_mask(__k1, __xi, __yi);''')],
 OPQ + '''using V = stdx::native_simd<unsigned short>;
int main() {
  V a = opq((unsigned short)1), b = opq((unsigned short)40000);
  CHECK(all_of(a < b)); CHECK(none_of(b < a)); CHECK(all_of(b > a));
  return bad;
}
''', '-O2 -march=skylake-avx512', 'AVX-512BW, full registers of unsigned short, values on both sides of 32768', 'unsigned comparison is done signed')
add('c19-atan2-order-fixed', 'C19', [], None, '', '', '')
S.pop()
if __name__ == '__main__':
    for s in S:
        if not sys.argv[1:] or s[0] in sys.argv[1:]: seed(*s)
    print(len(S))
