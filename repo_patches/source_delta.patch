From 44c47ea9025cd7aed576bc3758de2ef4d3a472c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 01/46] fix: padding of integer divisors must not be -1

__make_padding_nonzero set all padding bits, i.e. the divisor was -1 in the
padding. The padding of the dividend can hold the most negative value, in which
case the quotient is not representable and the division instruction traps.
---
 experimental/bits/simd_builtin.h | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index f048c07..cdf2eb8 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -1042,18 +1042,14 @@ template <int _UsedBytes>
 	  {
 	    _GLIBCXX_SIMD_USE_CONSTEXPR auto __implicit_mask
 	      = __vector_bitcast<_Tp>(_S_implicit_mask<_Tp>());
-	    if constexpr (is_integral_v<_Tp>)
-	      return __or(__x, ~__implicit_mask);
-	    else
-	      {
-		_GLIBCXX_SIMD_USE_CONSTEXPR auto __one
-		  = __andnot(__implicit_mask,
-			     __vector_broadcast<_S_full_size<_Tp>>(_Tp(1)));
-		// it's not enough to return `x | 1_in_padding` because the
-		// padding in x might be inf or nan (independent of
-		// __FINITE_MATH_ONLY__, because it's about padding bits)
-		return __or(__and(__x, __implicit_mask), __one);
-	      }
+	    _GLIBCXX_SIMD_USE_CONSTEXPR auto __one
+	      = __andnot(__implicit_mask,
+			 __vector_broadcast<_S_full_size<_Tp>>(_Tp(1)));
+	    // it's not enough to return `x | 1_in_padding` because the
+	    // padding in x might be inf or nan (independent of
+	    // __FINITE_MATH_ONLY__, because it's about padding bits) or -1 (the
+	    // dividend's padding might be the most negative value)
+	    return __or(__and(__x, __implicit_mask), __one);
 	  }
       }
     // }}}
@@ -1194,7 +1190,16 @@ template <int _UsedBytes>
 	  {
 	    constexpr size_t _Np = _S_size<_Tp>;
 	    if constexpr (is_integral_v<typename _TVT::value_type>)
-	      return __x
+	      // not only nonzero but also not -1 (the dividend's padding might be
+	      // the most negative value)
+	      return (__x
+		      & __generate_vector<_Tp, _S_full_size<_Tp>>(
+			[](auto __i) -> _Tp {
+			  if (__i < _Np)
+			    return ~_Tp();
+			  else
+			    return 0;
+			}))
 		     | __generate_vector<_Tp, _S_full_size<_Tp>>(
 		       [](auto __i) -> _Tp {
 			 if (__i < _Np)
-- 
2.43.0


From 43c2a2f2e278e9dc12a3e484870d5db45cec0943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 02/46] fix: SSE left shift of 16-bit elements by 16 or more

Counts above 15 produce a 2^y factor that does not fit 16 bits; the factor of the
even element spilled into the factor of its odd neighbor.
---
 experimental/bits/simd_x86.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index d6dda28..092ef61 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -1760,10 +1760,13 @@ template <typename _Abi>
 		using _UInt4 = __vector_type_t<unsigned, 4>;
 		const _UInt4 __yu
 		  = reinterpret_cast<_UInt4>(__to_intrin(__y + (0x3f8 >> 3)));
+		// the even factors need to be masked, otherwise __y >= 16 spills
+		// into the factor of the neighboring value
 		return __x
 		       * __intrin_bitcast<_V>(
-			 __vector_convert<_Int4>(_SimdWrapper<float, 4>(
-			   reinterpret_cast<_Float4>(__yu << 23)))
+			 (__vector_convert<_Int4>(_SimdWrapper<float, 4>(
+			    reinterpret_cast<_Float4>(__yu << 23)))
+			  & 0xffff)
 			 | (__vector_convert<_Int4>(_SimdWrapper<float, 4>(
 			      reinterpret_cast<_Float4>((__yu >> 16) << 23)))
 			    << 16));
-- 
2.43.0


From 2c4f3f9660adf1ebec9c1ed0b72f10c9b8b61e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 03/46] fix: SSE right shift of negative 8-bit elements by 8 or
 more

The result must be the sign (-1), as for the scalar operation, and not 0.
---
 experimental/bits/simd_x86.h | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index 092ef61..b9be501 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -1984,8 +1984,11 @@ template <typename _Abi>
 	    else if constexpr (__have_sse4_1
 			       && is_signed_v<_Up> && sizeof(__x) > 2)
 	      {
+		// y > 7 must replicate the sign bit, i.e. behave like y == 7
+		const auto __y128 = __vector_bitcast<_Up>(__iy);
+		const auto __y_sat = __y128 > 7 ? _Up(7) : __y128;
 		auto __mask = __vector_bitcast<_UChar>(
-		  __vector_bitcast<_UShort>(__iy) << 5);
+		  __vector_bitcast<_UShort>(__y_sat) << 5);
 		auto __maskl = [&]() {
 		  return __to_intrin(__vector_bitcast<_UShort>(__mask) << 8);
 		};
@@ -2015,11 +2018,9 @@ template <typename _Abi>
 		  _CommonImplX86::_S_blend_intrin(__maskl(), __to_intrin(__xl),
 						  __to_intrin(__xl1)));
 		return __intrin_bitcast<_V>(
-		  (__vector_bitcast<_Up>((__xh & short(0xff00)))
-		   | __vector_bitcast<_Up>(__vector_bitcast<_UShort>(__xl)
-					   >> 8))
-		  & ((__vector_bitcast<_Up>(__iy) & char(0xf8))
-		     == 0)); // y > 7 nulls the result
+		  __vector_bitcast<_Up>((__xh & short(0xff00)))
+		  | __vector_bitcast<_Up>(__vector_bitcast<_UShort>(__xl)
+					  >> 8));
 	      }
 	    else if constexpr (is_unsigned_v<_Up> && sizeof(__x) > 2) // SSE2
 	      {
@@ -2042,8 +2043,10 @@ template <typename _Abi>
 	    else if constexpr (sizeof(__x) > 2) // signed SSE2
 	      {
 		static_assert(is_signed_v<_Up>);
-		auto __maskh = __vector_bitcast<_UShort>(__y) << 5;
-		auto __maskl = __vector_bitcast<_UShort>(__y) << (5 + 8);
+		// y > 7 must replicate the sign bit, i.e. behave like y == 7
+		const auto __y_sat = __y > 7 ? _Up(7) : __y;
+		auto __maskh = __vector_bitcast<_UShort>(__y_sat) << 5;
+		auto __maskl = __vector_bitcast<_UShort>(__y_sat) << (5 + 8);
 		auto __xh = __vector_bitcast<short>(__x);
 		auto __xl = __vector_bitcast<short>(__x) << 8;
 		auto __xh4 = __xh >> 4;
@@ -2062,11 +2065,9 @@ template <typename _Abi>
 		auto __xl1 = __xl >> 1;
 		__xh = __maskh > 0x7fff ? __xh1 : __xh;
 		__xl = __maskl > 0x7fff ? __xl1 : __xl;
-		__x = __vector_bitcast<_Up>((__xh & short(0xff00)))
-		      | __vector_bitcast<_Up>(__vector_bitcast<_UShort>(__xl)
-					      >> 8);
-		return __x
-		       & ((__y & char(0xf8)) == 0); // y > 7 nulls the result
+		return __vector_bitcast<_Up>((__xh & short(0xff00)))
+		       | __vector_bitcast<_Up>(__vector_bitcast<_UShort>(__xl)
+					       >> 8);
 	      }
 	    else
 	      return __x >> __y;
-- 
2.43.0


From 23b221027e78973d796682627fba7e94a6aec2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 04/46] fix: SSE right shift of negative 16-bit elements by 16
 or more

The result must be the sign (-1), as for the scalar operation, and not 0.
---
 experimental/bits/simd_x86.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index b9be501..7822b8e 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -2118,10 +2118,12 @@ template <typename _Abi>
 		auto __x128 = __vector_bitcast<_Up>(__ix);
 		//__mask *= 0x0808;
 		__mask = (__mask << 3) | (__mask << 11);
-		// do __x128 = 0 where __y[4] is set
-		__x128 = __vector_bitcast<_Up>(
-		  _mm_blendv_epi8(__to_intrin(__x128), __m128i(),
-				  __to_intrin(__mask)));
+		// do __x128 = 0 (or -1 for negative values) where __y[4] is set
+		__m128i __x16 = __m128i();
+		if constexpr (is_signed_v<_Up>)
+		  __x16 = __to_intrin(__x128 >> 15);
+		__x128 = __vector_bitcast<_Up>(_mm_blendv_epi8(
+		  __to_intrin(__x128), __x16, __to_intrin(__mask)));
 		// do __x128 =>> 8 where __y[3] is set
 		__x128 = __vector_bitcast<_Up>(
 		  _mm_blendv_epi8(__to_intrin(__x128), __to_intrin(__x128 >> 8),
@@ -2146,8 +2148,11 @@ template <typename _Abi>
 		auto __mask = [](__vector_type16_t<_UShort> __kk) {
 		  return __vector_bitcast<short>(__kk) < 0;
 		};
-		// do __x128 = 0 where __y[4] is set
-		__x128 = __mask(__k) ? decltype(__x128)() : __x128;
+		// do __x128 = 0 (or -1 for negative values) where __y[4] is set
+		auto __x16 = decltype(__x128)();
+		if constexpr (is_signed_v<_Up>)
+		  __x16 = __x128 >> 15;
+		__x128 = __mask(__k) ? __x16 : __x128;
 		// do __x128 =>> 8 where __y[3] is set
 		__x128 = __mask(__k += __k) ? __x128 >> 8 : __x128;
 		// do __x128 =>> 4 where __y[2] is set
-- 
2.43.0


From efb6106344ce46dc1cbdb75137f7242fa11f12a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 05/46] fix: masked shift assignment named functions that do
 not exist

where(k, v) <<= x and where(k, v) >>= x never compiled.
---
 experimental/bits/simd.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 4c89311..da062ac 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3228,8 +3228,8 @@ template <typename _M, typename _Tp>
     _GLIBCXX_SIMD_OP_(&, _S_bit_and);
     _GLIBCXX_SIMD_OP_(|, _S_bit_or);
     _GLIBCXX_SIMD_OP_(^, _S_bit_xor);
-    _GLIBCXX_SIMD_OP_(<<, _S_shift_left);
-    _GLIBCXX_SIMD_OP_(>>, _S_shift_right);
+    _GLIBCXX_SIMD_OP_(<<, _S_bit_shift_left);
+    _GLIBCXX_SIMD_OP_(>>, _S_bit_shift_right);
 #undef _GLIBCXX_SIMD_OP_
 
     _GLIBCXX_SIMD_INTRINSIC void operator++() &&
-- 
2.43.0


From e924278d33cd580435c88b7a9e803ffc4c5b4a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 06/46] fix: hmin/hmax of a where expression with
 floating-point infinities

__FINITE_MATH_ONLY__ is always defined (to 0 or 1).
---
 experimental/bits/simd.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index da062ac..12bcbae 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3508,7 +3508,7 @@ template <typename _M, typename _V>
   {
     using _Tp = typename _V::value_type;
     constexpr _Tp __id_elem =
-#ifdef __FINITE_MATH_ONLY__
+#if __FINITE_MATH_ONLY__
       __finite_max_v<_Tp>;
 #else
       __value_or<__infinity, _Tp>(__finite_max_v<_Tp>);
@@ -3526,7 +3526,7 @@ template <typename _M, typename _V>
   {
     using _Tp = typename _V::value_type;
     constexpr _Tp __id_elem =
-#ifdef __FINITE_MATH_ONLY__
+#if __FINITE_MATH_ONLY__
       __finite_min_v<_Tp>;
 #else
       [] {
-- 
2.43.0


From 11dc66b04e9b6543acff7533f4bfecaf4f6be8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 07/46] fix: minmax for the scalar and fixed_size ABIs

simd_math calls _SimdImpl::_S_minmax, which only the builtin implementation
provided.
---
 experimental/bits/simd_fixed_size.h | 8 ++++++++
 experimental/bits/simd_scalar.h     | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/experimental/bits/simd_fixed_size.h b/experimental/bits/simd_fixed_size.h
index 9988313..91849a4 100644
--- a/experimental/bits/simd_fixed_size.h
+++ b/experimental/bits/simd_fixed_size.h
@@ -1507,6 +1507,14 @@ template <int _Np>
 	  __b);
       }
 
+    // _S_minmax {{{2
+    template <typename _Tp, typename... _As>
+      static inline constexpr
+      pair<_SimdTuple<_Tp, _As...>, _SimdTuple<_Tp, _As...>>
+      _S_minmax(const _SimdTuple<_Tp, _As...>& __a,
+		const _SimdTuple<_Tp, _As...>& __b)
+      { return {_S_min(__a, __b), _S_max(__a, __b)}; }
+
     // _S_complement {{{2
     template <typename _Tp, typename... _As>
       static inline constexpr _SimdTuple<_Tp, _As...>
diff --git a/experimental/bits/simd_scalar.h b/experimental/bits/simd_scalar.h
index 4d4fe73..6e568cb 100644
--- a/experimental/bits/simd_scalar.h
+++ b/experimental/bits/simd_scalar.h
@@ -197,6 +197,12 @@ struct _SimdImplScalar
     static constexpr inline _Tp _S_max(const _Tp __a, const _Tp __b)
     { return std::max(__a, __b); }
 
+  // _S_minmax {{{2
+  template <typename _Tp>
+    static constexpr inline pair<_Tp, _Tp>
+    _S_minmax(const _Tp __a, const _Tp __b)
+    { return {std::min(__a, __b), std::max(__a, __b)}; }
+
   // _S_complement {{{2
   template <typename _Tp>
     static constexpr inline _Tp _S_complement(_Tp __x) noexcept
-- 
2.43.0


From 092a31eeb8af5d4669d66966227f615e99385e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:16 +0000
Subject: [PATCH 08/46] fix: AVX512 integer operator!= set mask bits beyond the
 last element

---
 experimental/bits/simd_x86.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index 7822b8e..b3c3d6a 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -2326,29 +2326,29 @@ template <typename _Abi>
 		  __assert_unreachable<_Tp>();
 	      }
 	    else if constexpr (sizeof(__xi) == 64 && sizeof(_Tp) == 8)
-	      return ~_mm512_mask_cmpeq_epi64_mask(__k1, __xi, __yi);
+	      return _mm512_mask_cmpneq_epi64_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 64 && sizeof(_Tp) == 4)
-	      return ~_mm512_mask_cmpeq_epi32_mask(__k1, __xi, __yi);
+	      return _mm512_mask_cmpneq_epi32_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 64 && sizeof(_Tp) == 2)
-	      return ~_mm512_mask_cmpeq_epi16_mask(__k1, __xi, __yi);
+	      return _mm512_mask_cmpneq_epi16_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 64 && sizeof(_Tp) == 1)
-	      return ~_mm512_mask_cmpeq_epi8_mask(__k1, __xi, __yi);
+	      return _mm512_mask_cmpneq_epi8_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 32 && sizeof(_Tp) == 8)
-	      return ~_mm256_mask_cmpeq_epi64_mask(__k1, __xi, __yi);
+	      return _mm256_mask_cmpneq_epi64_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 32 && sizeof(_Tp) == 4)
-	      return ~_mm256_mask_cmpeq_epi32_mask(__k1, __xi, __yi);
+	      return _mm256_mask_cmpneq_epi32_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 32 && sizeof(_Tp) == 2)
-	      return ~_mm256_mask_cmpeq_epi16_mask(__k1, __xi, __yi);
+	      return _mm256_mask_cmpneq_epi16_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 32 && sizeof(_Tp) == 1)
-	      return ~_mm256_mask_cmpeq_epi8_mask(__k1, __xi, __yi);
+	      return _mm256_mask_cmpneq_epi8_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 16 && sizeof(_Tp) == 8)
-	      return ~_mm_mask_cmpeq_epi64_mask(__k1, __xi, __yi);
+	      return _mm_mask_cmpneq_epi64_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 16 && sizeof(_Tp) == 4)
-	      return ~_mm_mask_cmpeq_epi32_mask(__k1, __xi, __yi);
+	      return _mm_mask_cmpneq_epi32_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 16 && sizeof(_Tp) == 2)
-	      return ~_mm_mask_cmpeq_epi16_mask(__k1, __xi, __yi);
+	      return _mm_mask_cmpneq_epi16_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 16 && sizeof(_Tp) == 1)
-	      return ~_mm_mask_cmpeq_epi8_mask(__k1, __xi, __yi);
+	      return _mm_mask_cmpneq_epi8_mask(__k1, __xi, __yi);
 	    else
 	      __assert_unreachable<_Tp>();
 	  }                                                   // }}}
-- 
2.43.0


From a5d268c5e67115776b942d87cf7e5e22c3c3825e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 09/46] fix: element-wise initialization of fixed_size masks

A default-initialized mask had indeterminate unused bits. Writing all of its
elements left them as they were, so that any_of, popcount, ... saw more than
size() elements. (fixed_size masks are documented to always start out as 0.)
---
 experimental/bits/simd.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 12bcbae..1dd10b7 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -995,7 +995,8 @@ template <size_t _Np, bool _Sanitized>
 
     static constexpr _Tp _S_bitmask = +_Tp(~_Tp()) >> _S_unused_bits;
 
-    constexpr _BitMask() noexcept = default;
+    // all bits, including the unused ones, start out as 0
+    constexpr _BitMask() noexcept : _M_bits{} {}
 
     constexpr _BitMask(unsigned long long __x) noexcept
       : _M_bits{static_cast<_Tp>(__x)} {}
-- 
2.43.0


From 627cbe277c9d29401ac371dc7d47b6f9b937ecf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 10/46] fix: masked assignment from operators that return a
 vector builtin

The x86 shifts do, which made where(k, v) <<= x ill-formed.
---
 experimental/bits/simd_builtin.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index cdf2eb8..35daebf 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -2511,7 +2511,8 @@ template <typename _Abi>
 	  __lhs = __op(_SuperImpl{}, __lhs, __rhs);
 	else
 	  __lhs = _CommonImpl::_S_blend(__k, __lhs,
-					__op(_SuperImpl{}, __lhs, __rhs));
+					_SimdWrapper<_Tp, _Np>(
+					  __op(_SuperImpl{}, __lhs, __rhs)));
       }
 
     template <typename _Op, typename _Tp, typename _K, size_t _Np>
-- 
2.43.0


From de7735c1e8927f9dce520845ce5e29d88936bdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 11/46] fix: masked assignment of bool to AVX float and double
 masks

simd_mask<int, _VecBuiltin<32>> does not exist without AVX2.
---
 experimental/bits/simd_builtin.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index 35daebf..74d0149 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -2889,7 +2889,8 @@ template <typename _Abi>
 	    return;
 	  }
 	__lhs = _CommonImpl::_S_blend(__k, __lhs,
-				      __data(simd_mask<_Tp, _Abi>(__rhs)));
+				      _SuperImpl::template _S_broadcast<_Tp>(
+					__rhs));
       }
 
     //}}}2
-- 
2.43.0


From 678fdfcfe855c484855dd402dcc8ce11cf934c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 12/46] fix: AVX512 find_last_set with indeterminate bits
 beyond the last element

---
 experimental/bits/simd_x86.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index b3c3d6a..d670432 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -5164,7 +5164,7 @@ template <typename _Abi>
       _S_find_last_set(simd_mask<_Tp, _Abi> __k)
       {
 	if constexpr (__is_avx512_abi<_Abi>())
-	  return std::__bit_width(__k._M_data._M_data) - 1;
+	  return std::__bit_width(_Abi::_S_masked(__data(__k))._M_data) - 1;
 	else
 	  return _Base::_S_find_last_set(__k);
       }
-- 
2.43.0


From 25e92674102cf132da42cbeee521cc52109d5265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 13/46] fix: AVX512 masked mask load/store accessed bools
 beyond the last element

The padding bits of a mask that was written element-wise are indeterminate.
---
 experimental/bits/simd_x86.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index d670432..2cecba9 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -4459,6 +4459,7 @@ template <typename _Abi>
       {
 	if constexpr (__is_avx512_abi<_Abi>())
 	  {
+	    __mask = _Abi::_S_masked(__mask);
 	    if constexpr (__have_avx512bw_vl)
 	      {
 		if constexpr (_Np <= 16)
@@ -4694,11 +4695,12 @@ template <typename _Abi>
     template <typename _Tp, size_t _Np>
       static inline void
       _S_masked_store(const _SimdWrapper<_Tp, _Np> __v, bool* __mem,
-		      const _SimdWrapper<_Tp, _Np> __k) noexcept
+		      _SimdWrapper<_Tp, _Np> __k) noexcept
       {
 	if constexpr (__is_avx512_abi<_Abi>())
 	  {
 	    static_assert(is_same_v<_Tp, bool>);
+	    __k = _Abi::_S_masked(__k);
 	    if constexpr (_Np <= 16 && __have_avx512bw_vl)
 	      _mm_mask_storeu_epi8(__mem, __k, _mm_maskz_set1_epi8(__v, 1));
 	    else if constexpr (_Np <= 16)
-- 
2.43.0


From dfafa62fef2a63d139a4e0e89ab76d63f8f41d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:17 +0000
Subject: [PATCH 14/46] fix: masked integer division and remainder trapped on
 unselected elements

where(k, v) /= x divided all elements, so that a 0 in an element of x that is
not selected raised SIGFPE.
---
 experimental/bits/simd.h | 43 +++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 1dd10b7..c2abded 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3194,6 +3194,24 @@ template <typename _M, typename _Tp>
     _GLIBCXX_SIMD_INTRINSIC friend _Tp& __get_lvalue(where_expression& __x)
     { return __x._M_value; }
 
+    // The right operand for / and %. The elements that are not selected divide
+    // by 1, because integer division by 0 would trap.
+    template <typename _Up>
+      _GLIBCXX_SIMD_INTRINSIC _Tp
+      _M_divisor(_Up&& __x) const
+      {
+	if constexpr (is_integral_v<value_type>)
+	  {
+	    _Tp __r = value_type(1);
+	    _Impl::_S_masked_assign(__data(_M_k), __data(__r),
+				    __to_value_type_or_member_type<_Tp>(
+				      static_cast<_Up&&>(__x)));
+	    return __r;
+	  }
+	else
+	  return static_cast<_Up&&>(__x);
+      }
+
   public:
     where_expression(const where_expression&) = delete;
     where_expression& operator=(const where_expression&) = delete;
@@ -3209,28 +3227,29 @@ template <typename _M, typename _Tp>
 				  static_cast<_Up&&>(__x)));
       }
 
-#define _GLIBCXX_SIMD_OP_(__op, __name)                                        \
+#define _GLIBCXX_SIMD_OP_(__op, __name, __rhs_fn)                              \
   template <typename _Up>                                                      \
     _GLIBCXX_SIMD_INTRINSIC void operator __op##=(_Up&& __x)&&                 \
     {                                                                          \
       _Impl::template _S_masked_cassign(                                       \
 	__data(_M_k), __data(_M_value),                                        \
-	__to_value_type_or_member_type<_Tp>(static_cast<_Up&&>(__x)),          \
+	__to_value_type_or_member_type<_Tp>(                                   \
+	  __rhs_fn(static_cast<_Up&&>(__x))),                                  \
 	[](auto __impl, auto __lhs, auto __rhs) constexpr {                    \
 	return __impl.__name(__lhs, __rhs);                                    \
 	});                                                                    \
     }                                                                          \
   static_assert(true)
-    _GLIBCXX_SIMD_OP_(+, _S_plus);
-    _GLIBCXX_SIMD_OP_(-, _S_minus);
-    _GLIBCXX_SIMD_OP_(*, _S_multiplies);
-    _GLIBCXX_SIMD_OP_(/, _S_divides);
-    _GLIBCXX_SIMD_OP_(%, _S_modulus);
-    _GLIBCXX_SIMD_OP_(&, _S_bit_and);
-    _GLIBCXX_SIMD_OP_(|, _S_bit_or);
-    _GLIBCXX_SIMD_OP_(^, _S_bit_xor);
-    _GLIBCXX_SIMD_OP_(<<, _S_bit_shift_left);
-    _GLIBCXX_SIMD_OP_(>>, _S_bit_shift_right);
+    _GLIBCXX_SIMD_OP_(+, _S_plus, );
+    _GLIBCXX_SIMD_OP_(-, _S_minus, );
+    _GLIBCXX_SIMD_OP_(*, _S_multiplies, );
+    _GLIBCXX_SIMD_OP_(/, _S_divides, _M_divisor);
+    _GLIBCXX_SIMD_OP_(%, _S_modulus, _M_divisor);
+    _GLIBCXX_SIMD_OP_(&, _S_bit_and, );
+    _GLIBCXX_SIMD_OP_(|, _S_bit_or, );
+    _GLIBCXX_SIMD_OP_(^, _S_bit_xor, );
+    _GLIBCXX_SIMD_OP_(<<, _S_bit_shift_left, );
+    _GLIBCXX_SIMD_OP_(>>, _S_bit_shift_right, );
 #undef _GLIBCXX_SIMD_OP_
 
     _GLIBCXX_SIMD_INTRINSIC void operator++() &&
-- 
2.43.0


From 66af76121c886cfc1c75dbec4f8289ec04d0bb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:26 +0000
Subject: [PATCH 15/46] fix: do not access memory through unselected or padding
 elements in masked loads and stores

maskmovdqu is allowed to fault on unselected bytes, and the padding elements
of a partial mask may hold arbitrary bits.
---
 experimental/bits/simd_builtin.h | 11 ++++++-----
 experimental/bits/simd_x86.h     | 15 ++++++---------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index 74d0149..885f357 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -1559,9 +1559,10 @@ template <typename _Abi>
     template <typename _TW, typename _TVT = _VectorTraits<_TW>,
 	      typename _Tp = typename _TVT::value_type, typename _Up>
       static inline void
-      _S_masked_store(const _TW __v, _Up* __mem, const _MaskMember<_Tp> __k)
-	noexcept
+      _S_masked_store(const _TW __v, _Up* __mem, _MaskMember<_Tp> __k) noexcept
       {
+	// the stores below must not see set bits in the padding of the mask
+	__k = _Abi::_S_masked(__k);
 	constexpr size_t _TV_size = _S_size<_Tp>;
 	[[maybe_unused]] const auto __vi = __to_intrin(__v);
 	constexpr size_t __max_store_size
@@ -1597,7 +1598,7 @@ template <typename _Abi>
 	    if constexpr (_UW_size == _TV_size) // one convert+store
 	      {
 		const _UW __converted = __convert<_UW>(__v);
-		_SuperImpl::_S_masked_store_nocvt(
+		_UAbi::_SimdImpl::_S_masked_store_nocvt(
 		  __converted, __mem,
 		  _UAbi::_MaskImpl::template _S_convert<
 		    __int_for_sizeof_t<_Up>>(__k));
@@ -1612,7 +1613,7 @@ template <typename _Abi>
 		const array<_UV, _NAllStores> __converted
 		  = __convert_all<_UV, _NAllStores>(__v);
 		__execute_n_times<_NFullStores>([&](auto __i) {
-		  _SuperImpl::_S_masked_store_nocvt(
+		  _UAbi::_SimdImpl::_S_masked_store_nocvt(
 		    _UW(__converted[__i]), __mem + __i * _UW_size,
 		    _UAbi::_MaskImpl::template _S_convert<
 		      __int_for_sizeof_t<_Up>>(
@@ -1620,7 +1621,7 @@ template <typename _Abi>
 		});
 		if constexpr (_NAllStores
 			      > _NFullStores) // one partial at the end
-		  _SuperImpl::_S_masked_store_nocvt(
+		  _UAbi::_SimdImpl::_S_masked_store_nocvt(
 		    _UW(__converted[_NFullStores]),
 		    __mem + _NFullStores * _UW_size,
 		    _UAbi::_MaskImpl::template _S_convert<
diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index 2cecba9..a3adeab 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -860,6 +860,8 @@ template <typename _Abi>
 							// reinterpretation
 	)
 	  {
+	    // set bits in the padding of the mask must not access memory
+	    __k = _Abi::_S_masked(__k);
 	    [[maybe_unused]] const auto __intrin = __to_intrin(__merge);
 	    if constexpr ((__is_avx512_abi<_Abi>() || __have_avx512bw_vl)
 			  && sizeof(_Tp) == 1)
@@ -1187,8 +1189,8 @@ template <typename _Abi>
 	    else if constexpr (__have_avx && sizeof(_Tp) == 8)
 	      _mm_maskstore_pd(reinterpret_cast<double*>(__mem), __ki,
 			       __vector_bitcast<double>(__vi));
-	    else if constexpr (__have_sse2)
-	      _mm_maskmoveu_si128(__vi, __ki, reinterpret_cast<char*>(__mem));
+	    else // maskmovdqu may fault on unselected bytes
+	      _Base::_S_masked_store_nocvt(__v, __mem, __k);
 	  }
 	else if constexpr (sizeof(__v) == 32)
 	  {
@@ -1213,13 +1215,8 @@ template <typename _Abi>
 	    else if constexpr (__have_avx && sizeof(_Tp) == 8)
 	      _mm256_maskstore_pd(reinterpret_cast<double*>(__mem), __ki,
 				  __vector_bitcast<double>(__v));
-	    else if constexpr (__have_sse2)
-	      {
-		_mm_maskmoveu_si128(__lo128(__vi), __lo128(__ki),
-				    reinterpret_cast<char*>(__mem));
-		_mm_maskmoveu_si128(__hi128(__vi), __hi128(__ki),
-				    reinterpret_cast<char*>(__mem) + 16);
-	      }
+	    else // maskmovdqu may fault on unselected bytes
+	      _Base::_S_masked_store_nocvt(__v, __mem, __k);
 	  }
 	else
 	  __assert_unreachable<_Tp>();
-- 
2.43.0


From 804bc82d86737743da4cf0aa59aa79e91a787573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 16/46] fix: convert 64-bit integers to float with a single
 rounding

Summing up separately converted parts (or going via double) rounds more than
once and differs from the scalar conversion in the last bit.
---
 experimental/bits/simd_x86_conversions.h | 62 ++----------------------
 1 file changed, 4 insertions(+), 58 deletions(-)

diff --git a/experimental/bits/simd_x86_conversions.h b/experimental/bits/simd_x86_conversions.h
index 899d031..d49e6aa 100644
--- a/experimental/bits/simd_x86_conversions.h
+++ b/experimental/bits/simd_x86_conversions.h
@@ -667,9 +667,7 @@ template <typename _To, typename _V, typename _Traits>
 	  return __intrin_bitcast<_To>(_mm256_cvtepi64_ps(__intrin));
 	else if constexpr (__z_to_y && __have_avx512dq)
 	  return __intrin_bitcast<_To>(_mm512_cvtepi64_ps(__intrin));
-	else if constexpr (__z_to_y)
-	  return __intrin_bitcast<_To>(
-	    _mm512_cvtpd_ps(__convert_x86<__vector_type_t<double, 8>>(__v)));
+	// else use scalar fallback, conversion in two steps rounds twice
       }
     else if constexpr (__u64_to_f32) //{{{2
       {
@@ -679,15 +677,7 @@ template <typename _To, typename _V, typename _Traits>
 	  return __intrin_bitcast<_To>(_mm256_cvtepu64_ps(__intrin));
 	else if constexpr (__z_to_y && __have_avx512dq)
 	  return __intrin_bitcast<_To>(_mm512_cvtepu64_ps(__intrin));
-	else if constexpr (__z_to_y)
-	  {
-	    return __intrin_bitcast<_To>(
-	      __lo256(_mm512_cvtepu32_ps(__auto_bitcast(
-		_mm512_cvtepi64_epi32(_mm512_srai_epi64(__intrin, 32)))))
-		* 0x100000000LL
-	      + __lo256(_mm512_cvtepu32_ps(
-		__auto_bitcast(_mm512_cvtepi64_epi32(__intrin)))));
-	  }
+	// else use scalar fallback, conversion in two steps rounds twice
       }
     else if constexpr (__s32_to_f32) //{{{2
       {
@@ -1268,25 +1258,6 @@ template <typename _To, typename _V, typename _Traits>
 	  {
 	    if constexpr (__x_to_x)
 	      return __make_wrapper<float>(__v0[0], __v0[1], __v1[0], __v1[1]);
-	    else if constexpr (__y_to_y)
-	      {
-		static_assert(__y_to_y && __have_avx2);
-		const auto __a = _mm256_unpacklo_epi32(__i0, __i1); // aeAE cgCG
-		const auto __b = _mm256_unpackhi_epi32(__i0, __i1); // bfBF dhDH
-		const auto __lo32
-		  = _mm256_unpacklo_epi32(__a, __b); // abef cdgh
-		const auto __hi32 = __vector_bitcast<
-		  conditional_t<is_signed_v<_Tp>, int, _UInt>>(
-		  _mm256_unpackhi_epi32(__a, __b)); // ABEF CDGH
-		const auto __hi
-		  = 0x100000000LL
-		    * __convert_x86<__vector_type_t<float, 8>>(__hi32);
-		const auto __mid
-		  = 0x10000 * _mm256_cvtepi32_ps(_mm256_srli_epi32(__lo32, 16));
-		const auto __lo
-		  = _mm256_cvtepi32_ps(_mm256_set1_epi32(0x0000ffffu) & __lo32);
-		return __xzyw((__hi + __mid) + __lo);
-	      }
 	    else if constexpr (__z_to_z && __have_avx512dq)
 	      {
 		return is_signed_v<_Tp> ? __concat(_mm512_cvtepi64_ps(__i0),
@@ -1294,33 +1265,8 @@ template <typename _To, typename _V, typename _Traits>
 					: __concat(_mm512_cvtepu64_ps(__i0),
 						   _mm512_cvtepu64_ps(__i1));
 	      }
-	    else if constexpr (__z_to_z && is_signed_v<_Tp>)
-	      {
-		const __m512 __hi32 = _mm512_cvtepi32_ps(
-		  __concat(_mm512_cvtepi64_epi32(__to_intrin(__v0 >> 32)),
-			   _mm512_cvtepi64_epi32(__to_intrin(__v1 >> 32))));
-		const __m512i __lo32 = __concat(_mm512_cvtepi64_epi32(__i0),
-						_mm512_cvtepi64_epi32(__i1));
-		// split low 32-bits, because if __hi32 is a small negative
-		// number, the 24-bit mantissa may lose important information if
-		// any of the high 8 bits of __lo32 is set, leading to
-		// catastrophic cancelation in the FMA
-		const __m512 __hi16
-		  = _mm512_cvtepu32_ps(_mm512_set1_epi32(0xffff0000u) & __lo32);
-		const __m512 __lo16
-		  = _mm512_cvtepi32_ps(_mm512_set1_epi32(0x0000ffffu) & __lo32);
-		return (__hi32 * 0x100000000LL + __hi16) + __lo16;
-	      }
-	    else if constexpr (__z_to_z && is_unsigned_v<_Tp>)
-	      {
-		return __intrin_bitcast<_To>(
-		  _mm512_cvtepu32_ps(__concat(
-		    _mm512_cvtepi64_epi32(_mm512_srai_epi64(__i0, 32)),
-		    _mm512_cvtepi64_epi32(_mm512_srai_epi64(__i1, 32))))
-		    * 0x100000000LL
-		  + _mm512_cvtepu32_ps(__concat(_mm512_cvtepi64_epi32(__i0),
-						_mm512_cvtepi64_epi32(__i1))));
-	      }
+	    // else use concat fallback, summing up converted parts would round
+	    // more than once
 	  }
 	else if constexpr (__f64_to_s32) //{{{2
 	  {
-- 
2.43.0


From 36bc6a71991ef9d852a437b5cfdf7112ba5efc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:53 +0000
Subject: [PATCH 17/46] fix: resizing_simd_cast of a mask exposed indeterminate
 padding bits

---
 experimental/bits/simd.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index c2abded..b821037 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -2990,8 +2990,16 @@ template <typename _Tp, typename _Up, typename _Ap>
   enable_if_t<is_simd_mask_v<_Tp>, _Tp>
   resizing_simd_cast(const simd_mask<_Up, _Ap>& __x)
   {
-    return {__private_init, _Tp::abi_type::_MaskImpl::template _S_convert<
-			      typename _Tp::simd_type::value_type>(__x)};
+    using _TT = typename _Tp::simd_type::value_type;
+    using _Impl = typename _Tp::abi_type::_MaskImpl;
+    if constexpr (simd_size_v<_Up, _Ap> < _Tp::size()
+		    && !__is_scalar_abi<_Ap>() && !__is_fixed_size_abi_v<_Ap>)
+      // bits beyond the last element of __x are unspecified
+      return {__private_init,
+	      _Impl::template _S_convert<_TT>(simd_mask<_Up, _Ap>(
+		__private_init, _Ap::_S_masked(__data(__x))))};
+    else
+      return {__private_init, _Impl::template _S_convert<_TT>(__x)};
   }
 } // namespace __proposed
 
-- 
2.43.0


From 18485115691b14f03b47aa66b53cac78f0ce0893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:55 +0000
Subject: [PATCH 18/46] fix: to_native and to_compatible of masks and 16-bit
 elements did not compile

---
 experimental/bits/simd.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index b821037..74e72c8 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3044,16 +3044,18 @@ template <typename _Tp, int _Np>
     return {__mem, vector_aligned};
   }
 
-template <typename _Tp, size_t _Np>
+template <typename _Tp, int _Np>
   _GLIBCXX_SIMD_INTRINSIC
   enable_if_t<(_Np == native_simd_mask<_Tp>::size()), native_simd_mask<_Tp>>
   to_native(const fixed_size_simd_mask<_Tp, _Np>& __x)
   {
-    return native_simd_mask<_Tp>([&](auto __i) constexpr { return __x[__i]; });
+    return native_simd_mask<_Tp>(__private_init, [&](auto __i) constexpr {
+      return __x[__i];
+    });
   }
 
 // to_compatible {{{2
-template <typename _Tp, size_t _Np>
+template <typename _Tp, int _Np>
   _GLIBCXX_SIMD_INTRINSIC enable_if_t<(_Np == simd<_Tp>::size()), simd<_Tp>>
   to_compatible(const simd<_Tp, simd_abi::fixed_size<_Np>>& __x)
   {
@@ -3062,11 +3064,15 @@ template <typename _Tp, size_t _Np>
     return {__mem, vector_aligned};
   }
 
-template <typename _Tp, size_t _Np>
+template <typename _Tp, int _Np>
   _GLIBCXX_SIMD_INTRINSIC
   enable_if_t<(_Np == simd_mask<_Tp>::size()), simd_mask<_Tp>>
   to_compatible(const simd_mask<_Tp, simd_abi::fixed_size<_Np>>& __x)
-  { return simd_mask<_Tp>([&](auto __i) constexpr { return __x[__i]; }); }
+  {
+    return simd_mask<_Tp>(__private_init, [&](auto __i) constexpr {
+      return __x[__i];
+    });
+  }
 
 // masked assignment [simd_mask.where] {{{1
 
-- 
2.43.0


From f0a4e0426958ceb2605e597109e51c938e50505f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:09 +0000
Subject: [PATCH 19/46] fix: split of a partially filled AVX mask into two
 halves used the wrong elements

---
 experimental/bits/simd.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 74e72c8..eef43c2 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3818,7 +3818,10 @@ template <typename _V, typename _Ap,
     else if constexpr (_Parts == 1)
       return {__proposed::static_simd_cast<_V>(__x)};
     else if constexpr (_Parts == 2 && __is_sse_abi<typename _V::abi_type>()
-		       && __is_avx_abi<_Ap>())
+		       && __is_avx_abi<_Ap>()
+		       // a partially filled register isn't split at 128 bits
+		       && sizeof(typename _V::simd_type::value_type)
+			      * _V::size() == 16)
       return {_V(__private_init, __lo128(__data(__x))),
 	      _V(__private_init, __hi128(__data(__x)))};
     else if constexpr (_V::size() <= __CHAR_BIT__ * sizeof(_ULLong))
-- 
2.43.0


From 34b496c7072499af4f948904c68dbb72a94e3288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:19 +0000
Subject: [PATCH 20/46] fix: implement the declared elliptic, Bessel, beta,
 expint and zeta functions

The overloads were declared but called _SimdImpl members that do not exist.
---
 experimental/bits/simd_builtin.h    | 13 ++++++++
 experimental/bits/simd_fixed_size.h | 13 ++++++++
 experimental/bits/simd_scalar.h     | 52 +++++++++++++++++++++++++++++
 3 files changed, 78 insertions(+)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index 885f357..193e98e 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -1993,6 +1993,19 @@ template <typename _Abi>
     _GLIBCXX_SIMD_MATH_FALLBACK(erfc)
     _GLIBCXX_SIMD_MATH_FALLBACK(lgamma)
     _GLIBCXX_SIMD_MATH_FALLBACK(tgamma)
+    _GLIBCXX_SIMD_MATH_FALLBACK(beta)
+    _GLIBCXX_SIMD_MATH_FALLBACK(comp_ellint_1)
+    _GLIBCXX_SIMD_MATH_FALLBACK(comp_ellint_2)
+    _GLIBCXX_SIMD_MATH_FALLBACK(comp_ellint_3)
+    _GLIBCXX_SIMD_MATH_FALLBACK(cyl_bessel_i)
+    _GLIBCXX_SIMD_MATH_FALLBACK(cyl_bessel_j)
+    _GLIBCXX_SIMD_MATH_FALLBACK(cyl_bessel_k)
+    _GLIBCXX_SIMD_MATH_FALLBACK(cyl_neumann)
+    _GLIBCXX_SIMD_MATH_FALLBACK(ellint_1)
+    _GLIBCXX_SIMD_MATH_FALLBACK(ellint_2)
+    _GLIBCXX_SIMD_MATH_FALLBACK(ellint_3)
+    _GLIBCXX_SIMD_MATH_FALLBACK(expint)
+    _GLIBCXX_SIMD_MATH_FALLBACK(riemann_zeta)
 
     _GLIBCXX_SIMD_MATH_FALLBACK_FIXEDRET(long, lrint)
     _GLIBCXX_SIMD_MATH_FALLBACK_FIXEDRET(long long, llrint)
diff --git a/experimental/bits/simd_fixed_size.h b/experimental/bits/simd_fixed_size.h
index 91849a4..7e6c1d3 100644
--- a/experimental/bits/simd_fixed_size.h
+++ b/experimental/bits/simd_fixed_size.h
@@ -1658,6 +1658,19 @@ template <int _Np>
     _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, erfc)
     _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, lgamma)
     _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, tgamma)
+    _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, beta)
+    _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, comp_ellint_1)
+    _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, comp_ellint_2)
+    _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, comp_ellint_3)
+    _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, cyl_bessel_i)
+    _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, cyl_bessel_j)
+    _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, cyl_bessel_k)
+    _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, cyl_neumann)
+    _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, ellint_1)
+    _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, ellint_2)
+    _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, ellint_3)
+    _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, expint)
+    _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, riemann_zeta)
     _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, trunc)
     _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, ceil)
     _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, floor)
diff --git a/experimental/bits/simd_scalar.h b/experimental/bits/simd_scalar.h
index 6e568cb..a576d96 100644
--- a/experimental/bits/simd_scalar.h
+++ b/experimental/bits/simd_scalar.h
@@ -425,6 +425,58 @@ struct _SimdImplScalar
     _GLIBCXX_SIMD_INTRINSIC static _Tp _S_tgamma(_Tp __x)
     { return std::tgamma(__x); }
 
+  template <typename _Tp>
+    _GLIBCXX_SIMD_INTRINSIC static _Tp _S_beta(_Tp __x, _Tp __y)
+    { return std::beta(__x, __y); }
+
+  template <typename _Tp>
+    _GLIBCXX_SIMD_INTRINSIC static _Tp _S_comp_ellint_1(_Tp __x)
+    { return std::comp_ellint_1(__x); }
+
+  template <typename _Tp>
+    _GLIBCXX_SIMD_INTRINSIC static _Tp _S_comp_ellint_2(_Tp __x)
+    { return std::comp_ellint_2(__x); }
+
+  template <typename _Tp>
+    _GLIBCXX_SIMD_INTRINSIC static _Tp _S_comp_ellint_3(_Tp __x, _Tp __y)
+    { return std::comp_ellint_3(__x, __y); }
+
+  template <typename _Tp>
+    _GLIBCXX_SIMD_INTRINSIC static _Tp _S_cyl_bessel_i(_Tp __x, _Tp __y)
+    { return std::cyl_bessel_i(__x, __y); }
+
+  template <typename _Tp>
+    _GLIBCXX_SIMD_INTRINSIC static _Tp _S_cyl_bessel_j(_Tp __x, _Tp __y)
+    { return std::cyl_bessel_j(__x, __y); }
+
+  template <typename _Tp>
+    _GLIBCXX_SIMD_INTRINSIC static _Tp _S_cyl_bessel_k(_Tp __x, _Tp __y)
+    { return std::cyl_bessel_k(__x, __y); }
+
+  template <typename _Tp>
+    _GLIBCXX_SIMD_INTRINSIC static _Tp _S_cyl_neumann(_Tp __x, _Tp __y)
+    { return std::cyl_neumann(__x, __y); }
+
+  template <typename _Tp>
+    _GLIBCXX_SIMD_INTRINSIC static _Tp _S_ellint_1(_Tp __x, _Tp __y)
+    { return std::ellint_1(__x, __y); }
+
+  template <typename _Tp>
+    _GLIBCXX_SIMD_INTRINSIC static _Tp _S_ellint_2(_Tp __x, _Tp __y)
+    { return std::ellint_2(__x, __y); }
+
+  template <typename _Tp>
+    _GLIBCXX_SIMD_INTRINSIC static _Tp _S_ellint_3(_Tp __x, _Tp __y, _Tp __z)
+    { return std::ellint_3(__x, __y, __z); }
+
+  template <typename _Tp>
+    _GLIBCXX_SIMD_INTRINSIC static _Tp _S_expint(_Tp __x)
+    { return std::expint(__x); }
+
+  template <typename _Tp>
+    _GLIBCXX_SIMD_INTRINSIC static _Tp _S_riemann_zeta(_Tp __x)
+    { return std::riemann_zeta(__x); }
+
   template <typename _Tp>
     _GLIBCXX_SIMD_INTRINSIC static _Tp _S_trunc(_Tp __x)
     { return std::trunc(__x); }
-- 
2.43.0


From 56350cd4b0a90d968536625d43d0eb11fa95329b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:19 +0000
Subject: [PATCH 21/46] fix: sph_legendre returned the associated Legendre
 function

---
 experimental/bits/simd_math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd_math.h b/experimental/bits/simd_math.h
index 6316523..1d08f14 100644
--- a/experimental/bits/simd_math.h
+++ b/experimental/bits/simd_math.h
@@ -1477,7 +1477,7 @@ template <typename _Tp, typename _Abi>
 	       const simd<_Tp, _Abi>& theta)
   {
     return simd<_Tp, _Abi>([&](auto __i) {
-      return std::assoc_legendre(__l[__i], __m[__i], theta[__i]);
+      return std::sph_legendre(__l[__i], __m[__i], theta[__i]);
     });
   }
 
-- 
2.43.0


From 64f6e48c5042da27d320eaeff8637fb13f36e3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:19 +0000
Subject: [PATCH 22/46] fix: sin and cos of arguments beyond 2^31 returned
 garbage

The quadrant is computed with a conversion to int.
---
 experimental/bits/simd_math.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/experimental/bits/simd_math.h b/experimental/bits/simd_math.h
index 1d08f14..7879829 100644
--- a/experimental/bits/simd_math.h
+++ b/experimental/bits/simd_math.h
@@ -474,6 +474,10 @@ template <typename _Tp, typename _Abi>
 	    return static_simd_cast<_V>(
 	      cos(static_simd_cast<rebind_simd_t<double, _V>>(__x)));
 
+	if constexpr (!is_same_v<_Tp, float>) // quadrant must fit into int
+	  if (_GLIBCXX_SIMD_IS_UNLIKELY(any_of(abs(__x) > _Tp(1u << 31))))
+	    return _V([&](auto __i) { return std::cos(_Tp(__x[__i])); });
+
 	const auto __f = __fold_input(__x);
 	// quadrant | effect
 	//        0 | cosSeries, +
@@ -520,6 +524,10 @@ template <typename _Tp, typename _Abi>
 	    return static_simd_cast<_V>(
 	      sin(static_simd_cast<rebind_simd_t<double, _V>>(__x)));
 
+	if constexpr (!is_same_v<_Tp, float>) // quadrant must fit into int
+	  if (_GLIBCXX_SIMD_IS_UNLIKELY(any_of(abs(__x) > _Tp(1u << 31))))
+	    return _V([&](auto __i) { return std::sin(_Tp(__x[__i])); });
+
 	const auto __f = __fold_input(__x);
 	// quadrant | effect
 	//        0 | sinSeries
-- 
2.43.0


From 3ec079272a62a336b10edc6e6f7f4998e8d2bf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:19 +0000
Subject: [PATCH 23/46] fix: round, trunc, ceil, nearbyint and rint lost the
 sign of zero results

---
 experimental/bits/simd_builtin.h |  5 ++++-
 experimental/bits/simd_x86.h     | 18 +++++++++++++-----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index 193e98e..e67d7c7 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -2202,7 +2202,10 @@ template <typename _Abi>
       _GLIBCXX_SIMD_USE_CONSTEXPR _V __shifter_abs
 	= _V() + (1ull << (__digits_v<value_type> - 1));
       const _V __shifter = __or(__and(_S_signmask<_V>, __x), __shifter_abs);
-      const _V __shifted = _S_plus_minus(__x, __shifter);
+      // the sign of a zero result must be the sign of __x
+      const _V __shifted
+	= __or(__and(_S_signmask<_V>, __x),
+	       __and(_S_absmask<_V>, _S_plus_minus(__x, __shifter)));
       return __absx < __shifter_abs ? __shifted : __x;
     }
 
diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index a3adeab..a3cee4d 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -2682,7 +2682,11 @@ template <typename _Abi>
 		< 0x4b000000; // the exponent is so large that no mantissa bits
 			      // signify fractional values (0x3f8 + 23*8 =
 			      // 0x4b0)
-	    return __no_fractional_values ? __truncated : __to_intrin(__x);
+	    // cvtepi32_ps cannot produce -0, restore the sign bit of x
+	    return __no_fractional_values
+		     ? __or(__and(_S_signmask<__m128>, __to_intrin(__x)),
+			    __truncated)
+		     : __to_intrin(__x);
 	  }
 	else
 	  return _Base::_S_trunc(__x);
@@ -2725,11 +2729,15 @@ template <typename _Abi>
 	// x < 0 => truncated <= 0 && truncated >= x => x - truncated <= 0
 	// x > 0 => truncated >= 0 && truncated <= x => x - truncated >= 0
 
+	// The sign bit of x is restored because -0 + 0 and cvtepi32_ps produce +0.
+	const _V __sign = __and(_S_signmask<_V>, __x._M_data);
 	const _V __rounded
-	  = __truncated
-	    + (__and(_S_absmask<_V>, __x._M_data - __truncated) >= _Tp(.5)
-		 ? __or(__and(_S_signmask<_V>, __x._M_data), _V() + 1)
-		 : _V());
+	  = __or(__sign,
+		 __truncated
+		   + (__and(_S_absmask<_V>, __x._M_data - __truncated)
+			  >= _Tp(.5)
+			? __or(__sign, _V() + 1)
+			: _V()));
 	if constexpr (__have_sse4_1)
 	  return __rounded;
 	else // adjust for missing range in cvttps_epi32
-- 
2.43.0


From 2f8ec3a3c8100335d85858076143bc7948602193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:42 +0000
Subject: [PATCH 24/46] fix: isnormal did not compile for 128 and 256 bit
 vectors with AVX512DQ without AVX512VL

---
 experimental/bits/simd_x86.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index a3cee4d..762facc 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -3097,7 +3097,7 @@ template <typename _Abi>
 	    else
 	      __assert_unreachable<_Tp>();
 	  }
-	else if constexpr (__have_avx512dq)
+	else if constexpr (__have_avx512dq && __have_avx512vl)
 	  {
 	    if constexpr (__have_avx512vl && __is_sse_ps<_Tp, _Np>())
 	      return _mm_movm_epi32(
-- 
2.43.0


From f3575d8f03e303ebffa9101bbfe1015a922688d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 25/46] fix: division by a constant divided the padding by zero
 with AVX-512

---
 experimental/bits/simd_builtin.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index e67d7c7..eb597f2 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -1208,12 +1208,19 @@ template <int _UsedBytes>
 			   return 1;
 		       });
 	    else
-	      return __make_dependent_t<_TV, _CommonImpl>::_S_blend(
-		       _S_implicit_mask<_Tp>(),
-		       _SimdWrapper<_Tp, _Np>(
-			 __vector_broadcast<_S_full_size<_Tp>>(_Tp(1))),
-		       _SimdWrapper<_Tp, _Np>(__x))
-		._M_data;
+	      {
+		// blend all _S_full_size elements: if all arguments are known
+		// at compile time, _S_blend only sets the elements that its
+		// type says exist and the padding would be zero again
+		constexpr size_t _Full = _S_full_size<_Tp>;
+		return __make_dependent_t<_TV, _CommonImpl>::_S_blend(
+			 _SimdWrapper<bool, _Full>(
+			   _S_implicit_mask<_Tp>()._M_data),
+			 _SimdWrapper<_Tp, _Full>(
+			   __vector_broadcast<_Full>(_Tp(1))),
+			 _SimdWrapper<_Tp, _Full>(__x))
+		  ._M_data;
+	      }
 	  }
       }
 
-- 
2.43.0


From 9144e14b09adee1fc8269e47b985b480b9ece004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 26/46] fix: masked assignment of a constant -0.0 stored +0.0

---
 experimental/bits/simd_builtin.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index eb597f2..bddfa58 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -2503,7 +2503,9 @@ template <typename _Abi>
 	  return;
 	else if (__k._M_is_constprop_all_of())
 	  __lhs = __vector_broadcast<_Np>(__rhs);
-	else if (__builtin_constant_p(__rhs) && __rhs == 0)
+	else if (__builtin_constant_p(__rhs) && __rhs == 0
+		 && (!is_floating_point_v<_Tp>
+		     || !__builtin_signbit(static_cast<double>(__rhs))))
 	  {
 	    if constexpr (!is_same_v<bool, _K>)
 	      // the __andnot optimization only makes sense if __k._M_data is a
-- 
2.43.0


From 209ee96980a5b682104557757261ec48b9368293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:03 +0000
Subject: [PATCH 27/46] fix: install.sh --includedir=DIR exited without doing
 anything

---
 install.sh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/install.sh b/install.sh
index ccd2906..e3e5ea8 100755
--- a/install.sh
+++ b/install.sh
@@ -55,7 +55,9 @@ while test $# -gt 0; do
   shift
 done
 
-test -z "$includedir" && includedir=`default_includedir` || exit 1
+if test -z "$includedir"; then
+  includedir=`default_includedir` || exit 1
+fi
 if ! test -w "$includedir"; then
   echo "Error: Destination directory '$includedir' is not writable by the current user."
   exit 1
-- 
2.43.0


From 9e31281b85b532aa95153f0884befaa2af30f9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:03 +0000
Subject: [PATCH 28/46] fix: install.sh resolved a relative --includedir
 against its own directory

---
 install.sh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/install.sh b/install.sh
index e3e5ea8..ab3688c 100755
--- a/install.sh
+++ b/install.sh
@@ -1,4 +1,5 @@
 #!/bin/sh
+callerdir=`pwd`
 cd "${0%/*}"
 
 test -x "$CXX" || CXX=g++
@@ -58,6 +59,10 @@ done
 if test -z "$includedir"; then
   includedir=`default_includedir` || exit 1
 fi
+case "$includedir" in
+  /*) ;;
+  *) includedir="$callerdir/$includedir" ;;
+esac
 if ! test -w "$includedir"; then
   echo "Error: Destination directory '$includedir' is not writable by the current user."
   exit 1
-- 
2.43.0


From 25070a78d8e5c982c539030e3c83625bea9d53a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:03 +0000
Subject: [PATCH 29/46] fix: install.sh exited with status 0 when a file could
 not be installed or removed

---
 install.sh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/install.sh b/install.sh
index ab3688c..d5da7b9 100755
--- a/install.sh
+++ b/install.sh
@@ -83,16 +83,16 @@ exit 1
 } || exit
   echo Passed.
 
-  install -v -p -d "$includedir/experimental/bits"
-  install -v -p experimental/bits/simd*.h "$includedir/experimental/bits/"
-  install -v -p experimental/bits/numeric_traits.h "$includedir/experimental/bits/"
+  install -v -p -d "$includedir/experimental/bits" || exit
+  install -v -p experimental/bits/simd*.h "$includedir/experimental/bits/" || exit
+  install -v -p experimental/bits/numeric_traits.h "$includedir/experimental/bits/" || exit
   install -v -p experimental/simd "$includedir/experimental/"
 else
   for i in experimental/bits/simd*.h experimental/bits/numeric_traits.h experimental/simd; do
     dst="$includedir/$i"
     if test -e "$dst"; then
       echo "Removing $dst"
-      rm -f "$dst"
+      rm -f "$dst" || exit
     fi
   done
 fi
-- 
2.43.0


From 58814873b283ffe56cfc3a9710d457185cbe6331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:34 +0000
Subject: [PATCH 30/46] fix: loads and stores accepted any type as alignment
 flag; is_simd_flag_type was missing

---
 experimental/bits/simd.h | 45 ++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index eef43c2..25917a2 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -2679,6 +2679,25 @@ template <typename _Tp>
 } // namespace simd_abi
 
 // traits {{{1
+template <typename _Tp>
+  struct is_simd_flag_type : public false_type {};
+
+template <>
+  struct is_simd_flag_type<element_aligned_tag> : public true_type {};
+
+template <>
+  struct is_simd_flag_type<vector_aligned_tag> : public true_type {};
+
+template <size_t _Np>
+  struct is_simd_flag_type<overaligned_tag<_Np>>
+  : public bool_constant<(_Np > 0) && (_Np & (_Np - 1)) == 0> {};
+
+template <typename _Tp>
+  inline constexpr bool is_simd_flag_type_v = is_simd_flag_type<_Tp>::value;
+
+template <typename _Tp, typename = enable_if_t<is_simd_flag_type_v<_Tp>>>
+  using _IsSimdFlagType = _Tp;
+
 // is_abi_tag {{{2
 template <typename _Tp, typename = void_t<>>
   struct is_abi_tag : false_type {};
@@ -3120,7 +3139,7 @@ template <typename _M, typename _Tp>
 
     template <typename _Up, typename _Flags>
       [[nodiscard]] _GLIBCXX_SIMD_INTRINSIC _V
-      copy_from(const _LoadStorePtr<_Up, value_type>* __mem, _Flags) const&&
+      copy_from(const _LoadStorePtr<_Up, value_type>* __mem, _IsSimdFlagType<_Flags>) const&&
       {
 	return {__private_init,
 		_Impl::_S_masked_load(__data(_M_value), __data(_M_k),
@@ -3129,7 +3148,7 @@ template <typename _M, typename _Tp>
 
     template <typename _Up, typename _Flags>
       _GLIBCXX_SIMD_INTRINSIC void
-      copy_to(_LoadStorePtr<_Up, value_type>* __mem, _Flags) const&&
+      copy_to(_LoadStorePtr<_Up, value_type>* __mem, _IsSimdFlagType<_Flags>) const&&
       {
 	_Impl::_S_masked_store(__data(_M_value),
 			       _Flags::template _S_apply<_V>(__mem),
@@ -3175,12 +3194,12 @@ template <typename _Tp>
 
     template <typename _Up, typename _Flags>
       [[nodiscard]] _GLIBCXX_SIMD_INTRINSIC _V
-      copy_from(const _LoadStorePtr<_Up, value_type>* __mem, _Flags) const&&
+      copy_from(const _LoadStorePtr<_Up, value_type>* __mem, _IsSimdFlagType<_Flags>) const&&
       { return _M_k ? static_cast<_V>(__mem[0]) : _M_value; }
 
     template <typename _Up, typename _Flags>
       _GLIBCXX_SIMD_INTRINSIC void
-      copy_to(_LoadStorePtr<_Up, value_type>* __mem, _Flags) const&&
+      copy_to(_LoadStorePtr<_Up, value_type>* __mem, _IsSimdFlagType<_Flags>) const&&
       {
 	if (_M_k)
 	  __mem[0] = _M_value;
@@ -3297,7 +3316,7 @@ template <typename _M, typename _Tp>
     // intentionally hides const_where_expression::copy_from
     template <typename _Up, typename _Flags>
       _GLIBCXX_SIMD_INTRINSIC void
-      copy_from(const _LoadStorePtr<_Up, value_type>* __mem, _Flags) &&
+      copy_from(const _LoadStorePtr<_Up, value_type>* __mem, _IsSimdFlagType<_Flags>) &&
       {
 	__data(_M_value)
 	  = _Impl::_S_masked_load(__data(_M_value), __data(_M_k),
@@ -3354,7 +3373,7 @@ template <typename _Tp>
     // intentionally hides const_where_expression::copy_from
     template <typename _Up, typename _Flags>
       _GLIBCXX_SIMD_INTRINSIC void
-      copy_from(const _LoadStorePtr<_Up, value_type>* __mem, _Flags) &&
+      copy_from(const _LoadStorePtr<_Up, value_type>* __mem, _IsSimdFlagType<_Flags>) &&
       { if (_M_k) _M_value = __mem[0]; }
   };
 
@@ -4394,13 +4413,13 @@ template <typename _Tp, typename _Abi>
     // load constructor {{{
     template <typename _Flags>
       _GLIBCXX_SIMD_ALWAYS_INLINE
-      simd_mask(const value_type* __mem, _Flags)
+      simd_mask(const value_type* __mem, _IsSimdFlagType<_Flags>)
       : _M_data(_Impl::template _S_load<_Ip>(
 	_Flags::template _S_apply<simd_mask>(__mem))) {}
 
     template <typename _Flags>
       _GLIBCXX_SIMD_ALWAYS_INLINE
-      simd_mask(const value_type* __mem, simd_mask __k, _Flags)
+      simd_mask(const value_type* __mem, simd_mask __k, _IsSimdFlagType<_Flags>)
       : _M_data{}
       {
 	_M_data
@@ -4412,7 +4431,7 @@ template <typename _Tp, typename _Abi>
     // loads [simd_mask.load] {{{
     template <typename _Flags>
       _GLIBCXX_SIMD_ALWAYS_INLINE void
-      copy_from(const value_type* __mem, _Flags)
+      copy_from(const value_type* __mem, _IsSimdFlagType<_Flags>)
       {
 	_M_data = _Impl::template _S_load<_Ip>(
 	  _Flags::template _S_apply<simd_mask>(__mem));
@@ -4422,7 +4441,7 @@ template <typename _Tp, typename _Abi>
     // stores [simd_mask.store] {{{
     template <typename _Flags>
       _GLIBCXX_SIMD_ALWAYS_INLINE void
-      copy_to(value_type* __mem, _Flags) const
+      copy_to(value_type* __mem, _IsSimdFlagType<_Flags>) const
       { _Impl::_S_store(_M_data, _Flags::template _S_apply<simd_mask>(__mem)); }
 
     // }}}
@@ -4998,7 +5017,7 @@ template <typename _Tp, typename _Abi>
     // load constructor
     template <typename _Up, typename _Flags>
       _GLIBCXX_SIMD_ALWAYS_INLINE
-      simd(const _Up* __mem, _Flags)
+      simd(const _Up* __mem, _IsSimdFlagType<_Flags>)
       : _M_data(
 	  _Impl::_S_load(_Flags::template _S_apply<simd>(__mem), _S_type_tag))
       {}
@@ -5006,7 +5025,7 @@ template <typename _Tp, typename _Abi>
     // loads [simd.load]
     template <typename _Up, typename _Flags>
       _GLIBCXX_SIMD_ALWAYS_INLINE void
-      copy_from(const _Vectorizable<_Up>* __mem, _Flags)
+      copy_from(const _Vectorizable<_Up>* __mem, _IsSimdFlagType<_Flags>)
       {
 	_M_data = static_cast<decltype(_M_data)>(
 	  _Impl::_S_load(_Flags::template _S_apply<simd>(__mem), _S_type_tag));
@@ -5015,7 +5034,7 @@ template <typename _Tp, typename _Abi>
     // stores [simd.store]
     template <typename _Up, typename _Flags>
       _GLIBCXX_SIMD_ALWAYS_INLINE void
-      copy_to(_Vectorizable<_Up>* __mem, _Flags) const
+      copy_to(_Vectorizable<_Up>* __mem, _IsSimdFlagType<_Flags>) const
       {
 	_Impl::_S_store(_M_data, _Flags::template _S_apply<simd>(__mem),
 			_S_type_tag);
-- 
2.43.0


From 0fdf8ab63d64e9bc52b7841535daadad921f23f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:34 +0000
Subject: [PATCH 31/46] fix: the load constructor accepted pointers to types
 that are not vectorizable

---
 experimental/bits/simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 25917a2..f99f1e2 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -5017,7 +5017,7 @@ template <typename _Tp, typename _Abi>
     // load constructor
     template <typename _Up, typename _Flags>
       _GLIBCXX_SIMD_ALWAYS_INLINE
-      simd(const _Up* __mem, _IsSimdFlagType<_Flags>)
+      simd(const _Vectorizable<_Up>* __mem, _IsSimdFlagType<_Flags>)
       : _M_data(
 	  _Impl::_S_load(_Flags::template _S_apply<simd>(__mem), _S_type_tag))
       {}
-- 
2.43.0


From b4f228085a538f165f68e306be1995066402160b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:34 +0000
Subject: [PATCH 32/46] fix: cv-qualified arithmetic types were accepted as
 vectorizable types

---
 experimental/bits/simd.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index f99f1e2..e483ea2 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -338,6 +338,15 @@ template <typename _Tp>
 template <>
   struct __is_vectorizable<bool> : public false_type {};
 
+template <typename _Tp>
+  struct __is_vectorizable<const _Tp> : public false_type {};
+
+template <typename _Tp>
+  struct __is_vectorizable<volatile _Tp> : public false_type {};
+
+template <typename _Tp>
+  struct __is_vectorizable<const volatile _Tp> : public false_type {};
+
 template <typename _Tp>
   inline constexpr bool __is_vectorizable_v = __is_vectorizable<_Tp>::value;
 
-- 
2.43.0


From 13900f7dcb32ed67ee25b4ae4ce71ca339b8c0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:34 +0000
Subject: [PATCH 33/46] fix: masked assignments took part in overload
 resolution for unsuitable operands

---
 experimental/bits/simd.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index e483ea2..0c261bd 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3261,7 +3261,11 @@ template <typename _M, typename _Tp>
     _GLIBCXX_SIMD_INTRINSIC where_expression(const _M& __kk, _Tp& dd)
       : const_where_expression<_M, _Tp>(__kk, dd) {}
 
-    template <typename _Up>
+    // assigning bool to a simd_mask is an extension
+    template <typename _Up,
+	      typename = enable_if_t<
+		is_convertible_v<
+		  _Up, _Tp> || is_same_v<__remove_cvref_t<_Up>, typename _Tp::value_type>>>
       _GLIBCXX_SIMD_INTRINSIC void operator=(_Up&& __x) &&
       {
 	_Impl::_S_masked_assign(__data(_M_k), __data(_M_value),
@@ -3270,7 +3274,10 @@ template <typename _M, typename _Tp>
       }
 
 #define _GLIBCXX_SIMD_OP_(__op, __name, __rhs_fn)                              \
-  template <typename _Up>                                                      \
+  template <typename _Up,                                                      \
+	    typename _Rp = decltype(declval<const _Tp&>()                      \
+				      __op declval<_Up>()),                    \
+	    typename = enable_if_t<is_convertible_v<_Rp, _Tp>>>                \
     _GLIBCXX_SIMD_INTRINSIC void operator __op##=(_Up&& __x)&&                 \
     {                                                                          \
       _Impl::template _S_masked_cassign(                                       \
@@ -3350,7 +3357,8 @@ template <typename _Tp>
       : const_where_expression<_M, _Tp>(__kk, dd) {}
 
 #define _GLIBCXX_SIMD_OP_(__op)                                                \
-    template <typename _Up>                                                    \
+    template <typename _Up,                                                    \
+	      typename = decltype(declval<_Tp&>() __op declval<_Up>())>        \
       _GLIBCXX_SIMD_INTRINSIC void operator __op(_Up&& __x)&&                  \
       { if (_M_k) _M_value __op static_cast<_Up&&>(__x); }
 
-- 
2.43.0


From 1b7b7d4c6f002b76a1af0d3db2c36a69b535c429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:34 +0000
Subject: [PATCH 34/46] fix: copysign did not accept a scalar argument

---
 experimental/bits/simd_math.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/experimental/bits/simd_math.h b/experimental/bits/simd_math.h
index 7879829..cd8425c 100644
--- a/experimental/bits/simd_math.h
+++ b/experimental/bits/simd_math.h
@@ -1330,6 +1330,8 @@ template <typename _Tp, typename _Abi>
       }
   }
 
+_GLIBCXX_SIMD_CVTING2(copysign)
+
 _GLIBCXX_SIMD_MATH_CALL2_(nextafter, _Tp)
 // not covered in [parallel.simd.math]:
 // _GLIBCXX_SIMD_MATH_CALL2_(nexttoward, long double)
-- 
2.43.0


From 463dfb5eaf8b5844e48123cadfe4f7faa6a27f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:17 +0000
Subject: [PATCH 35/46] fix: all_of(pointer) and where(pointer, x) were
 accepted as if called with bool

---
 experimental/bits/simd.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 0c261bd..90db55e 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -668,9 +668,8 @@ class _ExactBool
   const bool _M_data;
 
 public:
-  _GLIBCXX_SIMD_INTRINSIC constexpr _ExactBool(bool __b) : _M_data(__b) {}
-
-  _ExactBool(int) = delete;
+  template <typename _Up, typename = enable_if_t<is_same_v<_Up, bool>>>
+    _GLIBCXX_SIMD_INTRINSIC constexpr _ExactBool(_Up __b) : _M_data(__b) {}
 
   _GLIBCXX_SIMD_INTRINSIC constexpr operator bool() const { return _M_data; }
 };
-- 
2.43.0


From e188f24491aa1cbdd4c14ab6ce732e8f3957717a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 36/46] fix: masked compound assignment of simd_mask did not
 compile

---
 experimental/bits/simd.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 90db55e..1a7b1aa 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3279,13 +3279,18 @@ template <typename _M, typename _Tp>
 	    typename = enable_if_t<is_convertible_v<_Rp, _Tp>>>                \
     _GLIBCXX_SIMD_INTRINSIC void operator __op##=(_Up&& __x)&&                 \
     {                                                                          \
-      _Impl::template _S_masked_cassign(                                       \
-	__data(_M_k), __data(_M_value),                                        \
-	__to_value_type_or_member_type<_Tp>(                                   \
-	  __rhs_fn(static_cast<_Up&&>(__x))),                                  \
-	[](auto __impl, auto __lhs, auto __rhs) constexpr {                    \
-	return __impl.__name(__lhs, __rhs);                                    \
-	});                                                                    \
+      if constexpr (is_simd_mask_v<_Tp>)                                       \
+	_Impl::_S_masked_assign(                                               \
+	  __data(_M_k), __data(_M_value),                                      \
+	  __data(_Tp(_M_value __op static_cast<_Up&&>(__x))));                 \
+      else                                                                     \
+	_Impl::template _S_masked_cassign(                                     \
+	  __data(_M_k), __data(_M_value),                                      \
+	  __to_value_type_or_member_type<_Tp>(                                 \
+	    __rhs_fn(static_cast<_Up&&>(__x))),                                \
+	  [](auto __impl, auto __lhs, auto __rhs) constexpr {                  \
+	  return __impl.__name(__lhs, __rhs);                                  \
+	  });                                                                  \
     }                                                                          \
   static_assert(true)
     _GLIBCXX_SIMD_OP_(+, _S_plus, );
-- 
2.43.0


From 3fc21a0dec950748df7e14b467dad2c7c87ea2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:37 +0000
Subject: [PATCH 37/46] fix: shifting left by a constant 31 was wrong for 16
 and 32 bit elements without AVX2

---
 experimental/bits/simd_x86.h | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index 762facc..c166a58 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -1756,17 +1756,19 @@ template <typename _Abi>
 		using _Int4 = __vector_type_t<int, 4>;
 		using _UInt4 = __vector_type_t<unsigned, 4>;
 		const _UInt4 __yu
-		  = reinterpret_cast<_UInt4>(__to_intrin(__y + (0x3f8 >> 3)));
+		  = reinterpret_cast<_UInt4>(__to_intrin(__y + (0xbf8 >> 3)));
 		// the even factors need to be masked, otherwise __y >= 16 spills
-		// into the factor of the neighboring value
-		return __x
-		       * __intrin_bitcast<_V>(
-			 (__vector_convert<_Int4>(_SimdWrapper<float, 4>(
-			    reinterpret_cast<_Float4>(__yu << 23)))
-			  & 0xffff)
-			 | (__vector_convert<_Int4>(_SimdWrapper<float, 4>(
-			      reinterpret_cast<_Float4>((__yu >> 16) << 23)))
-			    << 16));
+		// into the factor of the neighboring value; the factors are
+		// -(1 << __y) because 1 << 31 is not a value of type int
+		return __intrin_bitcast<_V>(
+		  -(__vector_bitcast<_UShort>(__ix)
+		    * __vector_bitcast<_UShort>(
+		      (__vector_convert<_Int4>(_SimdWrapper<float, 4>(
+			 reinterpret_cast<_Float4>(__yu << 23)))
+		       & 0xffff)
+		      | (__vector_convert<_Int4>(_SimdWrapper<float, 4>(
+			   reinterpret_cast<_Float4>((__yu >> 16) << 23)))
+			 << 16))));
 	      }
 	    else
 	      __assert_unreachable<_Tp>();
@@ -1774,11 +1776,12 @@ template <typename _Abi>
 	else if constexpr (sizeof(_Up) == 4 && sizeof __ix == 16
 			   && !__have_avx2)
 	  // latency is suboptimal, but throughput is at full speedup
+	  // the factors are -(1 << __y) because 1 << 31 is not a value of type int
 	  return __intrin_bitcast<_V>(
-	    __vector_bitcast<unsigned>(__ix)
-	    * __vector_convert<__vector_type16_t<int>>(
-	      _SimdWrapper<float, 4>(__vector_bitcast<float>(
-		(__vector_bitcast<unsigned, 4>(__y) << 23) + 0x3f80'0000))));
+	    -(__vector_bitcast<unsigned>(__ix)
+	      * __vector_convert<__vector_type16_t<int>>(
+		_SimdWrapper<float, 4>(__vector_bitcast<float>(
+		  (__vector_bitcast<unsigned, 4>(__y) << 23) + 0xbf80'0000)))));
 	else if constexpr (sizeof(_Up) == 8 && sizeof __ix == 16
 			   && !__have_avx2)
 	  {
-- 
2.43.0


From c73e14a02a0a0b428e8a157084c5aa7d308a878a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:24 +0000
Subject: [PATCH 38/46] fix: fpclassify did not compile for SSE without SSE2

---
 experimental/bits/simd_builtin.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index bddfa58..6bf2e32 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -2437,7 +2437,11 @@ template <typename _Abi>
 	    return {__extract<0, 2>(__as_int),
 		    __auto_bitcast(__extract<1, 2>(__as_int))};
 	  else
-	    __assert_unreachable<_Tp>();
+	    return _FixedInt::_S_generate([&](auto __meta) {
+	      return __meta._S_generator(
+		[&](auto __i) { return __as_int[__meta._S_offset + __i]; },
+		static_cast<_TypeTag<int>>(nullptr));
+	    });
 	}
       else if constexpr (_Np == 2 && sizeof(_I) == 8
 			 && __fixed_size_storage_t<int, _Np>::_S_tuple_size == 2)
-- 
2.43.0


From 081f9dd67d3e491707a406a3dd10619a9b3322c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:11 +0000
Subject: [PATCH 39/46] fix: copysign and modf of fixed_size lost the sign with
 -fno-signed-zeros or -ffast-math

---
 experimental/bits/simd_fixed_size.h | 2 +-
 experimental/bits/simd_math.h       | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/experimental/bits/simd_fixed_size.h b/experimental/bits/simd_fixed_size.h
index 7e6c1d3..b753e58 100644
--- a/experimental/bits/simd_fixed_size.h
+++ b/experimental/bits/simd_fixed_size.h
@@ -1687,7 +1687,7 @@ template <int _Np>
     _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, ldexp)
     _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, fmod)
     _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, remainder)
-    // copysign in simd_math.h
+    _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, copysign)
     _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, nextafter)
     _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, fdim)
     _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, fmax)
diff --git a/experimental/bits/simd_math.h b/experimental/bits/simd_math.h
index cd8425c..160c9d7 100644
--- a/experimental/bits/simd_math.h
+++ b/experimental/bits/simd_math.h
@@ -1315,6 +1315,9 @@ template <typename _Tp, typename _Abi>
   {
     if constexpr (simd_size_v<_Tp, _Abi> == 1)
       return std::copysign(__x[0], __y[0]);
+    else if constexpr (__is_fixed_size_abi_v<_Abi>)
+      return {__private_init,
+	      _Abi::_SimdImpl::_S_copysign(__data(__x), __data(__y))};
     else if constexpr (is_same_v<_Tp, long double> && sizeof(_Tp) == 12)
       // Remove this case once __bit_cast is implemented via __builtin_bit_cast.
       // It is necessary, because __signmask below cannot be computed at compile
-- 
2.43.0


From 4346af5e8a141604706babb9340883e26e301118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:42 +0000
Subject: [PATCH 40/46] fix: right shift of 64 bit elements shifted 32 bit
 elements by 32

---
 experimental/bits/simd_x86.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index c166a58..843c791 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -1834,8 +1834,9 @@ template <typename _Abi>
 	// GCC optimizes sizeof == 2, 4, and unsigned 8 as expected
 	else if constexpr (sizeof(_Up) == 8 && is_signed_v<_Up>) //{{{
 	  {
-	    if (__y > 32)
-	      return (__intrin_bitcast<_V>(__vector_bitcast<int>(__ix) >> 32)
+	    // shifting int by 32 is undefined
+	    if (__y >= 32)
+	      return (__intrin_bitcast<_V>(__vector_bitcast<int>(__ix) >> 31)
 		      & _Up(0xffff'ffff'0000'0000ull))
 		     | __vector_bitcast<_Up>(
 		       __vector_bitcast<int>(__vector_bitcast<_ULLong>(__ix)
-- 
2.43.0


From bc56e7eaf51716a96a0f2a61ba6cf8cdf6fca4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:48 +0000
Subject: [PATCH 41/46] fix: left shift of byte vectors relied on shifting by
 more than 7

---
 experimental/bits/simd_x86.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index 843c791..dd13efc 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -1715,8 +1715,8 @@ template <typename _Abi>
 		return __x
 		       & ((__y & char(0xf8)) == 0); // y > 7 nulls the result
 	      }
-	    else
-	      return __x << __y;
+	    else // shifting by more than 7 is undefined for a vector of bytes
+	      return (__x << (__y & char(0x07))) & ((__y & char(0xf8)) == 0);
 	  }
 	else if constexpr (sizeof(_Up) == 2)
 	  {
-- 
2.43.0


From b0eab0523142f84755bb8e9b9641fb2128d11321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:56 +0000
Subject: [PATCH 42/46] fix: NEON any_of, some_of and popcount counted the
 padding of partial masks

---
 experimental/bits/simd_neon.h | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/experimental/bits/simd_neon.h b/experimental/bits/simd_neon.h
index 597f406..3fb2977 100644
--- a/experimental/bits/simd_neon.h
+++ b/experimental/bits/simd_neon.h
@@ -424,9 +424,8 @@ template <typename _Abi>
     template <typename _Tp>
       _GLIBCXX_SIMD_INTRINSIC static bool _S_any_of(simd_mask<_Tp, _Abi> __k)
       {
-	const auto __kk
-	  = __vector_bitcast<char>(__k._M_data)
-	    | ~__vector_bitcast<char>(_Abi::template _S_implicit_mask<_Tp>());
+	// the padding does not count
+	const auto __kk = __vector_bitcast<char>(_Abi::_S_masked(__k._M_data));
 	if constexpr (sizeof(__k) == 16)
 	  {
 	    const auto __x = __vector_bitcast<long long>(__kk);
@@ -462,11 +461,13 @@ template <typename _Abi>
       {
 	if constexpr (sizeof(__k) <= 8)
 	  {
-	    const auto __kk = __vector_bitcast<char>(__k._M_data)
-			      | ~__vector_bitcast<char>(
-				_Abi::template _S_implicit_mask<_Tp>());
+	    const auto __kk
+	      = __vector_bitcast<char>(_Abi::_S_masked(__k._M_data));
+	    const auto __all = __vector_bitcast<char>(
+	      _Abi::template _S_implicit_mask<_Tp>());
 	    using _Up = make_unsigned_t<__int_for_sizeof_t<decltype(__kk)>>;
-	    return __bit_cast<_Up>(__kk) + 1 > 1;
+	    return __bit_cast<_Up>(__kk) != 0
+		   && __bit_cast<_Up>(__kk) != __bit_cast<_Up>(__all);
 	  }
 	else
 	  return _Base::_S_some_of(__k);
@@ -479,27 +480,27 @@ template <typename _Abi>
       {
 	if constexpr (sizeof(_Tp) == 1)
 	  {
-	    const auto __s8 = __vector_bitcast<_SChar>(__k._M_data);
+	    const auto __s8 = __vector_bitcast<_SChar>(_Abi::_S_masked(__k._M_data));
 	    int8x8_t __tmp = __lo64(__s8) + __hi64z(__s8);
 	    return -vpadd_s8(vpadd_s8(vpadd_s8(__tmp, int8x8_t()), int8x8_t()),
 			     int8x8_t())[0];
 	  }
 	else if constexpr (sizeof(_Tp) == 2)
 	  {
-	    const auto __s16 = __vector_bitcast<short>(__k._M_data);
+	    const auto __s16 = __vector_bitcast<short>(_Abi::_S_masked(__k._M_data));
 	    int16x4_t __tmp = __lo64(__s16) + __hi64z(__s16);
 	    return -vpadd_s16(vpadd_s16(__tmp, int16x4_t()), int16x4_t())[0];
 	  }
 	else if constexpr (sizeof(_Tp) == 4)
 	  {
-	    const auto __s32 = __vector_bitcast<int>(__k._M_data);
+	    const auto __s32 = __vector_bitcast<int>(_Abi::_S_masked(__k._M_data));
 	    int32x2_t __tmp = __lo64(__s32) + __hi64z(__s32);
 	    return -vpadd_s32(__tmp, int32x2_t())[0];
 	  }
 	else if constexpr (sizeof(_Tp) == 8)
 	  {
 	    static_assert(sizeof(__k) == 16);
-	    const auto __s64 = __vector_bitcast<long>(__k._M_data);
+	    const auto __s64 = __vector_bitcast<long>(_Abi::_S_masked(__k._M_data));
 	    return -(__s64[0] + __s64[1]);
 	  }
       }
-- 
2.43.0


From 737643f3be46923c2533600b22d7087ac41f47f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:05 +0000
Subject: [PATCH 43/46] fix: POWER popcount counted the padding of partial
 masks

---
 experimental/bits/simd_ppc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd_ppc.h b/experimental/bits/simd_ppc.h
index 1d64993..db0a7ff 100644
--- a/experimental/bits/simd_ppc.h
+++ b/experimental/bits/simd_ppc.h
@@ -126,7 +126,7 @@ template <typename _Abi>
     template <typename _Tp>
       _GLIBCXX_SIMD_INTRINSIC static int _S_popcount(simd_mask<_Tp, _Abi> __k)
       {
-	const auto __kv = __as_vector(__k);
+	const auto __kv = __as_vector(_Abi::_S_masked(__data(__k)));
 	if constexpr (__have_power10vec)
 	  {
 	    return vec_cntm(__to_intrin(__kv), 1);
-- 
2.43.0


From b5d20ebc781e8273d3d9349fe8c1c4d577e7ca64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:05 +0000
Subject: [PATCH 44/46] fix: popcount of simd_mask did not compile for POWER10

---
 experimental/bits/simd_ppc.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/experimental/bits/simd_ppc.h b/experimental/bits/simd_ppc.h
index db0a7ff..2b06323 100644
--- a/experimental/bits/simd_ppc.h
+++ b/experimental/bits/simd_ppc.h
@@ -127,11 +127,7 @@ template <typename _Abi>
       _GLIBCXX_SIMD_INTRINSIC static int _S_popcount(simd_mask<_Tp, _Abi> __k)
       {
 	const auto __kv = __as_vector(_Abi::_S_masked(__data(__k)));
-	if constexpr (__have_power10vec)
-	  {
-	    return vec_cntm(__to_intrin(__kv), 1);
-	  }
-	else if constexpr (sizeof(_Tp) >= sizeof(int))
+	if constexpr (sizeof(_Tp) >= sizeof(int))
 	  {
 	    using _Intrin = __intrinsic_type16_t<int>;
 	    const int __sum = -vec_sums(__intrin_bitcast<_Intrin>(__kv), _Intrin())[3];
-- 
2.43.0


From 55f30db6231051bedc32b52eccd8605941269c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:05 +0000
Subject: [PATCH 45/46] fix: POWER shifts of 8 and 16 bit elements and byte
 masks did not compile with clang

---
 experimental/bits/simd.h     | 5 +++++
 experimental/bits/simd_ppc.h | 7 ++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 1a7b1aa..4967f24 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -2327,6 +2327,11 @@ _GLIBCXX_SIMD_PPC_INTRIN(unsigned long);
 _GLIBCXX_SIMD_PPC_INTRIN(signed long long);
 _GLIBCXX_SIMD_PPC_INTRIN(unsigned long long);
 #undef _GLIBCXX_SIMD_PPC_INTRIN
+#ifdef __clang__
+// __int_for_sizeof_t<char> is char
+template <>
+  struct __intrinsic_type_impl<char> { using type = __vector signed char; };
+#endif
 
 template <typename _Tp, size_t _Bytes>
   struct __intrinsic_type<_Tp, _Bytes,
diff --git a/experimental/bits/simd_ppc.h b/experimental/bits/simd_ppc.h
index 2b06323..3f54aa1 100644
--- a/experimental/bits/simd_ppc.h
+++ b/experimental/bits/simd_ppc.h
@@ -80,11 +80,12 @@ template <typename _Abi>
 	  {
 	    constexpr int __nbits = sizeof(_Tp) * __CHAR_BIT__;
 	    if constexpr (is_unsigned_v<_Tp>)
-	      return (__y._M_data < __nbits)
-		     & _Base::_S_bit_shift_right(__x, __y)._M_data;
+	      return _Base::_S_bit_shift_right(__x, __y)._M_data
+		     & (__y._M_data < __nbits);
 	    else
 	      {
-		_Base::_S_masked_assign(_SimdWrapper<_Tp, _Np>(__y._M_data
+		using _Ip = __int_for_sizeof_t<_Tp>;
+		_Base::_S_masked_assign(_SimdWrapper<_Ip, _Np>(__y._M_data
 							       >= __nbits),
 					__y, __nbits - 1);
 		return _Base::_S_bit_shift_right(__x, __y);
-- 
2.43.0


From 95b4bf042fb2bf340c88fedbea64cbe6db5becee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:46 +0000
Subject: [PATCH 46/46] fix: loads and stores converting from and to double did
 not compile for 32 bit ARM

---
 experimental/bits/simd_builtin.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index 6bf2e32..b81039a 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -1454,7 +1454,8 @@ template <typename _Abi>
 	    : (is_floating_point_v<_Up> && __have_avx) || __have_avx2 ? 32
 								      : 16;
 	constexpr size_t __bytes_to_load = sizeof(_Up) * _Np;
-	if constexpr (sizeof(_Up) > 8)
+	if constexpr (sizeof(_Up) > 8
+		      || __vectorized_sizeof<_Up>() <= sizeof(_Up))
 	  return __generate_vector<_Tp, _SimdMember<_Tp>::_S_full_size>([&](
 	    auto __i) constexpr {
 	    return static_cast<_Tp>(__i < _Np ? __mem[__i] : 0);
@@ -1522,7 +1523,8 @@ template <typename _Abi>
 	constexpr size_t _Np = _S_size<_Tp>;
 	constexpr size_t __max_store_size
 	  = _SuperImpl::template _S_max_store_size<_Up>;
-	if constexpr (sizeof(_Up) > 8)
+	if constexpr (sizeof(_Up) > 8
+		      || __vectorized_sizeof<_Up>() <= sizeof(_Up))
 	  __execute_n_times<_Np>([&](auto __i) constexpr {
 	    __mem[__i] = __v[__i];
 	  });
-- 
2.43.0

