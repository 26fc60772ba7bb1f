// C07 (further forms)
OP2(c_static_e, ALL, AT_CONVINT, (U* m, CV a), ok_cvt<U>(a), (auto t = stdx::static_simd_cast<U>(a); static_assert(std::is_same_v<typename decltype(t)::value_type, U> && t.size() == N); t.copy_to(m, stdx::element_aligned)), (*m = static_cast<U>(a)))
OP2(c_simd_cast, KSIDE(vpres<T, U>()), 0, (RW r, CV a), ok_cvt<U>(a), (r = stdx::simd_cast<W>(a)), (r = static_cast<U>(a)))
OP2(c_simd_cast_e, KSIDE(vpres<T, U>()), 0, (U* m, CV a), ok_cvt<U>(a), (stdx::simd_cast<U>(a).copy_to(m, stdx::element_aligned)), (*m = static_cast<U>(a)))
OP2(c_implicit, KSIDE(std::is_convertible_v<V, W>), 0, (RW r, CV a), ok_cvt<U>(a), (W t = a; r = t), (r = static_cast<U>(a)))
OP2(c_round, ALL, AT_CONVINT, (RV r, CV a), ok_cvt<U>(a) && ok_cvt<T>(static_cast<U>(a)), (r = stdx::static_simd_cast<V>(stdx::static_simd_cast<W>(a))), (r = static_cast<T>(static_cast<U>(a))))
OP2(cm_static_cmp, ALL, AT_CLOSE, (RMW r, CV a, CV b), true, (r = KCAST(MW, a < b)), (r = a < b))
OP2(cm_static_e, ALL, 0, (bool* m, CM a), true, (stdx::__proposed::static_simd_cast<U>(a).copy_to(m, stdx::element_aligned)), (*m = a))
OP2(cm_simd_cast, KSIDE(vpres<T, U>()), 0, (bool* m, CM a), true, (stdx::__proposed::simd_cast<U>(a).copy_to(m, stdx::element_aligned)), (*m = a))
OP2(cm_cvt, ALL, 0, (RMW r, CM a), true, (MW t = a.__cvt(); r = t), (r = a))
OP2(cm_implicit, KSIDE(std::is_convertible_v<M, MW>), 0, (RMW r, CM a), true, (MW t = a; r = t), (r = a))
OP2(cm_where, ALL, 0, (RW r, CM a, CW b), true, (where(a.__cvt(), r) = b), (if (a) r = b))
OP2(cm_round, ALL, 0, (RM r, CM a), true, (r = KCAST(M, KCAST(MW, a))), (r = a))
WOP(cm_count, ALL, 0, (RI r, CM a), (r = popcount(KCAST(MW, a))), (r = 0; for (int i = 0; i < n; ++i) r += a[i];))
WOP(cm_all, ALL, 0, (RB r, CM a), (r = all_of(KCAST(MW, a))), (r = true; for (int i = 0; i < n; ++i) r = r && a[i];))
OP2(c_expr, ALL, AT_CONVINT, (RW r, CV a, CW b), ok_cvt<U>(a), (r = stdx::static_simd_cast<W>(a); where(r != b, r) = b), (r = static_cast<U>(a); if (r != b) r = b))
OP2(cm_static_not, ALL, 0, (RMW r, CM a), true, (r = KCAST(MW, !a)), (r = !a))
