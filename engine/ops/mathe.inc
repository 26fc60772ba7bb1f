// C20: exponent and significand
OP2(m_frexp, FPS, 0, (RV r, RFI e, CV a), std::isfinite(a), (r = frexp(a, &e)), (int q; r = std::frexp(a, &q); e = q))
OP2(m_frexp_all, FPS, 0, (RV r, CV a), true, (stdx::fixed_size_simd<int, N> e; r = frexp(a, &e)), (int q; r = std::frexp(a, &q)))
OP2(m_ldexp, FPS, AT_SMALLEXP, (RV r, CV a, CFI e), true, (r = ldexp(a, e)), (r = std::ldexp(a, e)))
OP2(m_scalbn, FPS, AT_SMALLEXP, (RV r, CV a, CFI e), true, (r = scalbn(a, e)), (r = std::scalbn(a, e)))
OP2(m_scalbln, FPS, AT_SMALLEXP, (RV r, CV a, CFL e), true, (r = scalbln(a, e)), (r = std::scalbln(a, e)))
OP2(m_ldexp_s, FPS, AT_SMALLEXP, (RV r, CV a, CI e), true, (r = ldexp(a, e)), (r = std::ldexp(a, e)))
OP2(m_logb, FPS, 0, (RV r, CV a), true, (r = logb(a)), (r = std::logb(a)))
OP2(m_ilogb, FPS, 0, (int* m, CV a), true, (ilogb(a).copy_to(m, stdx::element_aligned)), (*m = std::ilogb(a)))
OP2(m_modf, FPS, 0, (RV r, RV q, CV a), true, (r = modf(a, &q)), (T t; r = std::modf(a, &t); q = t))
OP2(frexp_ldexp, FPS, 0, (RV r, CV a), true, (stdx::fixed_size_simd<int, N> e; r = frexp(a, &e); where(isfinite(a), r) = ldexp(r, e)), (r = a))
OP2(modf_sum, FPS, 0, (RV r, CV a), true, (V q; r = modf(a, &q); r = copysign(r + q, a)), (r = std::isinf(a) ? a : a))
