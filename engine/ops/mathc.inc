// C12: classification and quiet comparisons
OP2(m_isfinite, FPS, 0, (RM r, CV a), true, (using stdx::isfinite; r = isfinite(a)), (r = std::isfinite(a)))
WOP(q_isfinite, FPS, 0, (RI r, CV a), (auto k = isfinite(a); r = popcount(k) * 4 + any_of(k) * 2 + all_of(!k)), (r = 0; for (int i = 0; i < n; ++i) r += std::isfinite(a[i]) ? 1 : 0; r = r * 4 + (r ? 2 : 0) + (r ? 0 : 1);))
OP2(w_isfinite, FPS, 0, (RV r, CV a, CV b), true, (where(isfinite(a), r) = b), (if (std::isfinite(a)) r = b))
OP2(m_isinf, FPS, 0, (RM r, CV a), true, (using stdx::isinf; r = isinf(a)), (r = std::isinf(a)))
WOP(q_isinf, FPS, 0, (RI r, CV a), (auto k = isinf(a); r = popcount(k) * 4 + any_of(k) * 2 + all_of(!k)), (r = 0; for (int i = 0; i < n; ++i) r += std::isinf(a[i]) ? 1 : 0; r = r * 4 + (r ? 2 : 0) + (r ? 0 : 1);))
OP2(w_isinf, FPS, 0, (RV r, CV a, CV b), true, (where(isinf(a), r) = b), (if (std::isinf(a)) r = b))
OP2(m_isnan, FPS, 0, (RM r, CV a), true, (using stdx::isnan; r = isnan(a)), (r = std::isnan(a)))
WOP(q_isnan, FPS, 0, (RI r, CV a), (auto k = isnan(a); r = popcount(k) * 4 + any_of(k) * 2 + all_of(!k)), (r = 0; for (int i = 0; i < n; ++i) r += std::isnan(a[i]) ? 1 : 0; r = r * 4 + (r ? 2 : 0) + (r ? 0 : 1);))
OP2(w_isnan, FPS, 0, (RV r, CV a, CV b), true, (where(isnan(a), r) = b), (if (std::isnan(a)) r = b))
OP2(m_isnormal, FPS, 0, (RM r, CV a), true, (using stdx::isnormal; r = isnormal(a)), (r = std::isnormal(a)))
WOP(q_isnormal, FPS, 0, (RI r, CV a), (auto k = isnormal(a); r = popcount(k) * 4 + any_of(k) * 2 + all_of(!k)), (r = 0; for (int i = 0; i < n; ++i) r += std::isnormal(a[i]) ? 1 : 0; r = r * 4 + (r ? 2 : 0) + (r ? 0 : 1);))
OP2(w_isnormal, FPS, 0, (RV r, CV a, CV b), true, (where(isnormal(a), r) = b), (if (std::isnormal(a)) r = b))
OP2(m_signbit, FPS, 0, (RM r, CV a), true, (using stdx::signbit; r = signbit(a)), (r = std::signbit(a)))
WOP(q_signbit, FPS, 0, (RI r, CV a), (auto k = signbit(a); r = popcount(k) * 4 + any_of(k) * 2 + all_of(!k)), (r = 0; for (int i = 0; i < n; ++i) r += std::signbit(a[i]) ? 1 : 0; r = r * 4 + (r ? 2 : 0) + (r ? 0 : 1);))
OP2(w_signbit, FPS, 0, (RV r, CV a, CV b), true, (where(signbit(a), r) = b), (if (std::signbit(a)) r = b))
OP2(m_fpclassify, FPS, 0, (int* m, CV a), true, (fpclassify(a).copy_to(m, stdx::element_aligned)), (*m = std::fpclassify(a)))
OP2(m_signbit_i, INTS, 0, (RM r, CV a), true, (r = signbit(a)), (r = std::is_signed_v<T> && a < T(0)))
OP2(m_isgreater, FPS, AT_CLOSE, (RM r, CV a, CV b), true, (r = isgreater(a, b)), (r = std::isgreater(a, b)))
OP2(m_isgreater_vs, FPS, AT_CLOSE, (RM r, CV a, CS b), true, (r = isgreater(a, b)), (r = std::isgreater(a, b)))
OP2(m_isgreater_sv, FPS, AT_CLOSE, (RM r, CS a, CV b), true, (r = isgreater(a, b)), (r = std::isgreater(a, b)))
WOP(q_isgreater, FPS, AT_CLOSE, (RI r, CV a, CV b), (auto k = isgreater(a, b); r = popcount(k) * 2 + none_of(k)), (r = 0; for (int i = 0; i < n; ++i) r += std::isgreater(a[i], b[i]) ? 1 : 0; r = r * 2 + (r ? 0 : 1);))
OP2(m_isgreaterequal, FPS, AT_CLOSE, (RM r, CV a, CV b), true, (r = isgreaterequal(a, b)), (r = std::isgreaterequal(a, b)))
OP2(m_isgreaterequal_vs, FPS, AT_CLOSE, (RM r, CV a, CS b), true, (r = isgreaterequal(a, b)), (r = std::isgreaterequal(a, b)))
OP2(m_isgreaterequal_sv, FPS, AT_CLOSE, (RM r, CS a, CV b), true, (r = isgreaterequal(a, b)), (r = std::isgreaterequal(a, b)))
WOP(q_isgreaterequal, FPS, AT_CLOSE, (RI r, CV a, CV b), (auto k = isgreaterequal(a, b); r = popcount(k) * 2 + none_of(k)), (r = 0; for (int i = 0; i < n; ++i) r += std::isgreaterequal(a[i], b[i]) ? 1 : 0; r = r * 2 + (r ? 0 : 1);))
OP2(m_isless, FPS, AT_CLOSE, (RM r, CV a, CV b), true, (r = isless(a, b)), (r = std::isless(a, b)))
OP2(m_isless_vs, FPS, AT_CLOSE, (RM r, CV a, CS b), true, (r = isless(a, b)), (r = std::isless(a, b)))
OP2(m_isless_sv, FPS, AT_CLOSE, (RM r, CS a, CV b), true, (r = isless(a, b)), (r = std::isless(a, b)))
WOP(q_isless, FPS, AT_CLOSE, (RI r, CV a, CV b), (auto k = isless(a, b); r = popcount(k) * 2 + none_of(k)), (r = 0; for (int i = 0; i < n; ++i) r += std::isless(a[i], b[i]) ? 1 : 0; r = r * 2 + (r ? 0 : 1);))
OP2(m_islessequal, FPS, AT_CLOSE, (RM r, CV a, CV b), true, (r = islessequal(a, b)), (r = std::islessequal(a, b)))
OP2(m_islessequal_vs, FPS, AT_CLOSE, (RM r, CV a, CS b), true, (r = islessequal(a, b)), (r = std::islessequal(a, b)))
OP2(m_islessequal_sv, FPS, AT_CLOSE, (RM r, CS a, CV b), true, (r = islessequal(a, b)), (r = std::islessequal(a, b)))
WOP(q_islessequal, FPS, AT_CLOSE, (RI r, CV a, CV b), (auto k = islessequal(a, b); r = popcount(k) * 2 + none_of(k)), (r = 0; for (int i = 0; i < n; ++i) r += std::islessequal(a[i], b[i]) ? 1 : 0; r = r * 2 + (r ? 0 : 1);))
OP2(m_islessgreater, FPS, AT_CLOSE, (RM r, CV a, CV b), true, (r = islessgreater(a, b)), (r = std::islessgreater(a, b)))
OP2(m_islessgreater_vs, FPS, AT_CLOSE, (RM r, CV a, CS b), true, (r = islessgreater(a, b)), (r = std::islessgreater(a, b)))
OP2(m_islessgreater_sv, FPS, AT_CLOSE, (RM r, CS a, CV b), true, (r = islessgreater(a, b)), (r = std::islessgreater(a, b)))
WOP(q_islessgreater, FPS, AT_CLOSE, (RI r, CV a, CV b), (auto k = islessgreater(a, b); r = popcount(k) * 2 + none_of(k)), (r = 0; for (int i = 0; i < n; ++i) r += std::islessgreater(a[i], b[i]) ? 1 : 0; r = r * 2 + (r ? 0 : 1);))
OP2(m_isunordered, FPS, AT_CLOSE, (RM r, CV a, CV b), true, (r = isunordered(a, b)), (r = std::isunordered(a, b)))
OP2(m_isunordered_vs, FPS, AT_CLOSE, (RM r, CV a, CS b), true, (r = isunordered(a, b)), (r = std::isunordered(a, b)))
OP2(m_isunordered_sv, FPS, AT_CLOSE, (RM r, CS a, CV b), true, (r = isunordered(a, b)), (r = std::isunordered(a, b)))
WOP(q_isunordered, FPS, AT_CLOSE, (RI r, CV a, CV b), (auto k = isunordered(a, b); r = popcount(k) * 2 + none_of(k)), (r = 0; for (int i = 0; i < n; ++i) r += std::isunordered(a[i], b[i]) ? 1 : 0; r = r * 2 + (r ? 0 : 1);))
