// C11: exactly specified functions
OP2(m_fabs, FPS, 0, (RV r, CV a), true, (using stdx::fabs; r = fabs(a)), (r = std::fabs(a)))
OP2(m_ceil, FPS, 0, (RV r, CV a), true, (using stdx::ceil; r = ceil(a)), (r = std::ceil(a)))
OP2(m_floor, FPS, 0, (RV r, CV a), true, (using stdx::floor; r = floor(a)), (r = std::floor(a)))
OP2(m_trunc, FPS, 0, (RV r, CV a), true, (using stdx::trunc; r = trunc(a)), (r = std::trunc(a)))
OP2(m_round, FPS, 0, (RV r, CV a), true, (using stdx::round; r = round(a)), (r = std::round(a)))
OP2(m_nearbyint, FPS, 0, (RV r, CV a), true, (using stdx::nearbyint; r = nearbyint(a)), (r = std::nearbyint(a)))
OP2(m_rint, FPS, 0, (RV r, CV a), true, (using stdx::rint; r = rint(a)), (r = std::rint(a)))
OP2(m_sqrt, FPS, 0, (RV r, CV a), true, (using stdx::sqrt; r = sqrt(a)), (r = std::sqrt(a)))
OP2(m_abs, FPS || std::is_signed_v<T>, 0, (RV r, CV a), true, (r = abs(a)), (if constexpr (FPS) r = std::abs(a); else r = T(a < 0 ? 0ull - (unsigned long long)a : (unsigned long long)a)))
OP2(m_fabs_i, INTS && std::is_signed_v<T>, 0, (RV r, CV a), true, (r = fabs(a)), (r = T(a < 0 ? 0ull - (unsigned long long)a : (unsigned long long)a)))
OP2(m_lrint, FPS, AT_CONVINT, (long* m, CV a), ok_cvt<long>(std::rint(a)), (lrint(a).copy_to(m, stdx::element_aligned)), (*m = std::lrint(a)))
OP2(m_llrint, FPS, AT_CONVINT, (long long* m, CV a), ok_cvt<long long>(std::rint(a)), (llrint(a).copy_to(m, stdx::element_aligned)), (*m = std::llrint(a)))
OP2(m_lround, FPS, AT_CONVINT, (long* m, CV a), ok_cvt<long>(std::round(a)), (lround(a).copy_to(m, stdx::element_aligned)), (*m = std::lround(a)))
OP2(m_llround, FPS, AT_CONVINT, (long long* m, CV a), ok_cvt<long long>(std::round(a)), (llround(a).copy_to(m, stdx::element_aligned)), (*m = std::llround(a)))
OP2(m_copysign, FPS, 0, (RV r, CV a, CV b), true, (r = copysign(a, b)), (r = std::copysign(a, b)))
OP2(m_fmod, FPS, 0, (RV r, CV a, CV b), true, (r = fmod(a, b)), (r = std::fmod(a, b)))
OP2(m_fmod_vs, FPS, 0, (RV r, CV a, CS b), true, (r = fmod(a, b)), (r = std::fmod(a, b)))
OP2(m_fmod_sv, FPS, 0, (RV r, CS a, CV b), true, (r = fmod(a, b)), (r = std::fmod(a, b)))
OP2(m_remainder, FPS, 0, (RV r, CV a, CV b), true, (r = remainder(a, b)), (r = std::remainder(a, b)))
OP2(m_remainder_vs, FPS, 0, (RV r, CV a, CS b), true, (r = remainder(a, b)), (r = std::remainder(a, b)))
OP2(m_remainder_sv, FPS, 0, (RV r, CS a, CV b), true, (r = remainder(a, b)), (r = std::remainder(a, b)))
OP2(m_fdim, FPS, AT_CLOSE, (RV r, CV a, CV b), true, (r = fdim(a, b)), (r = std::fdim(a, b)))
OP2(m_fdim_vs, FPS, AT_CLOSE, (RV r, CV a, CS b), true, (r = fdim(a, b)), (r = std::fdim(a, b)))
OP2(m_fdim_sv, FPS, AT_CLOSE, (RV r, CS a, CV b), true, (r = fdim(a, b)), (r = std::fdim(a, b)))
OP2(m_fmax, FPS, AT_ZEQ | AT_CLOSE, (RV r, CV a, CV b), true, (r = fmax(a, b)), (r = std::fmax(a, b)))
OP2(m_fmax_vs, FPS, AT_ZEQ | AT_CLOSE, (RV r, CV a, CS b), true, (r = fmax(a, b)), (r = std::fmax(a, b)))
OP2(m_fmax_sv, FPS, AT_ZEQ | AT_CLOSE, (RV r, CS a, CV b), true, (r = fmax(a, b)), (r = std::fmax(a, b)))
OP2(m_fmin, FPS, AT_ZEQ | AT_CLOSE, (RV r, CV a, CV b), true, (r = fmin(a, b)), (r = std::fmin(a, b)))
OP2(m_fmin_vs, FPS, AT_ZEQ | AT_CLOSE, (RV r, CV a, CS b), true, (r = fmin(a, b)), (r = std::fmin(a, b)))
OP2(m_fmin_sv, FPS, AT_ZEQ | AT_CLOSE, (RV r, CS a, CV b), true, (r = fmin(a, b)), (r = std::fmin(a, b)))
OP2(m_nextafter, FPS, AT_CLOSE, (RV r, CV a, CV b), true, (r = nextafter(a, b)), (r = std::nextafter(a, b)))
OP2(m_nextafter_vs, FPS, AT_CLOSE, (RV r, CV a, CS b), true, (r = nextafter(a, b)), (r = std::nextafter(a, b)))
OP2(m_nextafter_sv, FPS, AT_CLOSE, (RV r, CS a, CV b), true, (r = nextafter(a, b)), (r = std::nextafter(a, b)))
OP2(m_remquo, FPS, 0, (RV r, int* m, CV a, CV b), std::isfinite(a) && !std::isnan(b) && b != 0, (stdx::fixed_size_simd<int, N> q; r = remquo(a, b, &q); q.copy_to(m, stdx::element_aligned)), (int q = 0; r = std::remquo(a, b, &q); *m = q))
OP2(m_remquo_r, FPS, 0, (RV r, CV a, CV b), true, (stdx::fixed_size_simd<int, N> q; r = remquo(a, b, &q)), (int q = 0; r = std::remquo(a, b, &q)))
OP2(m_fma, FPS, AT_CLOSE, (RV r, CV a, CV b, CV c), true, (r = fma(a, b, c)), (r = std::fma(a, b, c)))
OP2(m_fma_vvs, FPS, 0, (RV r, CV a, CV b, CS c), true, (r = fma(a, b, c)), (r = std::fma(a, b, c)))
OP2(m_fma_vsv, FPS, 0, (RV r, CV a, CS b, CV c), true, (r = fma(a, b, c)), (r = std::fma(a, b, c)))
OP2(m_fma_svv, FPS, 0, (RV r, CS a, CV b, CV c), true, (r = fma(a, b, c)), (r = std::fma(a, b, c)))
OP2(m_fma_vss, FPS, 0, (RV r, CV a, CS b, CS c), true, (r = fma(a, b, c)), (r = std::fma(a, b, c)))
OP2(m_fma_ssv, FPS, 0, (RV r, CS a, CS b, CV c), true, (r = fma(a, b, c)), (r = std::fma(a, b, c)))
OP2(m_fma_svs, FPS, 0, (RV r, CS a, CV b, CS c), true, (r = fma(a, b, c)), (r = std::fma(a, b, c)))
