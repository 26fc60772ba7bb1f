// C11: the same under all rounding modes (compiled with -frounding-math)
OP2(rm_ceil, FPS, AT_ROUNDMODE, (RV r, CV a), true, (using stdx::ceil; r = ceil(a)), (r = std::ceil(a)))
OP2(rm_floor, FPS, AT_ROUNDMODE, (RV r, CV a), true, (using stdx::floor; r = floor(a)), (r = std::floor(a)))
OP2(rm_trunc, FPS, AT_ROUNDMODE, (RV r, CV a), true, (using stdx::trunc; r = trunc(a)), (r = std::trunc(a)))
OP2(rm_round, FPS, AT_ROUNDMODE, (RV r, CV a), true, (using stdx::round; r = round(a)), (r = std::round(a)))
OP2(rm_nearbyint, FPS, AT_ROUNDMODE, (RV r, CV a), true, (using stdx::nearbyint; r = nearbyint(a)), (r = std::nearbyint(a)))
OP2(rm_rint, FPS, AT_ROUNDMODE, (RV r, CV a), true, (using stdx::rint; r = rint(a)), (r = std::rint(a)))
OP2(rm_sqrt, FPS, AT_ROUNDMODE, (RV r, CV a), true, (using stdx::sqrt; r = sqrt(a)), (r = std::sqrt(a)))
OP2(rm_lrint, FPS, AT_ROUNDMODE | AT_CONVINT, (long* m, CV a), ok_cvt<long>(std::rint(a)), (lrint(a).copy_to(m, stdx::element_aligned)), (*m = std::lrint(a)))
OP2(rm_llrint, FPS, AT_ROUNDMODE | AT_CONVINT, (long long* m, CV a), ok_cvt<long long>(std::rint(a)), (llrint(a).copy_to(m, stdx::element_aligned)), (*m = std::llrint(a)))
OP2(rm_lround, FPS, AT_ROUNDMODE | AT_CONVINT, (long* m, CV a), ok_cvt<long>(std::round(a)), (lround(a).copy_to(m, stdx::element_aligned)), (*m = std::lround(a)))
OP2(rm_llround, FPS, AT_ROUNDMODE | AT_CONVINT, (long long* m, CV a), ok_cvt<long long>(std::round(a)), (llround(a).copy_to(m, stdx::element_aligned)), (*m = std::llround(a)))
OP2(rm_fma, FPS, AT_ROUNDMODE | AT_CLOSE, (RV r, CV a, CV b, CV c), true, (r = fma(a, b, c)), (r = std::fma(a, b, c)))
OP2(rm_add, FPS, AT_ROUNDMODE | AT_CLOSE, (RV r, CV a, CV b), true, (r = a + b), (r = a + b))
OP2(rm_sub, FPS, AT_ROUNDMODE | AT_CLOSE, (RV r, CV a, CV b), true, (r = a - b), (r = a - b))
OP2(rm_mul, FPS, AT_ROUNDMODE | AT_CLOSE, (RV r, CV a, CV b), true, (r = a * b), (r = a * b))
OP2(rm_div, FPS, AT_ROUNDMODE | AT_CLOSE, (RV r, CV a, CV b), true, (r = a / b), (r = a / b))
