// C19: forwarded functions
OP2(m_acos, FPS, AT_UNIT, (RV r, CV a), true, (using stdx::acos; r = acos(a)), (r = std::acos(a)))
OP2(m_asin, FPS, AT_UNIT, (RV r, CV a), true, (using stdx::asin; r = asin(a)), (r = std::asin(a)))
OP2(m_atan, FPS, AT_MODERATE, (RV r, CV a), true, (using stdx::atan; r = atan(a)), (r = std::atan(a)))
OP2(m_tan, FPS, AT_MODERATE, (RV r, CV a), true, (using stdx::tan; r = tan(a)), (r = std::tan(a)))
OP2(m_acosh, FPS, AT_MODERATE, (RV r, CV a), true, (using stdx::acosh; r = acosh(a)), (r = std::acosh(a)))
OP2(m_asinh, FPS, AT_MODERATE, (RV r, CV a), true, (using stdx::asinh; r = asinh(a)), (r = std::asinh(a)))
OP2(m_atanh, FPS, AT_UNIT, (RV r, CV a), true, (using stdx::atanh; r = atanh(a)), (r = std::atanh(a)))
OP2(m_cosh, FPS, AT_MODERATE, (RV r, CV a), true, (using stdx::cosh; r = cosh(a)), (r = std::cosh(a)))
OP2(m_sinh, FPS, AT_MODERATE, (RV r, CV a), true, (using stdx::sinh; r = sinh(a)), (r = std::sinh(a)))
OP2(m_tanh, FPS, AT_MODERATE, (RV r, CV a), true, (using stdx::tanh; r = tanh(a)), (r = std::tanh(a)))
OP2(m_exp, FPS, AT_MODERATE, (RV r, CV a), true, (using stdx::exp; r = exp(a)), (r = std::exp(a)))
OP2(m_exp2, FPS, AT_MODERATE, (RV r, CV a), true, (using stdx::exp2; r = exp2(a)), (r = std::exp2(a)))
OP2(m_expm1, FPS, AT_MODERATE, (RV r, CV a), true, (using stdx::expm1; r = expm1(a)), (r = std::expm1(a)))
OP2(m_log, FPS, AT_MODERATE, (RV r, CV a), true, (using stdx::log; r = log(a)), (r = std::log(a)))
OP2(m_log10, FPS, AT_MODERATE, (RV r, CV a), true, (using stdx::log10; r = log10(a)), (r = std::log10(a)))
OP2(m_log1p, FPS, AT_MODERATE, (RV r, CV a), true, (using stdx::log1p; r = log1p(a)), (r = std::log1p(a)))
OP2(m_log2, FPS, AT_MODERATE, (RV r, CV a), true, (using stdx::log2; r = log2(a)), (r = std::log2(a)))
OP2(m_cbrt, FPS, AT_MODERATE, (RV r, CV a), true, (using stdx::cbrt; r = cbrt(a)), (r = std::cbrt(a)))
OP2(m_erf, FPS, AT_MODERATE, (RV r, CV a), true, (using stdx::erf; r = erf(a)), (r = std::erf(a)))
OP2(m_erfc, FPS, AT_MODERATE, (RV r, CV a), true, (using stdx::erfc; r = erfc(a)), (r = std::erfc(a)))
OP2(m_lgamma, FPS, AT_MODERATE, (RV r, CV a), true, (using stdx::lgamma; r = lgamma(a)), (r = std::lgamma(a)))
OP2(m_tgamma, FPS, AT_MODERATE, (RV r, CV a), true, (using stdx::tgamma; r = tgamma(a)), (r = std::tgamma(a)))
OP2(m_pow, FPS, AT_MODERATE, (RV r, CV a, CV b), true, (r = pow(a, b)), (r = std::pow(a, b)))
OP2(m_pow_vs, FPS, AT_MODERATE, (RV r, CV a, CS b), true, (r = pow(a, b)), (r = std::pow(a, b)))
OP2(m_pow_sv, FPS, AT_MODERATE, (RV r, CS a, CV b), true, (r = pow(a, b)), (r = std::pow(a, b)))
OP2(m_atan2, FPS, AT_MODERATE, (RV r, CV a, CV b), true, (r = atan2(a, b)), (r = std::atan2(a, b)))
OP2(m_atan2_vs, FPS, AT_MODERATE, (RV r, CV a, CS b), true, (r = atan2(a, b)), (r = std::atan2(a, b)))
OP2(m_atan2_sv, FPS, AT_MODERATE, (RV r, CS a, CV b), true, (r = atan2(a, b)), (r = std::atan2(a, b)))
