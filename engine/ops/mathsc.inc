// C13: sine, cosine and hypot
OPC(m_sin, FPS, AT_TRIG, (RV r, CV a), true, (using stdx::sin; r = sin(a)), (r = std::sin(a)), (cmp_trig<T, false>))
OPC(m_cos, FPS, AT_TRIG, (RV r, CV a), true, (using stdx::cos; r = cos(a)), (r = std::cos(a)), (cmp_trig<T, true>))
OP2(sin_odd, FPS, AT_TRIG, (RM r, CV a), true, (auto x = sin(a), y = sin(-a); r = (x == -y && signbit(x) != signbit(y)) || (isnan(x) && isnan(y))), (r = true))
OP2(cos_even, FPS, AT_TRIG, (RM r, CV a), true, (auto x = cos(a), y = cos(-a); r = x == y || (isnan(x) && isnan(y))), (r = true))
OP2(trig_range, FPS, AT_TRIG, (RM r, CV a), true, (auto x = sin(a), y = cos(a); r = (abs(x) <= 1 && abs(y) <= 1) || (isnan(x) && isnan(y) && !isfinite(a))), (r = true))
OPC(m_hypot, FPS, AT_CLOSE, (RV r, CV a, CV b), true, (r = hypot(a, b)), (r = std::hypot(a, b)), (cmp_hypot<T, 2>))
OPC(m_hypot_vs, FPS, AT_CLOSE, (RV r, CV a, CS b), true, (r = hypot(a, b)), (r = std::hypot(a, b)), (cmp_hypot<T, 2>))
OPC(m_hypot_sv, FPS, AT_CLOSE, (RV r, CS a, CV b), true, (r = hypot(a, b)), (r = std::hypot(a, b)), (cmp_hypot<T, 2>))
OP2(hypot_sym, FPS, AT_CLOSE, (RM r, CV a, CV b), true, (auto x = hypot(a, b), y = hypot(b, a), z = hypot(-a, b); r = (x == y && x == z) || (isnan(x) && isnan(y) && isnan(z))), (r = true))
OP2(hypot_zero, FPS, 0, (RM r, CV a), true, (V z = 0; auto x = hypot(a, z), y = hypot(z, a), w = abs(a); r = (x == w && y == w) || (isnan(x) && isnan(y) && isnan(a))), (r = true))
OPC(m_hypot3, FPS, AT_CLOSE, (RV r, CV a, CV b, CV c), true, (r = hypot(a, b, c)), (r = std::hypot(a, b, c)), (cmp_hypot<T, 3>))
OPC(m_hypot3_vvs, FPS, AT_CLOSE, (RV r, CV a, CV b, CS c), true, (r = hypot(a, b, c)), (r = std::hypot(a, b, c)), (cmp_hypot<T, 3>))
OPC(m_hypot3_svv, FPS, AT_CLOSE, (RV r, CS a, CV b, CV c), true, (r = hypot(a, b, c)), (r = std::hypot(a, b, c)), (cmp_hypot<T, 3>))
OPC(m_hypot3_vss, FPS, AT_CLOSE, (RV r, CV a, CS b, CS c), true, (r = hypot(a, b, c)), (r = std::hypot(a, b, c)), (cmp_hypot<T, 3>))
