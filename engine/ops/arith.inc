// C01: OP(name, class, attributes, parameters, defined?, body)   -- body shared by simd and scalar
OP(plus, ALL, 0, (RV r, CV a, CV b), ok_add(a, b), (r = a + b))
OP(minus, ALL, 0, (RV r, CV a, CV b), ok_sub(a, b), (r = a - b))
OP(mul, ALL, 0, (RV r, CV a, CV b), ok_mul(a, b), (r = a * b))
OP(divide, ALL, 0, (RV r, CV a, CV b), ok_div(a, b), (r = a / b))
OP(mod, INTS, 0, (RV r, CV a, CV b), ok_div(a, b), (r = a % b))
OP(band, INTS, 0, (RV r, CV a, CV b), true, (r = a & b))
OP(bor, INTS, 0, (RV r, CV a, CV b), true, (r = a | b))
OP(bxor, INTS, 0, (RV r, CV a, CV b), true, (r = a ^ b))
OP2(shl, INTS, AT_SHIFT, (RV r, CV a, CV b), ok_sh(a, b), (r = a << b), (r = shl(a, b)))
OP2(shr, INTS, AT_SHIFT, (RV r, CV a, CV b), ok_sh(a, b), (r = a >> b), (r = shr(a, b)))
OP2(shl_i, INTS, AT_SHIFT, (RV r, CV a, CI b), ok_sh(a, b), (r = a << b), (r = shl(a, b)))
OP2(shr_i, INTS, AT_SHIFT, (RV r, CV a, CI b), ok_sh(a, b), (r = a >> b), (r = shr(a, b)))
// scalar operand on either side
OP(plus_vs, ALL, 0, (RV r, CV a, CS b), ok_add(a, b), (r = a + b))
OP(minus_sv, ALL, 0, (RV r, CS a, CV b), ok_sub(a, b), (r = a - b))
OP(mul_sv, ALL, 0, (RV r, CS a, CV b), ok_mul(a, b), (r = a * b))
OP(div_vs, ALL, 0, (RV r, CV a, CS b), ok_div(a, b), (r = a / b))
OP(div_sv, ALL, 0, (RV r, CS a, CV b), ok_div(a, b), (r = a / b))
OP(mod_vs, INTS, 0, (RV r, CV a, CS b), ok_div(a, b), (r = a % b))
OP(mod_sv, INTS, 0, (RV r, CS a, CV b), ok_div(a, b), (r = a % b))
OP(band_vs, INTS, 0, (RV r, CV a, CS b), true, (r = a & b))
OP(bor_sv, INTS, 0, (RV r, CS a, CV b), true, (r = a | b))
OP(bxor_vs, INTS, 0, (RV r, CV a, CS b), true, (r = a ^ b))
OP2(shl_sv, INTS, AT_SHIFT, (RV r, CS a, CV b), ok_sh(a, b), (r = a << b), (r = shl(a, b)))
OP2(shr_sv, INTS, AT_SHIFT, (RV r, CS a, CV b), ok_sh(a, b), (r = a >> b), (r = shr(a, b)))
// compound assignment (vector and scalar right-hand side)
OP(a_plus, ALL, 0, (RV r, CV b), ok_add(r, b), (r += b))
OP(a_minus, ALL, 0, (RV r, CV b), ok_sub(r, b), (r -= b))
OP(a_mul, ALL, 0, (RV r, CV b), ok_mul(r, b), (r *= b))
OP(a_div, ALL, 0, (RV r, CV b), ok_div(r, b), (r /= b))
OP(a_mod, INTS, 0, (RV r, CV b), ok_div(r, b), (r %= b))
OP(a_band, INTS, 0, (RV r, CV b), true, (r &= b))
OP(a_bor, INTS, 0, (RV r, CV b), true, (r |= b))
OP(a_bxor, INTS, 0, (RV r, CV b), true, (r ^= b))
OP2(a_shl, INTS, AT_SHIFT, (RV r, CV b), ok_sh(r, b), (r <<= b), (r = shl(r, b)))
OP2(a_shr, INTS, AT_SHIFT, (RV r, CV b), ok_sh(r, b), (r >>= b), (r = shr(r, b)))
OP2(a_shl_i, INTS, AT_SHIFT, (RV r, CI b), ok_sh(r, b), (r <<= b), (r = shl(r, b)))
OP2(a_shr_i, INTS, AT_SHIFT, (RV r, CI b), ok_sh(r, b), (r >>= b), (r = shr(r, b)))
OP(a_minus_s, ALL, 0, (RV r, CS b), ok_sub(r, b), (r -= b))
OP(a_mul_s, ALL, 0, (RV r, CS b), ok_mul(r, b), (r *= b))
OP(a_div_s, ALL, 0, (RV r, CS b), ok_div(r, b), (r /= b))
OP(a_plus_s, ALL, 0, (RV r, CS b), ok_add(r, b), (r += b))
OP(a_mod_s, INTS, 0, (RV r, CS b), ok_div(r, b), (r %= b))
// aliasing operands
OP(self_sub, ALL, 0, (RV r), ok_sub(r, r), (r -= r))
OP(self_mul, ALL, 0, (RV r), ok_mul(r, r), (r = r * r))
// unary
OP(neg, ALL, 0, (RV r, CV a), ok_neg(a), (r = -a))
OP(uplus, ALL, 0, (RV r, CV a), true, (r = +a))
OP(bnot, INTS, 0, (RV r, CV a), true, (r = ~a))
OP(preinc, ALL, 0, (RV r, RV a), ok_add(a, 1), (r = ++a))
OP(predec, ALL, 0, (RV r, RV a), ok_sub(a, 1), (r = --a))
OP(postinc, ALL, 0, (RV r, RV a), ok_add(a, 1), (r = a++))
OP(postdec, ALL, 0, (RV r, RV a), ok_sub(a, 1), (r = a--))
// shifts by compile-time constants (separate code paths in the library)
OP2(shl_c1, INTS, 0, (RV r, CV a), true, (r = a << 1), (r = shl(a, 1)))
OP2(shr_c1, INTS, 0, (RV r, CV a), true, (r = a >> 1), (r = shr(a, 1)))
OP2(shl_c3, INTS, 0, (RV r, CV a), true, (r = a << 3), (r = shl(a, 3)))
OP2(shr_c3, INTS, 0, (RV r, CV a), true, (r = a >> 3), (r = shr(a, 3)))
OP2(shl_c7, INTS, 0, (RV r, CV a), true, (r = a << 7), (r = shl(a, 7)))
OP2(shr_c7, INTS, 0, (RV r, CV a), true, (r = a >> 7), (r = shr(a, 7)))
OP2(shl_c8, INTS, 0, (RV r, CV a), true, (r = a << 8), (r = shl(a, 8)))
OP2(shr_c8, INTS, 0, (RV r, CV a), true, (r = a >> 8), (r = shr(a, 8)))
OP2(shr_c17, INTS, 0, (RV r, CV a), true, (r = a >> 17), (r = shr(a, 17)))
OP2(shr_c31, INTS, 0, (RV r, CV a), true, (r = a >> 31), (r = shr(a, 31)))
OP2(shl_c31, INTS, 0, (RV r, CV a), true, (r = a << 31), (r = shl(a, 31)))
// division, remainder and product with compile-time constants
OP(div_c3, ALL, 0, (RV r, CV a), true, (r = a / T(3)))
OP(div_c8, ALL, 0, (RV r, CV a), true, (r = a / T(8)))
OP(mod_c10, INTS, 0, (RV r, CV a), true, (r = a % T(10)))
OP(mul_c5, ALL, 0, (RV r, CV a), ok_mul(a, T(5)), (r = a * T(5)))
