// C04
OP2(w_assign, ALL, 0, (RV r, CM k, CV b), true, (where(k, r) = b), (if (k) r = b))
OP2(w_assign_s, ALL, 0, (RV r, CM k, CS b), true, (where(k, r) = b), (if (k) r = b))
OP2(w_plus, ALL, 0, (RV r, CM k, CV b), !k || ok_add(r, b), (where(k, r) += b), (if (k) r += b))
OP2(w_minus, ALL, 0, (RV r, CM k, CV b), !k || ok_sub(r, b), (where(k, r) -= b), (if (k) r -= b))
OP2(w_mul, ALL, 0, (RV r, CM k, CV b), !k || ok_mul(r, b), (where(k, r) *= b), (if (k) r *= b))
OP2(w_div, ALL, 0, (RV r, CM k, CV b), !k || ok_div(r, b), (where(k, r) /= b), (if (k) r /= b))
OP2(w_mod, INTS, 0, (RV r, CM k, CV b), !k || ok_div(r, b), (where(k, r) %= b), (if (k) r %= b))
OP2(w_and, INTS, 0, (RV r, CM k, CV b), true, (where(k, r) &= b), (if (k) r &= b))
OP2(w_or, INTS, 0, (RV r, CM k, CV b), true, (where(k, r) |= b), (if (k) r |= b))
OP2(w_xor, INTS, 0, (RV r, CM k, CV b), true, (where(k, r) ^= b), (if (k) r ^= b))
OP2(w_shl, INTS, AT_SHIFT, (RV r, CM k, CV b), ok_sh(r, b), (where(k, r) <<= b), (if (k) r = shl(r, b)))
OP2(w_shr, INTS, AT_SHIFT, (RV r, CM k, CV b), ok_sh(r, b), (where(k, r) >>= b), (if (k) r = shr(r, b)))
OP2(w_plus_s, ALL, 0, (RV r, CM k, CS b), !k || ok_add(r, b), (where(k, r) += b), (if (k) r += b))
OP2(w_minus_s, ALL, 0, (RV r, CM k, CS b), !k || ok_sub(r, b), (where(k, r) -= b), (if (k) r -= b))
OP2(w_mul_s, ALL, 0, (RV r, CM k, CS b), !k || ok_mul(r, b), (where(k, r) *= b), (if (k) r *= b))
OP2(w_div_s, ALL, 0, (RV r, CM k, CS b), !k || ok_div(r, b), (where(k, r) /= b), (if (k) r /= b))
OP2(w_mod_s, INTS, 0, (RV r, CM k, CS b), !k || ok_div(r, b), (where(k, r) %= b), (if (k) r %= b))
OP2(w_and_s, INTS, 0, (RV r, CM k, CS b), true, (where(k, r) &= b), (if (k) r &= b))
OP2(w_shl_s, INTS, AT_SHIFT, (RV r, CM k, CS b), ok_sh(r, b), (where(k, r) <<= b), (if (k) r = shl(r, b)))
OP2(w_shr_s, INTS, AT_SHIFT, (RV r, CM k, CS b), ok_sh(r, b), (where(k, r) >>= b), (if (k) r = shr(r, b)))
OP2(w_inc, ALL, 0, (RV r, CM k), !k || ok_add(r, 1), (++where(k, r)), (if (k) ++r))
OP2(w_pinc, ALL, 0, (RV r, CM k), !k || ok_add(r, 1), (where(k, r)++), (if (k) r++))
OP2(w_dec, ALL, 0, (RV r, CM k), !k || ok_sub(r, 1), (--where(k, r)), (if (k) --r))
OP2(w_pdec, ALL, 0, (RV r, CM k), !k || ok_sub(r, 1), (where(k, r)--), (if (k) r--))
OP2(w_neg, ALL, 0, (RV r, CM k, CV a), !k || ok_neg(a), (r = -where(k, a)), (if (k) r = -a; else r = a))
OP2(w_neg_nc, ALL, 0, (RV r, CM k, RV a), !k || ok_neg(a), (r = -where(k, a)), (if (k) r = -a; else r = a))
OP2(w_chain, ALL, AT_CLOSE, (RV r, CV a, CV b), true, (where(a < b, r) = a), (if (a < b) r = a))
OP2(w_chain_self, ALL, AT_CLOSE, (RV r, CV a), true, (where(r < a, r) = a), (if (r < a) r = a))
OP2(w_not, ALL, 0, (RV r, CM k, CV b), true, (where(!k, r) = b), (if (!k) r = b))
OP2(w_zero, ALL, 0, (RV r, CM k), true, (where(k, r) = V()), (if (k) r = T()))
OP2(w_mask, ALL, 0, (RM r, CM k, CM b), true, (where(k, r) = b), (if (k) r = b))
OP2(w_mask_b, ALL, 0, (RM r, CM k, CB b), true, (where(k, r) = b), (if (k) r = b))
OP2(w_mask_cmp, ALL, AT_CLOSE, (RM r, CM k, CV a, CV b), true, (where(k, r) = a < b), (if (k) r = a < b))
// values and masks known at compile time
OP2(wc_zero, ALL, 0, (RV r, CM k), true, (where(k, r) = T(0)), (if (k) r = T(0)))
OP2(wc_negzero, FPS, 0, (RV r, CM k), true, (where(k, r) = T(-0.0)), (if (k) r = T(-0.0)))
OP2(wc_one, ALL, 0, (RV r, CM k), true, (where(k, r) = T(1)), (if (k) r = T(1)))
OP2(wc_all, ALL, 0, (RV r, CV b), true, (where(M(true), r) = b), (r = b))
OP2(wc_none, ALL, 0, (RV r, CV b), true, (where(M(false), r) = b), (r = r))
OP2(wc_all_s, ALL, 0, (RV r, CS b), true, (where(M(true), r) = b), (r = b))
OP2(wc_none_s, ALL, 0, (RV r, CS b), true, (where(M(false), r) = b), (r = r))
OP2(wc_all_plus, ALL, 0, (RV r, CV b), ok_add(r, b), (where(M(true), r) += b), (r += b))
OP2(wc_none_plus, ALL, 0, (RV r, CV b), true, (where(M(false), r) += b), (r = r))
WOP(wc_part, ALL, 0, (RV r, CV b), (M k(false); k[N - 1] = true; k[0] = true; where(k, r) = b), (r[0] = b[0]; r[n - 1] = b[n - 1];))
WOP(wc_part_s, ALL, 0, (RV r, CS b), (M k(true); k[N / 2] = false; where(k, r) = b), (for (int i = 0; i < n; ++i) if (i != n / 2) r[i] = b;))
WOP(wc_part_plus, ALL, 0, (RV r, CV b), (M k(true); k[N / 2] = false; where(k, r) += b), (for (int i = 0; i < n; ++i) if (i != n / 2) { if (!ok_add(r[i], b[i])) { ok = false; break; } r[i] += b[i]; }))
WOP(wc_last, ALL, 0, (RV r, CV b), (where(V([](auto i) { return T(int(i)); }) == T(N - 1), r) = b), (r[n - 1] = b[n - 1];))
WOP(wc_first_half, ALL, 0, (RV r, CV b), (where(V([](auto i) { return T(int(i)); }) < T((N + 1) / 2), r) = b), (for (int i = 0; i < (n + 1) / 2; ++i) r[i] = b[i];))
OP2(wc_self, ALL, 0, (RV r, CV b), true, (where(b == b, r) = b), (if (b == b) r = b))
OP2(wc_mask_true, ALL, 0, (RM r, CM k), true, (where(k, r) = true), (if (k) r = true))
OP2(wc_mask_false, ALL, 0, (RM r, CM k), true, (where(k, r) = false), (if (k) r = false))
OP2(wc_mask_all, ALL, 0, (RM r, CM b), true, (where(M(true), r) = b), (r = b))
OP2(wc_mask_none, ALL, 0, (RM r, CM b), true, (where(M(false), r) = b), (r = r))
// where(bool, scalar)
WOP(wb_assign, ALL, 0, (RS r, CB k, CS b), (stdx::where(k, r) = b), (if (k) r = b;))
WOP(wb_plus, ALL, 0, (RS r, CB k, CS b), (stdx::where(k, r) += b), (ok = ok_add(r, b); if (k && ok) r += b;))
WOP(wb_div, ALL, 0, (RS r, CB k, CS b), (stdx::where(k, r) /= b), (ok = !k || ok_div(r, b); if (k && ok) r /= b;))
WOP(wb_inc, ALL, 0, (RS r, CB k), (++stdx::where(k, r)), (ok = ok_add(r, 1); if (k && ok) ++r;))
WOP(wb_pdec, ALL, 0, (RS r, CB k), (stdx::where(k, r)--), (ok = ok_sub(r, 1); if (k && ok) --r;))
WOP(wb_neg, ALL, 0, (RS r, CB k, CS a), (r = -stdx::where(k, std::as_const(a))), (ok = ok_neg(a); if (ok) r = k ? T(-a) : a;))
WOP(wb_copy_from, ALL, 0, (RS r, CB k, CS a), (stdx::where(k, r).copy_from(&a, stdx::element_aligned)), (if (k) r = a;))
WOP(wb_copy_to, ALL, 0, (RS r, CB k, CS a), (stdx::where(k, a).copy_to(&r, stdx::element_aligned)), (if (k) r = a;))
