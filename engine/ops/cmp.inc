// C02
OP(eq, ALL, AT_CLOSE, (RM r, CV a, CV b), true, (r = a == b))
OP(ne, ALL, AT_CLOSE, (RM r, CV a, CV b), true, (r = a != b))
OP(lt, ALL, AT_CLOSE, (RM r, CV a, CV b), true, (r = a < b))
OP(le, ALL, AT_CLOSE, (RM r, CV a, CV b), true, (r = a <= b))
OP(gt, ALL, AT_CLOSE, (RM r, CV a, CV b), true, (r = a > b))
OP(ge, ALL, AT_CLOSE, (RM r, CV a, CV b), true, (r = a >= b))
OP(lnot, ALL, 0, (RM r, CV a), true, (r = !a))
OP(eq_vs, ALL, AT_CLOSE, (RM r, CV a, CS b), true, (r = a == b))
OP(ne_sv, ALL, AT_CLOSE, (RM r, CS a, CV b), true, (r = a != b))
OP(lt_vs, ALL, AT_CLOSE, (RM r, CV a, CS b), true, (r = a < b))
OP(lt_sv, ALL, AT_CLOSE, (RM r, CS a, CV b), true, (r = a < b))
OP(le_sv, ALL, AT_CLOSE, (RM r, CS a, CV b), true, (r = a <= b))
OP(gt_vs, ALL, AT_CLOSE, (RM r, CV a, CS b), true, (r = a > b))
OP(ge_vs, ALL, AT_CLOSE, (RM r, CV a, CS b), true, (r = a >= b))
OP(gt_sv, ALL, AT_CLOSE, (RM r, CS a, CV b), true, (r = a > b))
// compile-time zero: separate code paths
OP(lt_0, ALL, 0, (RM r, CV a), true, (r = a < T(0)))
OP(ge_0, ALL, 0, (RM r, CV a), true, (r = a >= T(0)))
OP(eq_0, ALL, 0, (RM r, CV a), true, (r = a == T(0)))
OP(ne_0, ALL, 0, (RM r, CV a), true, (r = a != T(0)))
OP(gt_0, ALL, 0, (RM r, CV a), true, (r = a > T(0)))
OP(eq_self, ALL, 0, (RM r, CV a), true, (r = a == a))
OP(ne_self, ALL, 0, (RM r, CV a), true, (r = a != a))
// combined with mask operations in one expression
OP(range, ALL, AT_CLOSE, (RM r, CV a, CV b), true, (r = !(a < b) && !(b < a)))
OP(not_lt, ALL, AT_CLOSE, (RM r, CV a, CV b), true, (r = !(a < b)))
OP(xor_le, ALL, AT_CLOSE, (RM r, CV a, CV b), true, (r = (a <= b) != (b <= a)))
// reductions and bit-sets of fresh comparison results
WOP(all_eq, ALL, AT_CLOSE, (RB r, CV a, CV b), (r = all_of(a == b)), (r = true; for (int i = 0; i < n; ++i) r = r && a[i] == b[i];))
WOP(any_lt, ALL, AT_CLOSE, (RB r, CV a, CV b), (r = any_of(a < b)), (r = false; for (int i = 0; i < n; ++i) r = r || a[i] < b[i];))
WOP(none_ne, ALL, AT_CLOSE, (RB r, CV a, CV b), (r = none_of(a != b)), (r = true; for (int i = 0; i < n; ++i) r = r && !(a[i] != b[i]);))
WOP(some_ge, ALL, AT_CLOSE, (RB r, CV a, CV b), (r = some_of(a >= b)), (int c = 0; for (int i = 0; i < n; ++i) c += a[i] >= b[i]; r = c > 0 && c < n;))
WOP(count_gt, ALL, AT_CLOSE, (RI r, CV a, CV b), (r = popcount(a > b)), (r = 0; for (int i = 0; i < n; ++i) r += a[i] > b[i];))
WOP(count_not, ALL, 0, (RI r, CV a), (r = popcount(!a)), (r = 0; for (int i = 0; i < n; ++i) r += !a[i];))
WOP(first_le, ALL, AT_CLOSE, (RI r, CV a, CV b), (M k = a <= b; r = any_of(k) ? find_first_set(k) : -1;), (r = -1; for (int i = n - 1; i >= 0; --i) if (a[i] <= b[i]) r = i;))
WOP(last_ne, ALL, AT_CLOSE, (RI r, CV a, CV b), (M k = a != b; r = any_of(k) ? find_last_set(k) : -1;), (r = -1; for (int i = 0; i < n; ++i) if (a[i] != b[i]) r = i;))
WOP(bits_lt, ALL, AT_CLOSE, (RUL r, CV a, CV b), (r = (a < b).__to_bitset().to_ullong()), (r = 0; for (int i = 0; i < n; ++i) r |= (unsigned long)(a[i] < b[i]) << i;))
OP2(store_eq, ALL, AT_CLOSE, (bool* m, CV a, CV b), true, ((a == b).copy_to(m, stdx::element_aligned)), (*m = a == b))
