// C03
OP(m_not, ALL, 0, (RM r, CM a), true, (r = !a))
OP(m_land, ALL, 0, (RM r, CM a, CM b), true, (r = a && b))
OP(m_lor, ALL, 0, (RM r, CM a, CM b), true, (r = a || b))
OP(m_band, ALL, 0, (RM r, CM a, CM b), true, (r = a & b))
OP(m_bor, ALL, 0, (RM r, CM a, CM b), true, (r = a | b))
OP(m_bxor, ALL, 0, (RM r, CM a, CM b), true, (r = a ^ b))
OP(m_eq, ALL, 0, (RM r, CM a, CM b), true, (r = a == b))
OP(m_ne, ALL, 0, (RM r, CM a, CM b), true, (r = a != b))
OP(m_aband, ALL, 0, (RM r, CM b), true, (r &= b))
OP(m_abor, ALL, 0, (RM r, CM b), true, (r |= b))
OP(m_abxor, ALL, 0, (RM r, CM b), true, (r ^= b))
OP(m_andnot, ALL, 0, (RM r, CM a, CM b), true, (r = a && !b))
OP(m_broadcast, ALL, 0, (RM r, CB b), true, (r = M(b)))
OP(m_copy, ALL, 0, (RM r, CM a), true, (M t = a; r = t))
OP2(m_true, ALL, 0, (RM r, CM a), true, (r = M(true) ^ a), (r = !a))
// element access
WOP(m_set, ALL, 0, (RM r, CI i, CB b), (r[unsigned(i) % N] = b), (r[unsigned(i) % n] = b))
WOP(m_get, ALL, 0, (RB r, CM a, CI i), (r = a[unsigned(i) % N]), (r = a[unsigned(i) % n]))
WOP(m_get_ref, ALL, 0, (RB r, RM a, CI i), (r = a[unsigned(i) % N]), (r = a[unsigned(i) % n]))
WOP(m_set_all, ALL, 0, (RM r, CM a), (for (int i = 0; i < N; ++i) r[i] = a[N - 1 - i]), (for (int i = 0; i < n; ++i) r[i] = a[n - 1 - i];))
WOP(m_and_ref, ALL, 0, (RM r, CI i, CB b), (r[unsigned(i) % N] &= b), (r[unsigned(i) % n] = r[unsigned(i) % n] & b))
WOP(m_or_ref, ALL, 0, (RM r, CI i, CB b), (r[unsigned(i) % N] |= b), (r[unsigned(i) % n] = r[unsigned(i) % n] | b))
WOP(m_xor_ref, ALL, 0, (RM r, CI i, CB b), (r[unsigned(i) % N] ^= b), (r[unsigned(i) % n] = r[unsigned(i) % n] ^ b))
WOP(m_set_uninit, ALL, 0, (RM r, CM a), (M t; for (int i = 0; i < N; ++i) t[i] = a[i]; r = t;), (for (int i = 0; i < n; ++i) r[i] = a[i];))
WOP(m_swap, ALL, 0, (RM r, CI i, CI j), (using std::swap; swap(r[unsigned(i) % N], r[unsigned(j) % N]);), (bool t = r[unsigned(i) % n]; r[unsigned(i) % n] = r[unsigned(j) % n]; r[unsigned(j) % n] = t;))
// loads and stores
OP2(m_load, ALL, 0, (RM r, const bool* m), true, (r.copy_from(m, stdx::element_aligned)), (r = *m))
OPX(m_load_va, ALL, 0, (RM r, const bool* m), true, N, stdx::memory_alignment_v<M>, (r.copy_from(m, stdx::vector_aligned)), (r = *m))
OPX(m_load_oa, ALL, 0, (RM r, const bool* m), true, N, 128, (r = M(m, stdx::overaligned<128>)), (r = *m))
OP2(m_load_ctor, ALL, 0, (RM r, const bool* m), true, (r = M(m, stdx::element_aligned)), (r = *m))
OP2(m_store, ALL, 0, (bool* m, CM a), true, (a.copy_to(m, stdx::element_aligned)), (*m = a))
OPX(m_store_va, ALL, 0, (bool* m, CM a), true, N, stdx::memory_alignment_v<M>, (a.copy_to(m, stdx::vector_aligned)), (*m = a))
OP2(m_store_not, ALL, 0, (bool* m, CM a), true, ((!a).copy_to(m, stdx::element_aligned)), (*m = !a))
OP2(msk_m_load, ALL, 0, (RM r, CM k, const bool* m), true, (where(k, r).copy_from(m, stdx::element_aligned)), (if (k) r = *m))
OP2(msk_m_load_ctor, ALL, 0, (RM r, CM k, const bool* m), true, (r = M(m, k, stdx::element_aligned)), (r = k ? *m : false))
OP2(msk_m_store, ALL, 0, (bool* m, CM k, RM a), true, (where(k, a).copy_to(m, stdx::element_aligned)), (if (k) *m = a))
OPX(msk_m_store_va, ALL, 0, (bool* m, CM k, RM a), true, N, stdx::memory_alignment_v<M>, (where(k, a).copy_to(m, stdx::vector_aligned)), (if (k) *m = a))
// masked assignment of masks
OP2(m_where, ALL, 0, (RM r, CM k, CM b), true, (where(k, r) = b), (if (k) r = b))
OP2(m_where_b, ALL, 0, (RM r, CM k, CB b), true, (where(k, r) = b), (if (k) r = b))
OP2(m_where_and, ALL, 0, (RM r, CM k, CM b), true, (where(k, r) &= b), (if (k) r &= b))
OP2(m_where_or, ALL, 0, (RM r, CM k, CM b), true, (where(k, r) |= b), (if (k) r |= b))
OP2(m_where_xor, ALL, 0, (RM r, CM k, CM b), true, (where(k, r) ^= b), (if (k) r ^= b))
OP2(m_where_self, ALL, 0, (RM r, CM k), true, (where(k, r) ^= r), (if (k) r = false))
// bit-set conversion (extension)
WOP(m_to_bits, ALL, 0, (RUL r, CM a), (r = a.__to_bitset().to_ullong()), (r = 0; for (int i = 0; i < n; ++i) r |= (unsigned long)(a[i]) << i;))
WOP(m_from_bits, ALL, 0, (RM r, CUL b), (r = M::__from_bitset(b)), (for (int i = 0; i < n; ++i) r[i] = b >> i & 1;))
// queries
WOP(all_of, ALL, 0, (RB r, CM a), (r = all_of(a)), (r = true; for (int i = 0; i < n; ++i) r = r && a[i];))
WOP(any_of, ALL, 0, (RB r, CM a), (r = any_of(a)), (r = false; for (int i = 0; i < n; ++i) r = r || a[i];))
WOP(none_of, ALL, 0, (RB r, CM a), (r = none_of(a)), (r = true; for (int i = 0; i < n; ++i) r = r && !a[i];))
WOP(some_of, ALL, 0, (RB r, CM a), (r = some_of(a)), (int c = 0; for (int i = 0; i < n; ++i) c += a[i]; r = c > 0 && c < n;))
WOP(popcount, ALL, 0, (RI r, CM a), (r = popcount(a)), (r = 0; for (int i = 0; i < n; ++i) r += a[i];))
WOP(find_first, ALL, 0, (RI r, CM a), (r = find_first_set(a)), (ok = false; for (int i = n - 1; i >= 0; --i) if (a[i]) r = i, ok = true;))
WOP(find_last, ALL, 0, (RI r, CM a), (r = find_last_set(a)), (ok = false; for (int i = 0; i < n; ++i) if (a[i]) r = i, ok = true;))
WOP(all_of_not, ALL, 0, (RB r, CM a), (r = all_of(!a)), (r = true; for (int i = 0; i < n; ++i) r = r && !a[i];))
WOP(any_of_not, ALL, 0, (RB r, CM a), (r = any_of(!a)), (r = false; for (int i = 0; i < n; ++i) r = r || !a[i];))
WOP(popcount_not, ALL, 0, (RI r, CM a), (r = popcount(!a)), (r = 0; for (int i = 0; i < n; ++i) r += !a[i];))
WOP(popcount_eq, ALL, 0, (RI r, CM a, CM b), (r = popcount(a == b)), (r = 0; for (int i = 0; i < n; ++i) r += a[i] == b[i];))
WOP(some_of_xor, ALL, 0, (RB r, CM a, CM b), (r = some_of(a ^ b)), (int c = 0; for (int i = 0; i < n; ++i) c += a[i] != b[i]; r = c > 0 && c < n;))
WOP(find_last_not, ALL, 0, (RI r, CM a), (r = find_last_set(!a)), (ok = false; for (int i = 0; i < n; ++i) if (!a[i]) r = i, ok = true;))
// iteration over the set elements (extension)
WOP(m_iterate, ALL, 0, (RUL r, CM a), (r = 0; for (auto i : stdx::__proposed::where(a)) r = r * 67 + i + 1;), (r = 0; for (int i = 0; i < n; ++i) if (a[i]) r = r * 67 + i + 1;))
