// C14
#define IX(i) (unsigned(i) % unsigned(n_))
OP2(bcast, ALL, 0, (RV r, CS b), true, (r = b), (r = b))
OP2(bcast_ctor, ALL, 0, (RV r, CS b), true, (V t(b); r = t), (r = b))
OP2(zero_init, ALL, 0, (RV r, CV a), true, (V t{}; r = t), (r = T()))
OP2(bcast_int, ALL, AT_ORDER, (RV r, CI b), true, (r = V(b)), (r = T(b)))
OP2(copy, ALL, 0, (RV r, CV a), true, (V t(a); V u = std::move(t); r = u), (r = a))
WOP(gen_index, ALL, 0, (RV r, CV a), (r = V([&](auto i) { return T(a[i]); })), (for (int i = 0; i < n; ++i) r[i] = a[i];))
WOP(gen_rev, ALL, 0, (RV r, CV a), (r = V([&](auto i) { return T(a[N - 1 - i]); })), (for (int i = 0; i < n; ++i) r[i] = a[n - 1 - i];))
WOP(gen_mem, ALL, 0, (RV r, const T* m), (r = V([&](auto i) { return m[i]; })), (for (int i = 0; i < n; ++i) r[i] = m[i];))
WOP(gen_static, ALL, 0, (RV r, CS s), (r = V([](auto i) -> T { constexpr int k = decltype(i)::value; static_assert(k >= 0 && k < N); return T(k + 1); })), (for (int i = 0; i < n; ++i) r[i] = T(i + 1);))
WOP(gen_calls, ALL, 0, (RV r, RL c), (unsigned long seen = 0; long calls = 0; r = V([&](auto i) { seen |= 1ul << int(i); ++calls; return T(int(i)); }); c = (seen == (N == 64 ? ~0ul : (1ul << N) - 1)) ? calls : -1;), (c = n; for (int i = 0; i < n; ++i) r[i] = T(i);))
WOP(get, ALL, 0, (RS r, CV a, CI i), (r = a[unsigned(i) % N]), (r = a[unsigned(i) % n]))
WOP(get_ref, ALL, 0, (RS r, RV a, CI i), (r = a[unsigned(i) % N]), (r = a[unsigned(i) % n]))
WOP(get_all, ALL, 0, (T* m, CV a), (for (int i = 0; i < N; ++i) m[i] = a[i]), (for (int i = 0; i < n; ++i) m[i] = a[i];))
WOP(get_const, ALL, 0, (RS r, CV a), (r = a[N / 2]), (r = a[n / 2]))
WOP(set, ALL, 0, (RV r, CI i, CS b), (r[unsigned(i) % N] = b), (r[unsigned(i) % n] = b))
WOP(set_const, ALL, 0, (RV r, CS b), (r[N - 1] = b), (r[n - 1] = b))
WOP(set_all, ALL, 0, (RV r, const T* m), (for (int i = 0; i < N; ++i) r[i] = m[i]), (for (int i = 0; i < n; ++i) r[i] = m[i];))
WOP(set_uninit, ALL, 0, (RV r, const T* m), (V t; for (int i = 0; i < N; ++i) t[i] = m[i]; r = t;), (for (int i = 0; i < n; ++i) r[i] = m[i];))
WOP(ref_add, ALL, 0, (RV r, CI i, CS b), (r[unsigned(i) % N] += b), (T& x = r[unsigned(i) % n]; ok = ok_add(x, b); if (ok) x += b;))
WOP(ref_sub, ALL, 0, (RV r, CI i, CS b), (r[unsigned(i) % N] -= b), (T& x = r[unsigned(i) % n]; ok = ok_sub(x, b); if (ok) x -= b;))
WOP(ref_mul, ALL, 0, (RV r, CI i, CS b), (r[unsigned(i) % N] *= b), (T& x = r[unsigned(i) % n]; ok = ok_mul(x, b); if (ok) x *= b;))
WOP(ref_div, ALL, 0, (RV r, CI i, CS b), (r[unsigned(i) % N] /= b), (T& x = r[unsigned(i) % n]; ok = ok_div(x, b); if (ok) x /= b;))
WOP(ref_mod, INTS, 0, (RV r, CI i, CS b), (r[unsigned(i) % N] %= b), (T& x = r[unsigned(i) % n]; ok = ok_div(x, b); if (ok) x %= b;))
WOP(ref_and, INTS, 0, (RV r, CI i, CS b), (r[unsigned(i) % N] &= b), (r[unsigned(i) % n] &= b))
WOP(ref_or, INTS, 0, (RV r, CI i, CS b), (r[unsigned(i) % N] |= b), (r[unsigned(i) % n] |= b))
WOP(ref_xor, INTS, 0, (RV r, CI i, CS b), (r[unsigned(i) % N] ^= b), (r[unsigned(i) % n] ^= b))
WOP(ref_shl, INTS, AT_SHIFT, (RV r, CI i, CS b), (r[unsigned(i) % N] <<= b), (T& x = r[unsigned(i) % n]; ok = ok_sh(x, b); if (ok) x = shl(x, b);))
WOP(ref_shr, INTS, AT_SHIFT, (RV r, CI i, CS b), (r[unsigned(i) % N] >>= b), (T& x = r[unsigned(i) % n]; ok = ok_sh(x, b); if (ok) x = shr(x, b);))
WOP(ref_inc, ALL, 0, (RV r, CI i), (++r[unsigned(i) % N]), (T& x = r[unsigned(i) % n]; ok = ok_add(x, 1); if (ok) ++x;))
WOP(ref_dec, ALL, 0, (RV r, CI i), (--r[unsigned(i) % N]), (T& x = r[unsigned(i) % n]; ok = ok_sub(x, 1); if (ok) --x;))
WOP(ref_pinc, ALL, 0, (RV r, RS o, CI i), (o = r[unsigned(i) % N]++), (T& x = r[unsigned(i) % n]; ok = ok_add(x, 1); o = x; if (ok) x++;))
WOP(ref_pdec, ALL, 0, (RV r, RS o, CI i), (o = r[unsigned(i) % N]--), (T& x = r[unsigned(i) % n]; ok = ok_sub(x, 1); o = x; if (ok) x--;))
WOP(ref_chain, ALL, 0, (RV r, RS o, CI i, CS b), (o = (r[unsigned(i) % N] = b)), (o = r[unsigned(i) % n] = b))
WOP(ref_swap, ALL, 0, (RV r, CI i, CI j), (using std::swap; swap(r[unsigned(i) % N], r[unsigned(j) % N]);), (T t = r[unsigned(i) % n]; r[unsigned(i) % n] = r[unsigned(j) % n]; r[unsigned(j) % n] = t;))
WOP(ref_swap_other, ALL, 0, (RV r, RV s, CI i, CI j), (using std::swap; swap(r[unsigned(i) % N], s[unsigned(j) % N]);), (T t = r[unsigned(i) % n]; r[unsigned(i) % n] = s[unsigned(j) % n]; s[unsigned(j) % n] = t;))
WOP(ref_swap_val, ALL, 0, (RV r, RS s, CI i), (using std::swap; swap(r[unsigned(i) % N], s);), (T t = r[unsigned(i) % n]; r[unsigned(i) % n] = s; s = t;))
WOP(val_swap_ref, ALL, 0, (RV r, RS s, CI i), (using std::swap; swap(s, r[unsigned(i) % N]);), (T t = r[unsigned(i) % n]; r[unsigned(i) % n] = s; s = t;))
WOP(ref_copy, ALL, 0, (RV r, RV s, CI i, CI j), (r[unsigned(i) % N] = T(s[unsigned(j) % N])), (r[unsigned(i) % n] = s[unsigned(j) % n]))
// what is written element-wise is what arithmetic sees
WOP(set_then_add, ALL, 0, (RV r, CV a, CI i, CS b), (V t = a; t[unsigned(i) % N] = b; r = t + t;), (for (int q = 0; q < n; ++q) { T x = q == int(unsigned(i) % n) ? b : a[q]; ok = ok && ok_add(x, x); if (ok) r[q] = x + x; }))
WOP(m_set_then_any, ALL, 0, (RB r, CM a, CI i, CB b), (M t = a; t[unsigned(i) % N] = b; r = any_of(t);), (r = false; for (int q = 0; q < n; ++q) r |= q == int(unsigned(i) % n) ? b : a[q];))
