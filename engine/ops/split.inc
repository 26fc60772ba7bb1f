// C08
#define SPL(NAME, COND, ...) WOPM(NAME, KSIDE(COND), 0, (T* m, CV a), N, (sink_tuple(m, stdx::split<__VA_ARGS__>(a))), (for (int i = 0; i < n; ++i) m[i] = a[i];))
#define SPA(NAME, COND, ...) WOPM(NAME, KSIDE(COND), 0, (T* m, CV a), N, (sink_array(m, stdx::split<__VA_ARGS__>(a))), (for (int i = 0; i < n; ++i) m[i] = a[i];))
#define SPM(NAME, COND, ...) WOPM(NAME, KSIDE(COND), 0, (bool* m, CM a), N, (sink_array(m, stdx::split<__VA_ARGS__>(a))), (for (int i = 0; i < n; ++i) m[i] = a[i];))
#define DIV(d) (N % d == 0 && N / d >= 1)
SPL(sp_all, true, N)
SPL(sp_half2, DIV(2), N / 2, N / 2)
SPL(sp_uneven, N > 1, N / 2, N - N / 2)
SPL(sp_uneven2, N > 2, N - N / 2, N / 2)
SPL(sp_1rest, N > 1, 1, N - 1)
SPL(sp_rest1, N > 1, N - 1, 1)
SPL(sp_thirds, DIV(3), N / 3, N / 3, N / 3)
SPL(sp_third21, DIV(3), 2 * N / 3, N / 3)
SPL(sp_third12, DIV(3), N / 3, 2 * N / 3)
SPL(sp_quart4, DIV(4), N / 4, N / 4, N / 4, N / 4)
SPL(sp_quart211, DIV(4), N / 2, N / 4, N / 4)
SPL(sp_quart112, DIV(4), N / 4, N / 4, N / 2)
SPL(sp_quart121, DIV(4), N / 4, N / 2, N / 4)
SPL(sp_quart13, DIV(4), N / 4, N - N / 4)
SPL(sp_quart31, DIV(4), N - N / 4, N / 4)
SPL(sp_231, N > 5, 2, 3, N - 5)
SPL(sp_mid, N > 2, 1, N - 2, 1)
SPL(sp_n22, N > 4, N - 4, 2, 2)
SPL(sp_eighth, DIV(8), N / 8, N / 8, N / 4, N / 2)
SPL(sp_eighth3, DIV(8), N / 8, N / 2 + N / 8, N / 4)
SPA(spa_half, DIV(2), dsimd<T, N / 2>)
SPA(spa_third, DIV(3), dsimd<T, N / 3>)
SPA(spa_quart, DIV(4), dsimd<T, N / 4>)
SPA(spa_eighth, DIV(8), dsimd<T, N / 8>)
SPA(spa_one, true, dsimd<T, 1>)
SPA(spa_two, DIV(2) && N > 2, dsimd<T, 2>)
SPA(spa_all, true, V)
SPA(spa_allfix, N <= 32, stdx::fixed_size_simd<T, N>)
SPA(spa_fhalf, DIV(2) && N <= 64, stdx::fixed_size_simd<T, N / 2>)
SPA(spa_fthird, DIV(3), stdx::fixed_size_simd<T, N / 3>)
SPA(spa_fquart, DIV(4), stdx::fixed_size_simd<T, N / 4>)
SPA(spa_fone, N <= 32, stdx::fixed_size_simd<T, 1>)
SPA(spa_scalar, true, stdx::simd<T, stdx::simd_abi::scalar>)
SPM(spm_half, DIV(2), dmask<T, N / 2>)
SPM(spm_third, DIV(3), dmask<T, N / 3>)
SPM(spm_quart, DIV(4), dmask<T, N / 4>)
SPM(spm_one, true, dmask<T, 1>)
SPM(spm_all, true, M)
SPM(spm_alldeduce, true, dmask<T, N>)
SPM(spm_fhalf, DIV(2), stdx::fixed_size_simd_mask<T, N / 2>)
SPM(spm_fthird, DIV(3), stdx::fixed_size_simd_mask<T, N / 3>)
SPM(spm_fquart, DIV(4), stdx::fixed_size_simd_mask<T, N / 4>)
WOPM(spm_half_not, KSIDE(DIV(2)), 0, (bool* m, CM a), N, (sink_array(m, stdx::split<dmask<T, N / 2>>(!a))), (for (int i = 0; i < n; ++i) m[i] = !a[i];))
WOPM(spm_query, KSIDE(DIV(2)), 0, (bool* m, CM a), 2, (auto s = stdx::split<dmask<T, N / 2>>(!a); m[0] = all_of(s[0]); m[1] = any_of(s[1])), (m[0] = true; m[1] = false; for (int i = 0; i < n / 2; ++i) { m[0] &= !a[i]; m[1] |= !a[n / 2 + i]; }))
// concat
WOP(cat_1, ALL, 0, (RV r, CV a), (auto c = concat(a); static_assert(std::is_same_v<decltype(c), dsimd<T, N>>); r = stdx::static_simd_cast<V>(c)), (for (int i = 0; i < n; ++i) r[i] = a[i];))
WOPM(cat_2, KSIDE(can_deduce<T, 2 * N>::value), 0, (T* m, CV a, CV b), 2 * N, (concat(a, b).copy_to(m, stdx::element_aligned)), (for (int i = 0; i < n; ++i) m[i] = a[i], m[n + i] = b[i];))
WOPM(cat_3, KSIDE(can_deduce<T, 3 * N>::value), 0, (T* m, CV a, CV b, CV c), 3 * N, (concat(a, b, c).copy_to(m, stdx::element_aligned)), (for (int i = 0; i < n; ++i) m[i] = a[i], m[n + i] = b[i], m[2 * n + i] = c[i];))
WOPM(cat_4, KSIDE(can_deduce<T, 4 * N>::value), 0, (T* m, CV a, CV b, CV c, CV d), 4 * N, (concat(a, b, c, d).copy_to(m, stdx::element_aligned)), (for (int i = 0; i < n; ++i) m[i] = a[i], m[n + i] = b[i], m[2 * n + i] = c[i], m[3 * n + i] = d[i];))
WOPM(cat_arr2, KSIDE(can_deduce<T, 2 * N>::value), 0, (T* m, CV a, CV b), 2 * N, (std::array<V, 2> x{a, b}; concat(x).copy_to(m, stdx::element_aligned)), (for (int i = 0; i < n; ++i) m[i] = a[i], m[n + i] = b[i];))
WOPM(cat_arr5, KSIDE(can_deduce<T, 5 * N>::value), 0, (T* m, CV a, CV b), 5 * N, (std::array<V, 5> x{a, b, a, b, b}; concat(x).copy_to(m, stdx::element_aligned)), (for (int i = 0; i < n; ++i) m[i] = m[2 * n + i] = a[i], m[n + i] = m[3 * n + i] = m[4 * n + i] = b[i];))
WOP(sp_cat_half, KSIDE(DIV(2)), 0, (RV r, CV a), (r = stdx::static_simd_cast<V>(concat(stdx::split<dsimd<T, N / 2>>(a)))), (for (int i = 0; i < n; ++i) r[i] = a[i];))
WOP(sp_cat_uneven, KSIDE(N > 2), 0, (RV r, CV a), (r = stdx::static_simd_cast<V>(std::apply([](const auto&... x) { return concat(x...); }, stdx::split<1, N - 1>(a)))), (for (int i = 0; i < n; ++i) r[i] = a[i];))
WOP(sp_swap, KSIDE(DIV(2)), 0, (RV r, CV a), (auto s = stdx::split<dsimd<T, N / 2>>(a); r = stdx::static_simd_cast<V>(concat(s[1], s[0]))), (for (int i = 0; i < n; ++i) r[i] = a[(i + n / 2) % n];))
