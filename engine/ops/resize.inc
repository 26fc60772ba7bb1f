// C07 (W: simd type of any size, same element type)
WOP(rz_simd, KSIDE(std::is_same_v<T, U>), 0, (RW r, CV a), (r = stdx::__proposed::resizing_simd_cast<W>(a)), (for (int i = 0; i < wa[0]; ++i) r[i] = i < wa[1] ? a[i] : T();))
WOP(rz_mask, KSIDE(true), 0, (RMW r, CM a), (r = stdx::__proposed::resizing_simd_cast<MW>(a)), (for (int i = 0; i < wa[0]; ++i) r[i] = i < wa[1] ? a[i] : false;))
WOP(rz_mask_cmp, KSIDE(true), AT_CLOSE, (RMW r, CV a, CV b), (r = stdx::__proposed::resizing_simd_cast<MW>(a == b)), (for (int i = 0; i < wa[0]; ++i) r[i] = i < wa[1] ? a[i] == b[i] : false;))
WOP(rz_mask_not, KSIDE(true), 0, (RMW r, CM a), (r = stdx::__proposed::resizing_simd_cast<MW>(!a)), (for (int i = 0; i < wa[0]; ++i) r[i] = i < wa[1] ? !a[i] : false;))
// C08
WOPM(cat_vw, KSIDE(std::is_same_v<T, U> && can_deduce<T, N + int(W::size())>::value), 0, (T* m, CV a, CW b), N + int(W::size()), (auto c = concat(a, b); static_assert(std::is_same_v<decltype(c), dsimd<T, N + int(W::size())>>); c.copy_to(m, stdx::element_aligned)), (for (int i = 0; i < wa[1]; ++i) m[i] = a[i]; for (int i = 0; i < wa[2]; ++i) m[wa[1] + i] = b[i];))
WOPM(cat_wv, KSIDE(std::is_same_v<T, U> && can_deduce<T, N + int(W::size())>::value), 0, (T* m, CW a, CV b), N + int(W::size()), (concat(a, b).copy_to(m, stdx::element_aligned)), (for (int i = 0; i < wa[1]; ++i) m[i] = a[i]; for (int i = 0; i < wa[2]; ++i) m[wa[1] + i] = b[i];))
WOPM(cat_vwv, KSIDE(std::is_same_v<T, U> && can_deduce<T, 2 * N + int(W::size())>::value), 0, (T* m, CV a, CW b, CV c), 2 * N + int(W::size()), (concat(a, b, c).copy_to(m, stdx::element_aligned)), (for (int i = 0; i < wa[1]; ++i) m[i] = a[i]; for (int i = 0; i < wa[2]; ++i) m[wa[1] + i] = b[i]; for (int i = 0; i < wa[3]; ++i) m[wa[1] + wa[2] + i] = c[i];))
WOPM(cat_split, KSIDE(std::is_same_v<T, U> && can_deduce<T, N + int(W::size())>::value), 0, (T* m, CV a, CW b), N + int(W::size()), (auto c = concat(a, b); auto s = stdx::split<size_t(N), W::size()>(c); sink_tuple(m, s)), (for (int i = 0; i < wa[1]; ++i) m[i] = a[i]; for (int i = 0; i < wa[2]; ++i) m[wa[1] + i] = b[i];))
