// C07
OP2(to_fixed, ALL, 0, (T* m, CV a), true, (auto t = to_fixed_size(a); static_assert(std::is_same_v<decltype(t), stdx::fixed_size_simd<T, N>>); t.copy_to(m, stdx::element_aligned)), (*m = a))
OP2(to_fixed_m, ALL, 0, (bool* m, CM a), true, (auto t = to_fixed_size(a); static_assert(std::is_same_v<decltype(t), stdx::fixed_size_simd_mask<T, N>>); t.copy_to(m, stdx::element_aligned)), (*m = a))
OP2(to_nat, KSIDE(is_fixed<V> && N == int(stdx::native_simd<T>::size())), 0, (T* m, CV a), true, (auto t = to_native(a); static_assert(std::is_same_v<decltype(t), stdx::native_simd<T>>); t.copy_to(m, stdx::element_aligned)), (*m = a))
OP2(to_nat_m, KSIDE(is_fixed<V> && N == int(stdx::native_simd<T>::size())), 0, (bool* m, CM a), true, (auto t = to_native(a); static_assert(std::is_same_v<decltype(t), stdx::native_simd_mask<T>>); t.copy_to(m, stdx::element_aligned)), (*m = a))
OP2(to_comp, KSIDE(is_fixed<V> && N == int(stdx::simd<T>::size())), 0, (T* m, CV a), true, (auto t = to_compatible(a); static_assert(std::is_same_v<decltype(t), stdx::simd<T>>); t.copy_to(m, stdx::element_aligned)), (*m = a))
OP2(to_comp_m, KSIDE(is_fixed<V> && N == int(stdx::simd<T>::size())), 0, (bool* m, CM a), true, (auto t = to_compatible(a); static_assert(std::is_same_v<decltype(t), stdx::simd_mask<T>>); t.copy_to(m, stdx::element_aligned)), (*m = a))
OP2(fix_roundtrip, ALL, 0, (RV r, CV a), true, (r = stdx::static_simd_cast<V>(to_fixed_size(a))), (r = a))
