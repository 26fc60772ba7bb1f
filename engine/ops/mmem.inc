// C06 (U: memory element type)
OP2(msk_load, ALL, AT_CONVINT, (RV r, CM k, const U* m), !k || ok_cvt<T>(*m), (where(k, r).copy_from(m, stdx::element_aligned)), (if (k) r = static_cast<T>(*m)))
OPX(msk_load_va, ALL, AT_CONVINT, (RV r, CM k, const U* m), !k || ok_cvt<T>(*m), N, (stdx::memory_alignment_v<V, U>), (where(k, r).copy_from(m, stdx::vector_aligned)), (if (k) r = static_cast<T>(*m)))
OP2(msk_cload, ALL, AT_CONVINT, (RV r, CM k, CV a, const U* m), !k || ok_cvt<T>(*m), (r = where(k, a).copy_from(m, stdx::element_aligned)), (r = k ? static_cast<T>(*m) : a))
OP2(msk_store, ALL, AT_CONVINT, (U* m, CM k, CV a), !k || ok_cvt<U>(a), (where(k, a).copy_to(m, stdx::element_aligned)), (if (k) *m = static_cast<U>(a)))
OP2(msk_store_nc, ALL, AT_CONVINT, (U* m, CM k, RV a), !k || ok_cvt<U>(a), (where(k, a).copy_to(m, stdx::element_aligned)), (if (k) *m = static_cast<U>(a)))
OPX(msk_store_va, ALL, AT_CONVINT, (U* m, CM k, CV a), !k || ok_cvt<U>(a), N, (stdx::memory_alignment_v<V, U>), (where(k, a).copy_to(m, stdx::vector_aligned)), (if (k) *m = static_cast<U>(a)))
