// C05 (U: memory element type)
OP2(load, ALL, AT_CONVINT, (RV r, const U* m), ok_cvt<T>(*m), (r.copy_from(m, stdx::element_aligned)), (r = static_cast<T>(*m)))
OP2(load_ctor, ALL, AT_CONVINT, (RV r, const U* m), ok_cvt<T>(*m), (r = V(m, stdx::element_aligned)), (r = static_cast<T>(*m)))
OPX(load_va, ALL, AT_CONVINT, (RV r, const U* m), ok_cvt<T>(*m), N, (stdx::memory_alignment_v<V, U>), (r.copy_from(m, stdx::vector_aligned)), (r = static_cast<T>(*m)))
OPX(load_oa, ALL, AT_CONVINT, (RV r, const U* m), ok_cvt<T>(*m), N, 256, (r.copy_from(m, stdx::overaligned<256>)), (r = static_cast<T>(*m)))
OP2(store, ALL, AT_CONVINT, (U* m, CV a), ok_cvt<U>(a), (a.copy_to(m, stdx::element_aligned)), (*m = static_cast<U>(a)))
OPX(store_va, ALL, AT_CONVINT, (U* m, CV a), ok_cvt<U>(a), N, (stdx::memory_alignment_v<V, U>), (a.copy_to(m, stdx::vector_aligned)), (*m = static_cast<U>(a)))
OPX(store_oa, ALL, AT_CONVINT, (U* m, CV a), ok_cvt<U>(a), N, 256, (a.copy_to(m, stdx::overaligned<256>)), (*m = static_cast<U>(a)))
