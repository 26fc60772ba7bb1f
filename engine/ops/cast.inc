// C07 (W: target simd type of the same size, U its element type)
OP2(c_static, ALL, AT_CONVINT, (RW r, CV a), ok_cvt<U>(a), (r = stdx::static_simd_cast<W>(a)), (r = static_cast<U>(a)))
OP(cm_static, ALL, 0, (RMW r, CM a), true, (r = KCAST(MW, a)))
