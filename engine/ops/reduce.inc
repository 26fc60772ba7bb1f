// C09. Sums and products: values for which every association is exact / does not overflow.
WOP(sum, ALL, AT_EXACTFOLD, (RS r, CV a), (r = reduce(a)), (ok = fold_add(a, n, r);))
WOP(sum_plus, ALL, AT_EXACTFOLD, (RS r, CV a), (r = reduce(a, std::plus<>())), (ok = fold_add(a, n, r);))
WOP(sum_lambda, ALL, AT_EXACTFOLD, (RS r, CV a), (r = reduce(a, [](auto x, auto y) { return decltype(x)(x + y); })), (ok = fold_add(a, n, r);))
WOP(prod, ALL, AT_EXACTFOLD | AT_ZEQ, (RS r, CV a), (r = reduce(a, std::multiplies<>())), (ok = fold_mul(a, n, r);))
WOP(prod_lambda, ALL, AT_EXACTFOLD | AT_ZEQ, (RS r, CV a), (r = reduce(a, [](auto x, auto y) { return decltype(x)(x * y); })), (ok = fold_mul(a, n, r);))
WOP(wsum, (INTS && (!std::is_signed_v<T> || sizeof(T) < 4)), 0, (RS r, CV a), (r = reduce(a)), (r = 0; for (int i = 0; i < n; ++i) r = T(r + a[i]);))
WOP(and_fold, INTS, 0, (RS r, CV a), (r = reduce(a, std::bit_and<>())), (r = a[0]; for (int i = 1; i < n; ++i) r = T(r & a[i]);))
WOP(or_fold, INTS, 0, (RS r, CV a), (r = reduce(a, std::bit_or<>())), (r = a[0]; for (int i = 1; i < n; ++i) r = T(r | a[i]);))
WOP(xor_fold, INTS, 0, (RS r, CV a), (r = reduce(a, std::bit_xor<>())), (r = a[0]; for (int i = 1; i < n; ++i) r = T(r ^ a[i]);))
WOP(xor_lambda, INTS, 0, (RS r, CV a), (r = reduce(a, [](auto x, auto y) { return decltype(x)(x ^ y); })), (r = a[0]; for (int i = 1; i < n; ++i) r = T(r ^ a[i]);))
WOP(min_lambda, ALL, AT_NONAN | AT_ZEQ, (RS r, CV a), (r = reduce(a, [](auto x, auto y) { using std::min; using stdx::min; return decltype(x)(min(x, y)); })), (r = a[0]; for (int i = 1; i < n; ++i) if (a[i] < r) r = a[i];))
WOP(r_hmin, ALL, AT_NONAN | AT_ZEQ, (RS r, CV a), (r = hmin(a)), (r = a[0]; for (int i = 1; i < n; ++i) if (a[i] < r) r = a[i];))
WOP(r_hmax, ALL, AT_NONAN | AT_ZEQ, (RS r, CV a), (r = hmax(a)), (r = a[0]; for (int i = 1; i < n; ++i) if (r < a[i]) r = a[i];))
// selected elements only
WOP(w_sum, ALL, AT_EXACTFOLD, (RS r, CM k, CV a), (r = reduce(where(k, a))), (ok = fold_add(a, n, r, k);))
WOP(w_sum_nc, ALL, AT_EXACTFOLD, (RS r, CM k, RV a), (r = reduce(where(k, a), std::plus<>())), (ok = fold_add(a, n, r, k);))
WOP(w_prod, ALL, AT_EXACTFOLD | AT_ZEQ, (RS r, CM k, CV a), (r = reduce(where(k, a), std::multiplies<>())), (ok = fold_mul(a, n, r, k);))
WOP(w_and_fold, INTS, 0, (RS r, CM k, CV a), (r = reduce(where(k, a), std::bit_and<>())), (r = T(~T()); for (int i = 0; i < n; ++i) if (k[i]) r = T(r & a[i]);))
WOP(w_or_fold, INTS, 0, (RS r, CM k, CV a), (r = reduce(where(k, a), std::bit_or<>())), (r = 0; for (int i = 0; i < n; ++i) if (k[i]) r = T(r | a[i]);))
WOP(w_xor_fold, INTS, 0, (RS r, CM k, CV a), (r = reduce(where(k, a), std::bit_xor<>())), (r = 0; for (int i = 0; i < n; ++i) if (k[i]) r = T(r ^ a[i]);))
WOP(w_max_id, INTS, 0, (RS r, CM k, CV a), (r = reduce(where(k, a), std::numeric_limits<T>::lowest(), [](auto x, auto y) { using std::max; using stdx::max; return decltype(x)(max(x, y)); })), (r = std::numeric_limits<T>::lowest(); for (int i = 0; i < n; ++i) if (k[i] && r < a[i]) r = a[i];))
WOP(w_sum_id, ALL, AT_EXACTFOLD, (RS r, CM k, CV a), (r = reduce(where(k, a), T(0), [](auto x, auto y) { return decltype(x)(x + y); })), (ok = fold_add(a, n, r, k);))
WOP(w_hmin, ALL, AT_NONAN | AT_ZEQ, (RS r, CM k, CV a), (r = hmin(where(k, a))), (r = lim_max<T>(); for (int i = 0; i < n; ++i) if (k[i] && a[i] < r) r = a[i];))
WOP(w_hmax, ALL, AT_NONAN | AT_ZEQ, (RS r, CM k, CV a), (r = hmax(where(k, a))), (r = lim_min<T>(); for (int i = 0; i < n; ++i) if (k[i] && r < a[i]) r = a[i];))
WOP(w_hmin_nc, ALL, AT_NONAN | AT_ZEQ, (RS r, CM k, RV a), (r = hmin(where(k, a))), (r = lim_max<T>(); for (int i = 0; i < n; ++i) if (k[i] && a[i] < r) r = a[i];))
