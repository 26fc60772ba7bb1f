// C10
OP2(min, ALL, AT_CLOSE | AT_NONAN | AT_ZEQ, (RV r, CV a, CV b), true, (r = min(a, b)), (r = b < a ? b : a))
OP2(max, ALL, AT_CLOSE | AT_NONAN | AT_ZEQ, (RV r, CV a, CV b), true, (r = max(a, b)), (r = a < b ? b : a))
OP2(minmax, ALL, AT_CLOSE | AT_NONAN | AT_ZEQ, (RV r, RV s, CV a, CV b), true, (auto p = minmax(a, b); r = p.first; s = p.second), (r = b < a ? b : a; s = b < a ? a : b))
OP2(clamp, ALL, AT_ORDERED | AT_NONAN | AT_ZEQ, (RV r, CV v, CV lo, CV hi), !(hi < lo), (r = clamp(v, lo, hi)), (r = v < lo ? lo : hi < v ? hi : v))
OP2(min_c, ALL, AT_NONAN | AT_ZEQ, (RV r, CV a), true, (r = min(a, V(T(3)))), (r = T(3) < a ? T(3) : a))
OP2(max_c, ALL, AT_NONAN | AT_ZEQ, (RV r, CV a), true, (r = max(V(T(3)), a)), (r = T(3) < a ? a : T(3)))
OP2(min_self, ALL, AT_NONAN, (RV r, CV a), true, (r = min(a, a)), (r = a))
OP2(clamp_deg, ALL, AT_CLOSE | AT_NONAN | AT_ZEQ, (RV r, CV v, CV lo), true, (r = clamp(v, lo, lo)), (r = lo))
WOP(hmin, ALL, AT_NONAN | AT_ZEQ, (RS r, CV a), (r = hmin(a)), (r = a[0]; for (int i = 1; i < n; ++i) if (a[i] < r) r = a[i];))
WOP(hmax, ALL, AT_NONAN | AT_ZEQ, (RS r, CV a), (r = hmax(a)), (r = a[0]; for (int i = 1; i < n; ++i) if (r < a[i]) r = a[i];))
