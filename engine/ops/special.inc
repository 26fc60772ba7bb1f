// C19: special functions (domain: where the std function is defined and converges quickly)
OP2(s_comp_ellint_1, FPS, AT_UNIT, (RV r, CV a), (a > -1 && a < 1), (r = comp_ellint_1(a)), (try { r = std::comp_ellint_1(a); } catch (...) { return false; }))
OP2(s_comp_ellint_2, FPS, AT_UNIT, (RV r, CV a), (a > -1 && a < 1), (r = comp_ellint_2(a)), (try { r = std::comp_ellint_2(a); } catch (...) { return false; }))
OP2(s_expint, FPS, AT_UNIT, (RV r, CV a), (a >= -50 && a <= 50 && a != 0), (r = expint(a)), (try { r = std::expint(a); } catch (...) { return false; }))
OP2(s_riemann_zeta, FPS, AT_UNIT, (RV r, CV a), (a >= -10 && a <= 50 && (a < T(.9) || a > T(1.1))), (r = riemann_zeta(a)), (try { r = std::riemann_zeta(a); } catch (...) { return false; }))
OP2(s_beta, FPS, AT_UNIT, (RV r, CV a, CV b), (a > T(.01) && a < 20 && b > T(.01) && b < 20), (r = beta(a, b)), (try { r = std::beta(a, b); } catch (...) { return false; }))
OP2(s_beta_sv, FPS, AT_UNIT, (RV r, CS a, CV b), (a > T(.01) && a < 20 && b > T(.01) && b < 20), (r = beta(a, b)), (try { r = std::beta(a, b); } catch (...) { return false; }))
OP2(s_comp_ellint_3, FPS, AT_UNIT, (RV r, CV a, CV b), (a > -1 && a < 1 && b > -1 && b < 1), (r = comp_ellint_3(a, b)), (try { r = std::comp_ellint_3(a, b); } catch (...) { return false; }))
OP2(s_comp_ellint_3_sv, FPS, AT_UNIT, (RV r, CS a, CV b), (a > -1 && a < 1 && b > -1 && b < 1), (r = comp_ellint_3(a, b)), (try { r = std::comp_ellint_3(a, b); } catch (...) { return false; }))
OP2(s_cyl_bessel_i, FPS, AT_UNIT, (RV r, CV a, CV b), (a >= 0 && a < 20 && b > T(.05) && b < 40), (r = cyl_bessel_i(a, b)), (try { r = std::cyl_bessel_i(a, b); } catch (...) { return false; }))
OP2(s_cyl_bessel_i_sv, FPS, AT_UNIT, (RV r, CS a, CV b), (a >= 0 && a < 20 && b > T(.05) && b < 40), (r = cyl_bessel_i(a, b)), (try { r = std::cyl_bessel_i(a, b); } catch (...) { return false; }))
OP2(s_cyl_bessel_j, FPS, AT_UNIT, (RV r, CV a, CV b), (a >= 0 && a < 20 && b > T(.05) && b < 40), (r = cyl_bessel_j(a, b)), (try { r = std::cyl_bessel_j(a, b); } catch (...) { return false; }))
OP2(s_cyl_bessel_j_sv, FPS, AT_UNIT, (RV r, CS a, CV b), (a >= 0 && a < 20 && b > T(.05) && b < 40), (r = cyl_bessel_j(a, b)), (try { r = std::cyl_bessel_j(a, b); } catch (...) { return false; }))
OP2(s_cyl_bessel_k, FPS, AT_UNIT, (RV r, CV a, CV b), (a >= 0 && a < 20 && b > T(.05) && b < 40), (r = cyl_bessel_k(a, b)), (try { r = std::cyl_bessel_k(a, b); } catch (...) { return false; }))
OP2(s_cyl_bessel_k_sv, FPS, AT_UNIT, (RV r, CS a, CV b), (a >= 0 && a < 20 && b > T(.05) && b < 40), (r = cyl_bessel_k(a, b)), (try { r = std::cyl_bessel_k(a, b); } catch (...) { return false; }))
OP2(s_cyl_neumann, FPS, AT_UNIT, (RV r, CV a, CV b), (a >= 0 && a < 20 && b > T(.05) && b < 40), (r = cyl_neumann(a, b)), (try { r = std::cyl_neumann(a, b); } catch (...) { return false; }))
OP2(s_cyl_neumann_sv, FPS, AT_UNIT, (RV r, CS a, CV b), (a >= 0 && a < 20 && b > T(.05) && b < 40), (r = cyl_neumann(a, b)), (try { r = std::cyl_neumann(a, b); } catch (...) { return false; }))
OP2(s_ellint_1, FPS, AT_UNIT, (RV r, CV a, CV b), (a > -1 && a < 1 && b > -2 && b < 2), (r = ellint_1(a, b)), (try { r = std::ellint_1(a, b); } catch (...) { return false; }))
OP2(s_ellint_1_sv, FPS, AT_UNIT, (RV r, CS a, CV b), (a > -1 && a < 1 && b > -2 && b < 2), (r = ellint_1(a, b)), (try { r = std::ellint_1(a, b); } catch (...) { return false; }))
OP2(s_ellint_2, FPS, AT_UNIT, (RV r, CV a, CV b), (a > -1 && a < 1 && b > -2 && b < 2), (r = ellint_2(a, b)), (try { r = std::ellint_2(a, b); } catch (...) { return false; }))
OP2(s_ellint_2_sv, FPS, AT_UNIT, (RV r, CS a, CV b), (a > -1 && a < 1 && b > -2 && b < 2), (r = ellint_2(a, b)), (try { r = std::ellint_2(a, b); } catch (...) { return false; }))
OP2(s_ellint_3, FPS, AT_UNIT, (RV r, CV a, CV b, CV c), (a > -1 && a < 1 && b > -1 && b < 1 && c > T(-1.5) && c < T(1.5)), (r = ellint_3(a, b, c)), (try { r = std::ellint_3(a, b, c); } catch (...) { return false; }))
OP2(s_hermite, FPS, AT_UNIT | AT_ORDER, (RV r, CFU k, CV a), (a >= -20 && a <= 20), (r = hermite(k, a)), (try { r = std::hermite(k, a); } catch (...) { return false; }))
OP2(s_laguerre, FPS, AT_UNIT | AT_ORDER, (RV r, CFU k, CV a), (a >= 0 && a <= 20), (r = laguerre(k, a)), (try { r = std::laguerre(k, a); } catch (...) { return false; }))
OP2(s_legendre, FPS, AT_UNIT | AT_ORDER, (RV r, CFU k, CV a), (a >= -1 && a <= 1), (r = legendre(k, a)), (try { r = std::legendre(k, a); } catch (...) { return false; }))
OP2(s_sph_bessel, FPS, AT_UNIT | AT_ORDER, (RV r, CFU k, CV a), (a >= 0 && a < 50), (r = sph_bessel(k, a)), (try { r = std::sph_bessel(k, a); } catch (...) { return false; }))
OP2(s_sph_neumann, FPS, AT_UNIT | AT_ORDER, (RV r, CFU k, CV a), (a > T(0.0625) && a <= 50), (r = sph_neumann(k, a)), (try { r = std::sph_neumann(k, a); } catch (...) { return false; }))
OP2(s_assoc_laguerre, FPS, AT_UNIT | AT_ORDER, (RV r, CFU k, CFU l, CV a), (a >= 0 && a <= 20), (r = assoc_laguerre(k, l, a)), (try { r = std::assoc_laguerre(k, l, a); } catch (...) { return false; }))
OP2(s_assoc_legendre, FPS, AT_UNIT | AT_ORDER, (RV r, CFU k, CFU l, CV a), (a >= -1 && a <= 1) && l <= k, (r = assoc_legendre(k, l, a)), (try { r = std::assoc_legendre(k, l, a); } catch (...) { return false; }))
OP2(s_sph_legendre, FPS, AT_UNIT | AT_ORDER, (RV r, CFU k, CFU l, CV a), (a >= -4 && a <= 4) && l <= k, (r = sph_legendre(k, l, a)), (try { r = std::sph_legendre(k, l, a); } catch (...) { return false; }))
